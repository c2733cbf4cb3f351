"""C30  assemblies of fields in space: every field keeps its own data, and the
assembly answers with the (mean) value of the fields covering a place"""
import itertools

import numpy as np

from mc.core import Mismatch, expect
from mc import fm, geo
from mc.fm import U

BOUNDS = ("assemblies of 1 to 3 fields out of 7 tiles (adjacent, overlapping, "
          "nested, apart, with masked points or borders, in other units), "
          "every order; every node, edge middle, cell centre and outer point "
          "of a lattice; every sequence of <=3 operations of an alphabet")


def tile(kind, n):
    """n-th tile: a planar field on its own grid"""
    ax, ay, masked, ux, uv = [
        ([0., 1., 2.], [0., 1.], (), "m", "m/s"),
        ([2., 3., 4.], [0., 1.], (), "m", "m/s"),
        ([1., 1.5, 2.5], [0., .5, 2.], ((1, 1),), "m", "m/s"),
        ([6., 7.], [-1., 0., 1.], ((0, 0), (0, 1), (0, 2)), "m", "m/s"),
        ([500., 1000., 1750., 3500.], [0., 1.], (), "mm", "m/s"),
        ([0., 2., 4.], [-1., 1., 2.], ((0, 0), (2, 2)), "m", "mm/s"),
        ([1., 2., 3.], [1., 2., 3.], ((0, 2), (1, 2), (2, 2), (1, 1)), "m",
         "mm/s")][n]
    ax, ay = np.array(ax), np.array(ay)
    X, Y = np.meshgrid(ax*fm.ratio(U(ux), U("m")), ay, indexing="ij")
    k = 1000. if uv == "mm/s" else 1.
    comps = [(1 + n + (n % 3 - .5)*X - 2*Y)*k, (3 - n + X + n*Y)*k]
    mask = np.zeros(X.shape, bool)
    for p in masked:
        mask[p] = True
    return fm.M(ax, ay, comps[:1 if kind == "s" else 2], mask, ux, "m", uv)


def stored(m, first):
    """what an assembly whose first field is `first` keeps of m"""
    for axe, u in (("x", first.ux), ("y", first.uy), ("values", first.uv)):
        cur = {"x": m.ux, "y": m.uy, "values": m.uv}[axe]
        r = fm.ratio(cur, u)
        if axe == "x":
            m = fm.M(m.ax*r, m.ay, m.comps, m.mask, u, m.uy, m.uv)
        elif axe == "y":
            m = fm.M(m.ax, m.ay*r, m.comps, m.mask, m.ux, u, m.uv)
        else:
            m = fm.M(m.ax, m.ay, [c*r for c in m.comps], m.mask, m.ux, m.uy,
                     u)
    return geo.crop_masked_border(m)


def assemble(kind, models):
    from IMTreatment.core import SpatialScalarFields, SpatialVectorFields
    a = SpatialScalarFields() if kind == "s" else SpatialVectorFields()
    for m in models:
        f = m.real()
        s = fm.snap(f)
        a.add_field(f)
        expect(fm.snap(f) == s, "given field modified")
        # the assembly has data of its own
        f.scale(scalex=3., scalev=7., inplace=True)
    return a


def same(a, models, what=""):
    expect(len(a) == len(models), "number of fields" + what,
           lambda: (len(a), len(models)))
    ks = []
    for f, m in zip(a, models):
        fm.wellformed(f)
        ks.append(fm.compare(f, m, what=what))
    if models:
        for u, e in ((a.unit_x, models[0].ux), (a.unit_y, models[0].uy),
                     (a.unit_values, models[0].uv)):
            expect(fm.same_unit(u, e), "unit of the assembly" + what,
                   lambda: (str(u), str(e)))
    return tuple(ks)


def value(m, x, y):
    """value of a (piecewise planar) field at a place; None outside of its
    domain, 'skip' in the cells touching a masked point"""
    e = 1e-9*max(1, np.max(np.abs(m.ax)), np.max(np.abs(m.ay)))
    if x < m.ax[0] - e or x > m.ax[-1] + e or y < m.ay[0] - e or \
            y > m.ay[-1] + e:
        return None
    for a, q in ((m.ax, x), (m.ay, y)):
        if min(abs(a[0] - q), abs(a[-1] - q)) < e and q not in a:
            return "skip"       # border within rounding

    def w(a, q):
        for i, p in enumerate(a):
            if abs(p - q) < e:
                return [(i, 1.)]
        i = int(np.searchsorted(a, q)) - 1
        t = (q - a[i])/(a[i + 1] - a[i])
        return [(i, 1 - t), (i + 1, t)]
    wx, wy = w(m.ax, x), w(m.ay, y)
    if len(wx)*len(wy) > 1 and any(m.mask[i, j] for i, _ in wx
                                   for j, _ in wy):
        return "skip"
    return np.array([sum(c[i, j]*a*b for i, a in wx for j, b in wy)
                     for c in m.comps])


def mean(models, x, y):
    vs = [value(m, x, y) for m in models]
    if any(isinstance(v, str) for v in vs):
        return "skip"
    vs = [v for v in vs if v is not None]
    if not vs:
        return None
    ok = [v for v in vs if not np.any(np.isnan(v))]
    if not ok:
        return np.array(vs[0])*np.nan
    return sum(ok)/len(ok)


def lattice(models):
    def pts(axs):
        p = sorted({round(float(v), 9) for a in axs for v in a})
        return sorted(p + [(a + b)/2 for a, b in zip(p, p[1:])] +
                      [p[0] - 1, p[-1] + 1])
    return pts([m.ax for m in models]), pts([m.ay for m in models])


def lookups(ck, kind, models, d):
    def fn():
        a = assemble(kind, models)
        ms = [stored(m, models[0]) for m in models]
        k = same(a, ms)
        px, py = lattice(ms)
        n = 0
        for x, y in itertools.product(px, py):
            e = mean(ms, x, y)
            if isinstance(e, str):
                continue
            n += 1
            if e is None:
                expect(a.get_value(x, y, error=False) is None,
                       "value outside the fields", (x, y))
                try:
                    a.get_value(x, y)
                except ValueError:
                    continue
                raise Mismatch("no error outside the fields", (x, y))
            v = np.ravel(a.get_value(x, y))
            expect(fm.close(v, e), "value", lambda: (x, y, v, e))
            if not np.isnan(e[0]):
                u = a.get_value(x, y, unit=True)
                q = [u] if kind == "s" else list(np.ravel(u))
                try:
                    w = [fm.ratio(z, ms[0].uv) for z in q]
                except Exception:
                    raise Mismatch("unit of the value", repr(u))
                expect(fm.close(w, e), "value with unit", lambda: (w, e))
        b = same(a, ms, " after the lookups")
        expect(b == k, "lookups modify the assembly")
        xs = [m.ax for m in ms]
        ys = [m.ay for m in ms]
        for got, e in ((a.x_min, min(v[0] for v in xs)),
                       (a.x_max, max(v[-1] for v in xs)),
                       (a.y_min, min(v[0] for v in ys)),
                       (a.y_max, max(v[-1] for v in ys))):
            expect(abs(got - e) < 1e-9*max(1, abs(e)), "extent")
        return (k, n)
    ck.case("value|" + kind, d, fn)

    def grid():
        a = assemble(kind, models)
        ms = [stored(m, models[0]) for m in models]
        px, py = lattice(ms)
        px, py = px[::2], py[1::2]
        r = a.get_values_on_grid(list(px), list(py))
        o = fm.wellformed(r)
        expect(fm.close(o.ax, px) and fm.close(o.ay, py), "axes of the grid")
        expect(fm.same_unit(o.ux, ms[0].ux) and fm.same_unit(o.uy, ms[0].uy)
               and fm.same_unit(o.uv, ms[0].uv), "units of the grid")
        for i, x in enumerate(px):
            for j, y in enumerate(py):
                e = mean(ms, x, y)
                if isinstance(e, str):
                    continue
                if e is None or np.isnan(e[0]):
                    expect(o.mask[i, j], "value from nowhere", (x, y))
                    continue
                expect(not o.mask[i, j], "masked", (x, y))
                expect(fm.close([c[i, j] for c in o.comps], e),
                       "value on the grid", lambda: (x, y))
        return o.key()
    ck.case("grid|" + kind, d, grid)


def profiles(ck, kind, models, d):
    comps = [(None, lambda m: m.comps[0] if kind == "s" else
              np.hypot(*m.comps))]
    if kind == "v":
        comps += [("Vx", lambda m: m.comps[0]), ("Vy", lambda m: m.comps[1])]
    ms = [stored(m, models[0]) for m in models]
    for dn, (name, c) in itertools.product((1, 2, "x", "y"), comps):
        dr = dn in (1, "x")

        def fn():
            a = assemble(kind, models)
            px, py = lattice(ms)
            acc = []
            pq = px if dr else py
            for q in pq + list(zip(pq[1::2], pq[4::2])):
                e, skip = [], False
                for m in ms:
                    al, ot = (m.ax, m.ay) if dr else (m.ay, m.ax)
                    v = c(m) if dr else c(m).T
                    if isinstance(q, tuple):
                        if any(min(abs(al - b)) < 1e-9*abs(b) and b not in al
                               for b in q):
                            skip = True
                        sel = (al >= q[0]) & (al <= q[1])
                        if sel.any():
                            e += list(zip(ot, v[sel].mean(axis=0)))
                        continue
                    if q < al[0] - 1e-9 or q > al[-1] + 1e-9:
                        continue
                    if q not in al and min(abs(q - al[0]),
                                           abs(q - al[-1])) < 1e-9*abs(q):
                        skip = True
                        continue
                    i = int(np.argmin(abs(al - q)))
                    if abs(al[i] - q) < 1e-9*max(1, abs(q)):
                        y = v[i]
                    else:
                        i = int(np.searchsorted(al, q)) - 1
                        t = (q - al[i])/(al[i + 1] - al[i])
                        y = v[i]*(1 - t) + v[i + 1]*t
                    e += list(zip(ot, y))
                if skip:
                    continue
                kw = {} if name is None else {"component": name}
                p = a.get_profile(dn, list(q) if isinstance(q, tuple) else
                                  float(q), **kw)
                if not e:
                    expect(p is None, "profile outside the fields", q)
                    continue
                expect(p is not None, "no profile", q)
                expect(np.all(np.diff(p.x) >= 0), "order of the profile")
                got = np.array(sorted(zip(p.x, np.nan_to_num(p.y, nan=9e9))))
                exp = np.array(sorted((float(s), 9e9 if np.isnan(t) else
                                       float(t)) for s, t in e))
                expect(got.shape == exp.shape and
                       fm.close(got[:, 0], exp[:, 0]) and
                       np.all(abs(got[:, 1] - exp[:, 1]) <=
                              1e-7*(1 + abs(exp[:, 1]))), "profile",
                       lambda: (q, got.tolist(), exp.tolist()))
                expect(fm.same_unit(p.unit_x, ms[0].uy if dr else ms[0].ux)
                       and fm.same_unit(p.unit_y, ms[0].uv),
                       "units of the profile")
                acc.append(len(e))
            return tuple(acc)
        ck.case("profile|{}|{}".format(kind, dn if name is None else name),
                d + (dn, name), fn)


def alphabet(kind, n):
    """operations on an assembly of n fields: (name, real, model)"""
    def each(g):
        return lambda ms: [g(m) for m in ms]

    def vals(g, u=None):
        def one(m):
            w = m.uv if u is None else u(m.uv)
            s = w.asNumber()
            return fm.M(m.ax, m.ay, [g(c)*s for c in m.comps], m.mask, m.ux,
                        m.uy, w/s)
        return each(one)

    def inpl(name, **kw):
        def f(a):
            r = getattr(a, name)(inplace=True, **kw)
            expect(r is None, "in-place call returned something")
            return a
        return f

    def cop(name, **kw):
        def f(a):
            s = fm.snap([x for x in a])
            r = getattr(a, name)(inplace=False, **kw)
            expect(fm.snap([x for x in a]) == s, "source modified")
            return r
        return f

    def orig(a):
        a.set_origin(.5, -1)
        return a

    def rem(*i):
        def f(a):
            a.remove_field(i[0] if len(i) == 1 else list(i))
            return a
        return f

    def pure(op):
        def f(a):
            s = fm.snap([x for x in a])
            r = op(a)
            expect(fm.snap([x for x in a]) == s, "source modified")
            return r
        return f
    res = [("neg", pure(lambda a: -a), vals(lambda c: -c)),
           ("*2", pure(lambda a: a*2), vals(lambda c: c*2)),
           ("2*", pure(lambda a: 2*a), vals(lambda c: c*2)),
           ("/4", pure(lambda a: a/4), vals(lambda c: c/4.)),
           ("*3s", pure(lambda a: a*(3*U("s"))),
            vals(lambda c: 3*c, lambda u: u*U("s"))),
           ("/2m", pure(lambda a: a/(2*U("m"))),
            vals(lambda c: c/2., lambda u: u/U("m"))),
           ("**2", pure(lambda a: a**2), vals(lambda c: c**2,
                                              lambda u: u**2)),
           ("scale in place", inpl("scale", scalex=-2., scaley=.5),
            each(lambda m: geo.scale(m, scalex=-2., scaley=.5))),
           ("scale", cop("scale", scalex=3., scalev=-1.),
            each(lambda m: geo.scale(m, scalex=3., scalev=-1.))),
           ("rotate in place", inpl("rotate", angle=90),
            each(lambda m: geo.rotate(m, 90))),
           ("rotate", cop("rotate", angle=-180),
            each(lambda m: geo.rotate(m, -180))),
           ("set_origin", orig, each(lambda m: geo.set_origin(m, .5, -1))),
           ("copy", pure(lambda a: a.copy()), each(lambda m: m))]
    for i in range(n):
        res.append(("remove {}".format(i), rem(i),
                    lambda ms, i=i: [m for k, m in enumerate(ms) if k != i]))
    if n > 1:
        res.append(("remove 0, 1", rem(0, 1), lambda ms: ms[2:]))
    return res


def sequences(ck):
    depth = 3 if ck.thorough else 2
    for kind in "sv":
        for tiles in ((0, 1, 5), (4, 2), (6, 3, 0)):
            models = [tile(kind, t) for t in tiles]
            ms0 = [stored(m, models[0]) for m in models]
            frontier = [(ms0, [])]
            seen = {tuple(m.key() for m in ms0)}
            for _ in range(depth):
                nxt = []
                for ms, hist in frontier:
                    for name, real, model in alphabet(kind, len(ms)):
                        try:
                            exp = model(ms)
                        except Exception:
                            continue
                        h = hist + [(name, real)]

                        def fn():
                            a = assemble(kind, models)
                            for _, r in h:
                                a = r(a)
                                expect(a is not None, "returned nothing")
                            return same(a, exp)
                        ck.case("operation|{}|{}".format(kind, name),
                                (tiles, [x[0] for x in h]), fn,
                                state=(kind, tuple(m.key() for m in exp)))
                        k = tuple(m.key() for m in exp)
                        if k not in seen and exp:
                            seen.add(k)
                            nxt.append((exp, h))
                frontier = nxt


def refused(ck):
    for kind in "sv":
        for what in ("values", "x", "y", "kind", "number"):
            def fn():
                m = tile(kind, 0)
                b = tile(kind, 1)
                if what == "values":
                    b.uv = U("kg")
                elif what == "x":
                    b.ux = U("s")
                elif what == "y":
                    b.uy = U("K")
                elif what == "kind":
                    b = tile("v" if kind == "s" else "s", 1)
                a = assemble(kind, [m])
                f = 3. if what == "number" else b.real()
                s = fm.snap(f)
                try:
                    a.add_field(f)
                except Exception:
                    expect(fm.snap(f) == s, "refused field modified")
                    return same(a, [stored(m, m)])
                raise Mismatch("accepted")
            ck.case("refused|{}|{}".format(kind, what), (), fn)


def run(ck):
    n = 3
    for kind in "sv":
        for k in range(1, n + 1):
            for tiles in itertools.permutations(range(7), k):
                if k == 3 and not ck.thorough and sum(tiles) % 3:
                    continue
                models = [tile(kind, t) for t in tiles]
                lookups(ck, kind, models, tiles)
                if k < 3 or ck.thorough or sum(tiles) % 2:
                    profiles(ck, kind, models, tiles)
    sequences(ck)
    refused(ck)
