"""C07  reading fields: lookups, interpolation, profiles, integrals, stats"""
import itertools
import math

import numpy as np

from mc.core import Mismatch, expect
from mc import fm
from mc.fm import U


def run(ck):
    lookup(ck)
    values(ck)
    profiles(ck)
    integrals(ck)
    stats(ck)
    around(ck)
    zones(ck)
    interpolator(ck)


# -- axis lookup -------------------------------------------------------------
def lookup(ck):
    for an in sorted(fm.AXES):
        ax = fm.AXES[an]
        for d in (1, 2):
            m = fm.mk("s", an if d == 1 else "b2", "b2" if d == 1 else an)
            qs = set(ax)
            for a, b in zip(ax[:-1], ax[1:]):
                for t in (.125, .25, .5, .75, .9):
                    qs.add(a + t*(b - a))
            for q in sorted(qs):
                for kind in ("bounds", "nearest", "decimal"):
                    for typ in (float, np.float64):
                        ck.case("get_indice_on_axe|" + kind,
                                (an, d, q, typ.__name__),
                                lambda: lookup_case(m, d, ax, typ(q), kind))
            for q in (ax[0] - .1, ax[-1] + .1, ax[0] - 1e6):
                ck.case("get_indice_on_axe|outside", (an, d, q),
                        lambda: refused(lambda: m.real().get_indice_on_axe(
                            d, q)))


def refused(fn, exc=(ValueError,)):
    try:
        r = fn()
    except exc:
        return "refused"
    raise Mismatch("accepted", repr(r))


def bounds(ax, q):
    for i, a in enumerate(ax):
        if a == q:
            return i, i
    for i in range(len(ax) - 1):
        if ax[i] < q < ax[i + 1]:
            return i, i + 1
    raise AssertionError


def lookup_case(m, d, ax, q, kind):
    r = m.real().get_indice_on_axe(d, q, kind=kind)
    i, j = bounds(ax, q)
    if kind == "bounds":
        expect(list(r) == [i, j], "bounds", (r, i, j))
    elif kind == "nearest":
        best = min(abs(a - q) for a in ax)
        expect(int(r) == r and abs(abs(ax[int(r)] - q) - best) < 1e-12,
               "not nearest", (r, q))
    else:
        e = i if i == j else i + (q - ax[i])/(ax[j] - ax[i])
        expect(abs(r - e) < 1e-9, "decimal", (r, e))
    return (kind, np.round(r, 6).tolist())


# -- point values ------------------------------------------------------------
def tri(p, pts, v):
    """barycentric interpolation; None if p outside"""
    (x0, y0), (x1, y1), (x2, y2) = pts
    det = (y1 - y2)*(x0 - x2) + (x2 - x1)*(y0 - y2)
    a = ((y1 - y2)*(p[0] - x2) + (x2 - x1)*(p[1] - y2))/det
    b = ((y2 - y0)*(p[0] - x2) + (x0 - x2)*(p[1] - y2))/det
    c = 1 - a - b
    if min(a, b, c) < -1e-9:
        return None
    s = 0.
    for w, k in zip((a, b, c), v):
        if abs(w) < 1e-12:
            continue
        s += w*k
    return s


def allowed(m, comp, x, y):
    """set of admissible answers at (x, y): list of floats (NaN = missing)"""
    i0, i1 = bounds(list(m.ax), x)
    j0, j1 = bounds(list(m.ay), y)
    c, mask = m.comps[comp], m.mask
    if i0 == i1 and j0 == j1:
        return [c[i0, j0]]
    if i0 == i1 or j0 == j1:
        a, b = c[i0, j0], c[i1, j1]
        t = (y - m.ay[j0])/(m.ay[j1] - m.ay[j0]) if i0 == i1 else \
            (x - m.ax[i0])/(m.ax[i1] - m.ax[i0])
        return [a*(1 - t) + b*t]
    P = {(i, j): (m.ax[i], m.ay[j]) for i in (i0, i1) for j in (j0, j1)}
    res = []
    for corners in (((i0, j0), (i1, j0), (i1, j1)),
                    ((i0, j0), (i0, j1), (i1, j1)),
                    ((i0, j0), (i1, j0), (i0, j1)),
                    ((i1, j1), (i1, j0), (i0, j1))):
        r = tri((x, y), [P[k] for k in corners], [c[k] for k in corners])
        if r is not None:
            res.append(r)
    # bilinear is as good
    t = (x - m.ax[i0])/(m.ax[i1] - m.ax[i0])
    u = (y - m.ay[j0])/(m.ay[j1] - m.ay[j0])
    res.append(c[i0, j0]*(1-t)*(1-u) + c[i1, j0]*t*(1-u) +
               c[i0, j1]*(1-t)*u + c[i1, j1]*t*u)
    if any(mask[k] for k in P):
        res.append(float("nan"))
    return res


def member(v, lst):
    for k in lst:
        if math.isnan(v) and math.isnan(k):
            return True
        if abs(v - k) <= 1e-7*max(1., abs(k)):
            return True
    return False


def values(ck):
    grids = [("a2", "a3", "all"), ("u4", "v3", "single"), ("b3", "b4", "few"),
             ("l11", "t4", "some"), ("f4", "g3", "some")]
    if ck.thorough:
        grids += [("a3", "a3", "all"), ("d5", "u4", "more")]
    for kind in "sv":
        for axx, axy, mt in grids:
            ax, ay = fm.AXES[axx], fm.AXES[axy]
            for mask in fm.masks((len(ax), len(ay)), mt):
                m = fm.mk(kind, axx, axy, mask)
                ts = (.25, .5, .625)
                qx = list(ax) + [a + t*(b - a) for a, b in zip(ax, ax[1:])
                                 for t in ts]
                qy = list(ay) + [a + t*(b - a) for a, b in zip(ay, ay[1:])
                                 for t in ts[:2 if kind == "v" else 3]]

                def fn():
                    f = m.real()
                    key = []
                    for x, y in itertools.product(qx, qy):
                        r = f.get_value(x, y)
                        rr = [float(r)] if kind == "s" else [float(k)
                                                             for k in r]
                        expect(len(rr) == len(m.comps), "components")
                        for k, v in enumerate(rr):
                            ok = allowed(m, k, x, y)
                            expect(member(v, ok), "value at a position",
                                   (x, y, k, v, ok))
                        key.append(rr[0])
                    for i, j in itertools.product(range(len(ax)),
                                                  range(len(ay))):
                        r = f.get_value(i, j, ind=True)
                        rr = [float(r)] if kind == "s" else [float(k)
                                                             for k in r]
                        for k, v in enumerate(rr):
                            expect(member(v, [m.comps[k][i, j]]),
                                   "value at indices", (i, j, k, v))
                        if not mask[i, j]:
                            r = f.get_value(ax[i], ay[j], unit=True)
                            rr = [r] if kind == "s" else list(r)
                            for k, v in enumerate(rr):
                                expect(abs(v.asNumber(U("mm/s")) -
                                           1e3*m.comps[k][i, j]) < 1e-6,
                                       "value with unit", (i, j, str(v)))
                    ck.transitions += len(qx)*len(qy) - 1
                    ck.validated += len(qx)*len(qy) - 1
                    return np.round(key, 6).tolist()
                ck.case("get_value|" + kind, (axx, axy, fm.mdesc(mask)), fn)
            m = fm.mk(kind, axx, axy)
            for x, y in ((ax[0] - .5, ay[0]), (ax[-1] + .5, ay[0]),
                         (ax[0], ay[0] - .5), (ax[0], ay[-1] + .5)):
                ck.case("get_value|outside", (axx, axy, x, y), lambda: refused(
                    lambda: m.real().get_value(x, y)))
            for i, j in ((-1, 0), (0, -1), (len(ax), 0), (0, len(ay))):
                ck.case("get_value|outside", (axx, axy, i, j), lambda: refused(
                    lambda: m.real().get_value(i, j, ind=True)))


# -- profiles ----------------------------------------------------------------
def prof_obs(p):
    y = np.array(p.y, dtype=float)
    mask = np.array(p.mask, dtype=bool)
    y[mask] = np.nan
    return np.array(p.x, dtype=float), y


def check_prof(p, x, y, ux, uv):
    px, py = prof_obs(p)
    expect(fm.close(px, x), "profile axis", (px.tolist(), list(x)))
    expect(py.shape == np.shape(y), "profile length")
    expect(np.array_equal(np.isnan(py), np.isnan(y)), "profile mask",
           (py.tolist(), np.array(y).tolist()))
    expect(fm.close(py, y), "profile values", (py.tolist(),
                                               np.array(y).tolist()))
    expect(fm.same_unit(p.unit_x, ux) and fm.same_unit(p.unit_y, uv),
           "profile units", (str(p.unit_x), str(p.unit_y)))
    return (np.round(px, 6).tolist(), str(np.round(py, 6).tolist()))


def line_at(c, ax, q):
    i, j = bounds(list(ax), q)
    if i == j:
        return c[i].copy()
    t = (q - ax[i])/(ax[j] - ax[i])
    return c[i]*(1 - t) + c[j]*t


def profiles(ck):
    grids = [("a3", "a2", "all"), ("u4", "v3", "single"), ("b4", "a3", "few"),
             ("t4", "l11", "some"), ("f4", "g3", "some")]
    if ck.thorough:
        grids += [("a3", "a3", "all"), ("u4", "d5", "few")]
    for kind in "sv":
        for axx, axy, mt in grids:
            shape = (len(fm.AXES[axx]), len(fm.AXES[axy]))
            for mask in fm.masks(shape, mt):
                m = fm.mk(kind, axx, axy, mask)
                for d in "xy":
                    along = m.ax if d == "x" else m.ay
                    other = m.ay if d == "x" else m.ax
                    uo = m.uy if d == "x" else m.ux
                    cs = [c if d == "x" else c.T for c in m.comps]
                    mk = m.mask if d == "x" else m.mask.T
                    for ci, c in enumerate(cs):
                        pre = (lambda f: f.get_profile) if kind == "s" else \
                            (lambda f, ci=ci: lambda *a, **k: f.get_profile(
                                "vx" if ci == 0 else "vy", *a, **k))
                        one_profile(ck, m, d, along, other, uo, c, mk, pre,
                                    (kind, axx, axy, fm.mdesc(mask), d, ci))


def one_profile(ck, m, d, along, other, uo, c, mk, pre, desc):
    kind = desc[0]
    sg = "get_profile|{}|{}".format(kind, fm.mcls(mk))
    qs = list(along) + [a + t*(b - a) for a, b in zip(along, along[1:])
                        for t in (.25, .625)]
    for q in qs:
        ck.case(sg + "|linear", desc + (q,), lambda: check_prof(
            pre(m.real())(d, float(q)), other, line_at(c, along, q), uo,
            m.uv))
        i = int(np.argmin(np.abs(along - q)))
        ck.case(sg + "|nearest", desc + (q,), lambda: check_prof(
            pre(m.real())(d, float(q), interp="nearest"), other, c[i], uo,
            m.uv))
    for i in range(len(along)):
        for interp in ("linear", "nearest"):
            ck.case(sg + "|index " + interp, desc + (i,), lambda: check_prof(
                pre(m.real())(d, i, ind=True, interp=interp), other, c[i],
                uo, m.uv))
    ext = [along[0] - 1.] + qs + [along[-1] + 1.]
    for a, b in itertools.combinations(sorted(ext), 2):
        sel = [k for k in range(len(along)) if a <= along[k] <= b]
        if not sel:
            continue
        if not ck.thorough and (len(sel) + int(mk.sum())) % 2 and mk.any():
            continue
        ck.case(sg + "|interval", desc + (a, b), lambda: check_prof(
            pre(m.real())(d, [float(a), float(b)]), other,
            c[sel].mean(axis=0), uo, m.uv))
    for i, j in itertools.combinations(range(len(along)), 2):
        ck.case(sg + "|index interval", desc + (i, j), lambda: check_prof(
            pre(m.real())(d, [i, j], ind=True), other,
            c[i:j].mean(axis=0), uo, m.uv))
    ck.case(sg + "|all", desc, lambda: check_prof(
        pre(m.real())(d, "all"), other, c.mean(axis=0), uo, m.uv))
    for q in (along[0] - .5, along[-1] + .5):
        ck.case("get_profile|outside", desc + (q,), lambda: refused(
            lambda: pre(m.real())(d, float(q))))
    for i in (-1, len(along)):
        ck.case("get_profile|outside index", desc + (i,), lambda: refused(
            lambda: pre(m.real())(d, i, ind=True)))


# -- integrals ---------------------------------------------------------------
def integrals(ck):
    for axx, axy in (("a3", "a4"), ("b4", "c3"), ("a5", "b3"), ("u4", "v3"),
                     ("l11", "t4"), ("f4", "g3")):
        m = fm.mk("s", axx, axy)
        for d in "xy":
            along, other = (m.ax, m.ay) if d == "x" else (m.ay, m.ax)
            uo = m.uy if d == "x" else m.ux
            c = m.comps[0] if d == "x" else m.comps[0].T
            for q in list(along) + [(along[0] + along[1])/2.,
                                    [along[0], along[1]],
                                    [along[0], along[-1]]]:
                def fn():
                    if isinstance(q, list):
                        sel = [k for k in range(len(along))
                               if q[0] <= along[k] <= q[1]]
                        y = c[sel].mean(axis=0)
                        arg = [float(k) for k in q]
                    else:
                        y = line_at(c, along, q)
                        arg = float(q)
                    e = sum((y[k] + y[k + 1])/2.*(other[k + 1] - other[k])
                            for k in range(len(other) - 1))
                    r = m.real().integrate_over_line(d, arg)
                    n = r.asNumber()
                    u = r/n
                    if not fm.same_unit(u, uo*m.uv):
                        # stored reference of the test-suite: unit of the
                        # axis the position is taken on (known finding)
                        expect(fm.same_unit(u, m.ux*m.uv) and
                               abs(n - e) < 1e-8*max(1, abs(e)),
                               "line integral", (str(r), e))
                        raise Mismatch("unit of the wrong axis", str(r))
                    expect(abs(fm.ratio(u, uo*m.uv)*n - e) <
                           1e-8*max(1, abs(e)), "line integral",
                           (str(r), e))
                    return round(e, 6)
                ck.case("integrate_over_line|" + d, (axx, axy, q), fn)
            mask = np.zeros(m.shape, bool)
            mask[0, 0] = True
            mm = fm.mk("s", axx, axy, mask)
            ck.case("integrate_over_line|masked", (axx, axy, d),
                    lambda: refused(lambda: mm.real().integrate_over_line(
                        d, float(along[0])), (Exception,)))
        for mask in fm.masks(m.shape, "single"):
            mm = fm.mk("s", axx, axy, mask)
            if mask.any():
                ck.case("integrate_over_surface|masked",
                        (axx, axy, fm.mdesc(mask)), lambda: refused(
                            lambda: mm.real().integrate_over_surface(),
                            (Exception,)))
        # constant fields: value times area scaled by the documented mean
        for ix in [None] + [[m.ax[i], m.ax[j]] for i, j in
                            itertools.combinations(range(len(m.ax)), 2)]:
            for iy in [None] + [[m.ay[i], m.ay[j]] for i, j in
                                itertools.combinations(range(len(m.ay)), 2)]:
                def fn():
                    x = [k for k in m.ax if ix is None or
                         ix[0] <= k <= ix[1]]
                    y = [k for k in m.ay if iy is None or
                         iy[0] <= k <= iy[1]]
                    sel = np.ix_([list(m.ax).index(k) for k in x],
                                 [list(m.ay).index(k) for k in y])
                    e = m.comps[0][sel].mean()*(x[-1] - x[0])*(y[-1] - y[0])
                    r = m.real().integrate_over_surface(intervx=ix,
                                                        intervy=iy)
                    ref = m.ux*m.uy*m.uv
                    n = r.asNumber()
                    expect(abs(fm.ratio(r/n, ref)*n - e) <
                           1e-8*max(1, abs(e)), "surface integral",
                           (str(r), e))
                    return round(e, 6)
                ck.case("integrate_over_surface", (axx, axy, ix, iy), fn)


# -- statistics, iteration, scatter -------------------------------------------
def stats(ck):
    grids = [("a2", "a3", "all"), ("b3", "u4", "few"),
             ("l11", "t4", "some"), ("g3", "f4", "some")]
    if ck.thorough:
        grids += [("a3", "a3", "all")]
    for axx, axy, mt in grids:
        shape = (len(fm.AXES[axx]), len(fm.AXES[axy]))
        for mask in fm.masks(shape, mt):
            d = (axx, axy, fm.mdesc(mask))
            ms, mv = fm.mk("s", axx, axy, mask), fm.mk("v", axx, axy, mask)
            ck.case("stats|s", d, lambda: stats_s(ms))
            ck.case("stats|v", d, lambda: stats_v(mv))
            ck.case("iterate|s", d, lambda: iterate(ms))
            ck.case("iterate|v", d, lambda: iterate(mv))
            ck.case("scatter|s", d, lambda: scatter(ms))


def stats_s(m):
    f = m.real()
    v = sorted(float(k) for k in m.comps[0][~m.mask])
    n = len(v)
    med = v[n//2] if n % 2 else (v[n//2 - 1] + v[n//2])/2.
    for name, got, e in (("min", f.min, v[0]), ("max", f.max, v[-1]),
                         ("mean", f.mean, sum(v)/n), ("median", f.median,
                                                      med)):
        expect(abs(got - e) < 1e-9, name, (got, e))
    for p in (1, 2, 3):
        s = sum(abs(k)**p for k in v)**(1./p)
        expect(abs(f.get_norm(norm=p) - s/n) < 1e-8*max(1, s), "norm")
        expect(abs(f.get_norm(norm=p, normalized=None) - s) <
               1e-8*max(1, s), "plain norm")
    mf = f.mask_as_sf
    expect(np.array_equal(np.array(mf.values) > .5, m.mask), "mask field")
    return [round(k, 6) for k in v]


def stats_v(m):
    f = m.real()
    vx, vy = m.comps
    mag = np.array([[math.hypot(a, b) for a, b in zip(r, s)]
                    for r, s in zip(vx, vy)])
    ok = ~m.mask
    expect(abs(f.min - mag[ok].min()) < 1e-9, "min")
    expect(abs(f.max - mag[ok].max()) < 1e-9, "max")
    expect(fm.close(f.magnitude, np.where(ok, mag, np.nan)), "magnitude")
    fm.compare(f.magnitude_as_sf, fm.M(m.ax, m.ay, [mag], m.mask, m.ux, m.uy,
                                       m.uv), what=" of the magnitude field")
    fm.compare(f.comp_x_as_sf, fm.M(m.ax, m.ay, [vx], m.mask, m.ux, m.uy,
                                    m.uv), what=" of the x component")
    fm.compare(f.comp_y_as_sf, fm.M(m.ax, m.ay, [vy], m.mask, m.ux, m.uy,
                                    m.uv), what=" of the y component")
    th = f.theta
    ref = np.array([[math.atan2(b, a) % (2*math.pi) for a, b in zip(r, s)]
                    for r, s in zip(vx, vy)])
    expect(np.all(np.abs(np.exp(1j*th[ok]) - np.exp(1j*ref[ok])) < 1e-6),
           "angle")
    expect(np.all(th[ok] >= -1e-9) and np.all(th[ok] <= 2*math.pi + 1e-9),
           "angle range")
    tf = f.theta_as_sf
    expect(np.all(np.abs(np.exp(1j*tf.values[ok]) - np.exp(1j*ref[ok])) <
                  1e-6), "angle field")
    mf = f.mask_as_sf
    expect(np.array_equal(np.array(mf.values) > .5, m.mask), "mask field")
    n = ok.sum()
    both = list(vx[ok]) + list(vy[ok])
    for p in (1, 2, 3):
        s = sum(abs(k)**p for k in both)**(1./p)
        expect(abs(f.get_norm(norm=p) - s/n) < 1e-8*max(1, s), "norm")
    return np.round(mag[ok], 6).tolist()


def iterate(m):
    got = []
    for ij, xy, v in m.real():
        v = [v] if len(m.comps) == 1 else v
        got.append((tuple(int(k) for k in ij), tuple(float(k) for k in xy),
                    tuple(round(float(k), 9) for k in v)))
    exp = [((i, j), (m.ax[i], m.ay[j]),
            tuple(round(float(c[i, j]), 9) for c in m.comps))
           for i in range(m.shape[0]) for j in range(m.shape[1])
           if not m.mask[i, j]]
    expect(sorted(got) == sorted(exp), "iteration", (got[:3], exp[:3]))
    return len(got)


def scatter(m):
    f = m.real()
    extra = np.zeros(m.shape, bool)
    extra.flat[-1] = True
    for em in (None, extra):
        use = ~m.mask if em is None else ~(m.mask | em)
        if not use.any():
            continue
        p = f.export_to_scatter() if em is None else \
            f.export_to_scatter(mask=em)
        got = sorted((round(x, 9), round(y, 9), round(v, 9))
                     for (x, y), v in zip(np.array(p.xy).tolist(),
                                          np.array(p.v).tolist()))
        exp = sorted((round(m.ax[i], 9), round(m.ay[j], 9),
                      round(m.comps[0][i, j], 9))
                     for i, j in np.argwhere(use))
        expect(got == exp, "scatter", (got, exp))
        expect(fm.same_unit(p.unit_x, m.ux) and fm.same_unit(p.unit_y, m.uy)
               and fm.same_unit(p.unit_v, m.uv), "scatter units")
    return len(got)


# -- circle ------------------------------------------------------------------
def around(ck):
    m = fm.mk("s", "a6", "a5")
    for r in (.4, 1., 1.2, 1.5, 2.):
        for cx, cy in itertools.product((2., 2.5, 3., 2.25), (2., 1.5, 2.25)):
            if cx - r < 0 or cx + r > 5 or cy - r < 0 or cy + r > 4:
                continue
            for ind in (True, False):
                def fn():
                    g = m.real().get_points_around((cx, cy), r, ind=ind)
                    got = sorted(tuple(int(k) for k in p)
                                 for p in np.array(g).tolist())
                    e = sorted((i, j) for i in range(6) for j in range(5)
                               if (i - cx)**2 + (j - cy)**2 <= r*r + 1e-12)
                    expect(got == e, "points around", (got, e))
                    return got
                ck.case("get_points_around", (r, cx, cy, ind), fn)
    # stretched grid: physical radius on equal steps
    for k in (.5, 2.):
        m2 = fm.mk("s", [1 + k*i for i in range(6)],
                   [-1 + k*i for i in range(5)])
        for r in (1., 1.5):
            def fn():
                g = m2.real().get_points_around((1 + 2.5*k, -1 + 2*k), r*k)
                got = sorted(tuple(int(q) for q in p)
                             for p in np.array(g).tolist())
                e = sorted((i, j) for i in range(6) for j in range(5)
                           if (i - 2.5)**2 + (j - 2)**2 <= r*r + 1e-12)
                expect(got == e, "points around", (got, e))
                return got
            ck.case("get_points_around", ("stretched", k, r), fn)


# -- zones -------------------------------------------------------------------
def zones(ck):
    """isolated peaks are found where they are, whatever their place, and
    repeating the query gives the same answer"""
    from IMTreatment import ScalarField
    nx, ny = 5, 4
    ax, ay = np.arange(nx)*.5 + 1, np.arange(ny)*2. - 3
    cells = [(i, j) for i in range(nx) for j in range(ny)]
    for a, b in itertools.combinations(cells, 2):
        if abs(a[0] - b[0]) + abs(a[1] - b[1]) < 3:
            continue
        for kind in ("extremum", "center", "ponderated"):
            def fn():
                v = np.zeros((nx, ny))
                v[a], v[b] = 10., 9.5
                f = ScalarField()
                f.import_from_arrays(ax, ay, v, unit_x="m", unit_y="mm")
                res = []
                for rep in range(2):
                    bounds_ = [.75, 1]
                    p = f.get_zones_centers(bornes=bounds_, rel=True,
                                            kind=kind)
                    expect(bounds_ == [.75, 1], "argument modified")
                    q = f.get_zones_centers(kind=kind)
                    for r in (p, q):
                        expect(r is not None, "nothing found")
                        got = sorted(map(tuple, np.round(r.xy, 9).tolist()))
                        exp = sorted([(ax[k[0]], ay[k[1]]) for k in (a, b)])
                        expect(got == exp, "centres", (got, exp))
                        expect(fm.same_unit(r.unit_x, U("m")) and
                               fm.same_unit(r.unit_y, U("mm")), "units")
                    res.append(got)
                return res
            ck.case("get_zones_centers|" + kind, (a, b), fn)


def interpolator(ck):
    for axx, axy in (("a3", "a4"), ("u4", "v3"), ("b3", "u4"), ("l11", "t4"),
                     ("f4", "g3")):
        m = fm.mk("s", axx, axy)

        def fn():
            it = m.real().get_interpolator()
            for i, x in enumerate(m.ax):
                for j, y in enumerate(m.ay):
                    v = float(np.squeeze(it(x, y)))
                    expect(abs(v - m.comps[0][i, j]) < 1e-7, "at nodes",
                           (x, y, v))
            for i in range(len(m.ax) - 1):
                x = (m.ax[i] + m.ax[i + 1])/2
                for j, y in enumerate(m.ay):
                    e = (m.comps[0][i, j] + m.comps[0][i + 1, j])/2
                    v = float(np.squeeze(it(x, y)))
                    expect(abs(v - e) < 1e-7, "between nodes", (x, y, v, e))
            return 1
        ck.case("get_interpolator", (axx, axy), fn)
