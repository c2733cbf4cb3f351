"""C02  arithmetic on fields is pointwise, unit-correct and mask-preserving"""
import itertools
import operator

import numpy as np

from mc.core import Mismatch, expect
from mc import fm
from mc.fm import U

NUMS = (2, -3, 0.5, 1)
QTY = ((2., "m/s"), (-500., "mm/s"), (3., "s"), (.5, "mm"), (2., ""))


def phys(f, model, unit, rtol=1e-8):
    """f equals the model values expressed in `unit`, whatever the unit f
    itself uses, as long as it is dimensionally the same"""
    o = fm.wellformed(f)
    try:
        r = fm.ratio(o.uv, unit)
    except Exception:
        raise Mismatch("values unit", (str(o.uv), str(unit)))
    o.comps = [np.where(o.mask, np.nan, np.array(c, dtype=float))*r
               for c in o.comps]
    m = model.copy()
    o.uv = unit
    m.uv = unit
    g = Shadow(o)
    expect(len(o.comps) == len(m.comps), "kind of field")
    expect(fm.close(o.ax, m.ax) and fm.close(o.ay, m.ay), "axes",
           lambda: (o.ax.tolist(), o.ay.tolist()))
    expect(np.array_equal(o.mask, m.mask), "mask",
           lambda: (o.mask.astype(int).tolist(), m.mask.astype(int).tolist()))
    for a, b in zip(o.comps, m.comps):
        expect(fm.close(a, b, rtol), "values", lambda: (a.tolist(),
                                                        b.tolist()))
    expect(fm.same_unit(o.ux, m.ux) and fm.same_unit(o.uy, m.uy), "axis unit")
    return m.key()


class Shadow(object):
    def __init__(self, o):
        self.o = o


def fact(u1, u2):
    return fm.ratio(u1, u2)


def mk(kind, *a, **k):
    """kind 'i': a scalar field of integers"""
    if kind != "i":
        return fm.mk(kind, *a, **k)
    m = fm.mk("s", *a, **k)
    m.comps = [np.round(c*2) + np.where(c < 0, -1., 1.) for c in m.comps]
    m.dtype = int
    return m


def nz(m):
    """model without zeros"""
    m = m.copy()
    m.comps = [np.where(np.abs(c) < 1e-9, .75, c) for c in m.comps]
    return m


def run(ck):
    unary(ck)
    numbers(ck)
    arrays(ck)
    fields(ck)
    partial(ck)
    refused(ck)
    sequences(ck)
    integers(ck)
    inverse(ck)
    positions(ck)
    scales(ck)


def with_values(m, comps, mask=None):
    return fm.M(m.ax, m.ay, comps, m.mask if mask is None else mask, m.ux,
                m.uy, m.uv)


def grids(ck):
    g = [("a2", "a3", "all"), ("b3", "u4", "few")]
    if ck.thorough:
        g += [("a3", "a3", "all"), ("a4", "b2", "all")]
    return g


def unary(ck):
    for kind in "svi":
        for axx, axy, mt in grids(ck):
            for mask in fm.masks((len(fm.AXES[axx]), len(fm.AXES[axy])), mt):
                m = mk(kind, axx, axy, mask)
                d = (axx, axy, fm.mdesc(mask))
                ck.case("neg|" + kind, d, lambda: phys(
                    -m.real(), with_values(m, [-c for c in m.comps]), m.uv))
                ck.case("abs|" + kind, d, lambda: phys(
                    abs(m.real()), with_values(m, [np.abs(c)
                                                   for c in m.comps]), m.uv))
                for n in (2, 3, 1):
                    ck.case("pow|" + kind, d + (n,), lambda: phys(
                        m.real()**n, with_values(m, [c**n for c in m.comps]),
                        m.uv**n))
                p = nz(m)
                for n in (-1, -2):
                    ck.case("pow|" + kind, d + (n,), lambda: phys(
                        p.real()**n, with_values(p, [c**float(n)
                                                     for c in p.comps]),
                        p.uv**n))
                q = with_values(m, [np.abs(c) + .1 for c in m.comps])
                ck.case("pow|" + kind, d + (.5,), lambda: phys(
                    q.real()**.5, with_values(q, [c**.5 for c in q.comps]),
                    q.uv**.5))


def numbers(ck):
    ops = {"+": operator.add, "-": operator.sub, "*": operator.mul,
           "/": operator.truediv}
    for kind in "svi":
        for axx, axy, mt in grids(ck):
            for mask in fm.masks((len(fm.AXES[axx]), len(fm.AXES[axy])), mt):
                m = nz(mk(kind, axx, axy, mask))
                for (on, op), n, side in itertools.product(
                        ops.items(), NUMS, ("l", "r")):
                    def fn():
                        res = op(m.real(), n) if side == "l" else op(n,
                                                                   m.real())
                        comps = [op(c, n) if side == "l" else op(n, c)
                                 for c in m.comps]
                        u = m.uv
                        if on == "/" and side == "r":
                            u = 1/m.uv
                        return phys(res, with_values(m, comps), u)
                    ck.case("{}number|{}|{}".format(on, kind, side),
                            (axx, axy, fm.mdesc(mask), n), fn)
                for (on, op), (n, un), side in itertools.product(
                        ops.items(), QTY, ("l",)):
                    q = n*U(un)
                    if on in "+-":
                        if un not in ("m/s", "mm/s"):
                            continue
                        k = n*fact(U(un), m.uv)
                        u = m.uv
                    elif on == "*":
                        k, u = n, m.uv*U(un)
                    else:
                        k, u = n, m.uv/U(un)

                    def fn():
                        f = m.real()
                        res = op(f, q)
                        comps = [op(c, k) for c in m.comps]
                        return phys(res, with_values(m, comps), u)
                    ck.case("{}quantity|{}|{}".format(on, kind, side),
                            (axx, axy, fm.mdesc(mask), n, un), fn)


def arrays(ck):
    for kind in "svi":
        for axx, axy, mt in grids(ck):
            shape = (len(fm.AXES[axx]), len(fm.AXES[axy]))
            for mask in fm.masks(shape, mt):
                m = nz(mk(kind, axx, axy, mask))
                a = fm.vals(shape, 5)
                a.flat[1] = 0.
                d = (axx, axy, fm.mdesc(mask))
                for aslist in (False, True):
                    arr = a.tolist() if aslist else a

                    def mul():
                        return phys(m.real()*arr, with_values(
                            m, [c*a for c in m.comps]), m.uv)

                    def div():
                        mk = m.mask | (a == 0)
                        return phys(m.real()/arr, with_values(
                            m, [c/np.where(a == 0, 1, a) for c in m.comps],
                            mk), m.uv)

                    def add():
                        return phys(m.real() + arr, with_values(
                            m, [c + a for c in m.comps]), m.uv)

                    def addvec():
                        return phys(m.real() + [3., -1.], with_values(
                            m, [m.comps[0] + 3., m.comps[1] - 1.]), m.uv)
                    def rmul():
                        return phys(arr*m.real(), with_values(
                            m, [c*a for c in m.comps]), m.uv)

                    def rdiv():
                        return phys(arr/m.real(), with_values(
                            m, [a/c for c in m.comps]), 1/m.uv)

                    def radd():
                        return phys(arr + m.real(), with_values(
                            m, [c + a for c in m.comps]), m.uv)

                    def sub():
                        return phys(m.real() - arr, with_values(
                            m, [c - a for c in m.comps]), m.uv)

                    def rsub():
                        return phys(arr - m.real(), with_values(
                            m, [a - c for c in m.comps]), m.uv)
                    ck.case("array*|" + kind, d, rmul)
                    ck.case("array/|" + kind, d, rdiv)
                    if kind == "v":
                        ck.case("array+|" + kind, d, radd)
                        ck.case("-array|" + kind, d, sub)
                        ck.case("array-|" + kind, d, rsub)
                    ck.case("*array|" + kind, d, mul)
                    ck.case("/array|" + kind, d, div)
                    if kind == "v":
                        ck.case("+array|" + kind, d, add)
                        ck.case("+vector|" + kind, d, addvec)


def fields(ck):
    ops = {"+": operator.add, "-": operator.sub, "*": operator.mul,
           "/": operator.truediv}
    units = [("m/s", "m/s"), ("m/s", "mm/s"), ("mm/s", "m/s"), ("m/s", "s")]
    gr = [("a2", "b2", "all"), ("a3", "u3" if ck.thorough else "a2", "few")]
    for axx, axy, mt in gr:
        shape = (len(fm.AXES[axx]), len(fm.AXES[axy]))
        ml = list(fm.masks(shape, mt))
        for m1, m2 in itertools.product(ml, ml):
            for (u1, u2) in units:
                if not ck.thorough and u1 == u2 and m1.sum() > 1:
                    continue
                for kinds in ("ss", "vv", "vs", "ii", "is", "vi"):
                    for on, op in ops.items():
                        if on in "+-" and (u2 == "s" or kinds in ("vs", "vi")):
                            continue
                        if on in "*/" and kinds == "vv":
                            continue
                        if on == "/" and kinds in ("vs", "vi"):
                            continue
                        A = mk(kinds[0], axx, axy, m1, uv=u1)
                        B = mk(kinds[1], axx, axy, m2, uv=u2, k=3)
                        if on == "/":
                            B.comps[0].flat[1] = 0.
                            dt = B.dtype
                            B = fm.M(B.ax, B.ay, B.comps, B.mask, B.ux, B.uy,
                                     B.uv)
                            B.dtype = dt
                        ck.case("{}field|{}|units {},{}".format(
                            on, kinds, u1, u2),
                            (axx, axy, fm.mdesc(m1), fm.mdesc(m2)),
                            lambda: binary(on, op, A, B))


def binary(on, op, A, B):
    fa, fb = A.real(), B.real()
    sa, sb = fm.snap(fa), fm.snap(fb)
    res = op(fa, fb)
    mask = A.mask | B.mask
    bc = [B.comps[0]]*2 if len(B.comps) == 1 else B.comps
    if on in "+-":
        k = fact(B.uv, A.uv)
        comps, u = [op(a, b*k) for a, b in zip(A.comps, bc)], A.uv
    elif on == "*":
        comps, u = [a*b for a, b in zip(A.comps, bc)], A.uv*B.uv
    else:
        mask = mask | (B.comps[0] == 0)
        comps = [a/np.where(b == 0, 1, b) for a, b in zip(A.comps, bc)]
        u = A.uv/B.uv
    comps = [np.where(mask, np.nan, c) for c in comps]
    expect(fm.snap(fa) == sa and fm.snap(fb) == sb, "operand modified")
    return phys(res, fm.M(A.ax, A.ay, comps, mask, A.ux, A.uy, A.uv), u)


def partial(ck):
    """fields sharing only a part of their axes are added on the shared part
    """
    axs = [[0., 1., 2.], [1., 2., 3.], [-1., 0., 1.], [2., 3.], [0., 2.],
           [-1., 0.]]
    for ax1, ax2, ay1, ay2 in itertools.product(axs, axs, axs[:3], axs[:3]):
        sx = sorted(set(ax1) & set(ax2))
        sy = sorted(set(ay1) & set(ay2))
        if (ax1 == ax2 and ay1 == ay2) or not sx or not sy:
            continue
        if len(sx) < 2 or len(sy) < 2:
            # a single shared line: degenerate field, still defined
            continue
        for kind in "svi":
            for n, (i1, i2) in enumerate([(None, None), (0, None), (None, 1),
                                          (2, 3)]):
                s1, s2 = (len(ax1), len(ay1)), (len(ax2), len(ay2))
                m1, m2 = np.zeros(s1, bool), np.zeros(s2, bool)
                if i1 is not None:
                    m1.flat[i1] = True
                if i2 is not None:
                    m2.flat[i2] = True
                A = mk(kind, ax1, ay1, m1)
                B = mk(kind, ax2, ay2, m2, uv="mm/s", k=2)
                for sg in (1, -1):
                    def fn():
                        res = A.real() + B.real() if sg == 1 \
                            else A.real() - B.real()
                        ia = np.ix_([ax1.index(v) for v in sx],
                                    [ay1.index(v) for v in sy])
                        ib = np.ix_([ax2.index(v) for v in sx],
                                    [ay2.index(v) for v in sy])
                        comps = [a[ia] + sg*b[ib]*1e-3
                                 for a, b in zip(A.comps, B.comps)]
                        return phys(res, fm.M(sx, sy, comps, A.mask[ia] |
                                              B.mask[ib], A.ux, A.uy), A.uv)
                    ck.case("partial+|" + kind, (ax1, ax2, ay1, ay2, n, sg),
                            fn)


def refused(ck):
    """inconsistent operands are refused, never combined silently"""
    base = fm.mk("s", "a2", "a3")
    basev = fm.mk("v", "a2", "a3")
    cases = []
    for kind, b in (("s", base), ("v", basev)):
        other_unit = fm.mk(kind, "a2", "a3", uv="kg")
        other_ux = fm.mk(kind, "a2", "a3", ux="s")
        far = fm.mk(kind, [10., 11.], [10., 11., 12.])
        cases += [("+", kind, b, other_unit), ("-", kind, b, other_unit),
                  ("+", kind, b, other_ux), ("+", kind, b, far)]
        cases += [("+", kind, b, 3.*U("kg")), ("+", kind, b, "text"),
                  ("*", kind, b, "text"), ("/", kind, b, "text"),
                  ("*", kind, b, np.ones((3, 2))),
                  ("/", kind, b, np.ones((3, 2)))]
    far = fm.mk("s", [5., 6.], "a3")
    cases += [("*", "s", base, far), ("/", "s", base, far),
              ("*", "s", base, fm.mk("s", "a2", "a3", ux="s")),
              ("/", "s", base, fm.mk("s", "a2", "a3", uy="s"))]
    ops = {"+": operator.add, "-": operator.sub, "*": operator.mul,
           "/": operator.truediv}
    for i, (on, kind, a, b) in enumerate(cases):
        def fn():
            rb = b.real() if isinstance(b, fm.M) else b
            try:
                r = ops[on](a.real(), rb)
            except Exception:
                return "refused"
            raise Mismatch("accepted", repr(r))
        ck.case("refused{}|{}|{}".format(on, kind, i), repr(b)[:120], fn)


def sequences(ck):
    """every expression of depth <= 3 over a small alphabet, evaluated left to
    right on the real field and on physical quantities"""
    alphabet = [("+1", lambda f, x: f + 1, lambda c, u: (c + 1, u)),
                ("neg", lambda f, x: -f, lambda c, u: (-c, u)),
                ("*2", lambda f, x: f*2, lambda c, u: (c*2, u)),
                ("1/", lambda f, x: 1/f, lambda c, u: (1/c, 1/u)),
                ("/s", lambda f, x: f/U("s"), lambda c, u: (c, u/U("s"))),
                ("*500mm", lambda f, x: f*(500.*U("mm")),
                 lambda c, u: (c*500., u*U("mm"))),
                ("**2", lambda f, x: f**2, lambda c, u: (c**2, u**2)),
                ("abs", lambda f, x: abs(f), lambda c, u: (np.abs(c), u)),
                ("+self", lambda f, x: f + f, lambda c, u: (c + c, u))]
    depth = 4 if ck.thorough else 3
    for kind in "sv":
        for mask in fm.masks((2, 2), "single"):
            m = fm.mk(kind, "a2", "b2", mask)
            m = with_values(m, [np.sign(c)*(np.abs(c) % 2 + .6)
                                for c in m.comps])
            for seq in itertools.product(range(len(alphabet)), repeat=depth):
                if fm.mcls(mask) == "masked" and seq[0] > 4 and \
                        not ck.thorough:
                    continue

                def fn():
                    f = m.real()
                    comps, u = m.comps, m.uv
                    for k in seq:
                        name, rf, rm = alphabet[k]
                        f = rf(f, None)
                        r = [rm(c, u) for c in comps]
                        comps, u = [x[0] for x in r], r[0][1]
                        n = u.asNumber()
                        comps, u = [c*n for c in comps], u/n
                    return phys(f, with_values(m, comps), u, 1e-6)
                if any(np.any(np.isclose(c[~mask], 0)) for c in m.comps):
                    pass
                if _singular(m, seq, alphabet):
                    continue
                ck.case("sequence|" + kind,
                        (fm.mdesc(mask), [alphabet[k][0] for k in seq]), fn)


def _singular(m, seq, alphabet):
    comps, u = m.comps, m.uv
    for k in seq:
        r = [alphabet[k][2](c, u) for c in comps]
        comps, u = [x[0] for x in r], r[0][1]
        for c in comps:
            v = c[~np.isnan(c)]
            if np.any(np.isinf(v)) or np.any(np.abs(v) < 1e-6) or \
               np.any(np.abs(v) > 1e9):
                return True
    return False


def integers(ck):
    """fields stored as integers keep their mask through arithmetic"""
    from IMTreatment import ScalarField
    for mask in fm.masks((2, 3), "all"):
        def build():
            f = ScalarField()
            f.import_from_arrays([0, 1], [0, 1, 2],
                                 np.arange(1, 7).reshape(2, 3), mask=mask,
                                 dtype=int)
            return f
        v = np.arange(1, 7).reshape(2, 3)
        for name, op, exp in (("neg", lambda f: -f, -v),
                              ("+3", lambda f: f + 3, v + 3),
                              ("*3", lambda f: f*3, v*3),
                              ("abs", lambda f: abs(f), v),
                              ("+field", lambda f: f + f, v + v),
                              ("+float field", lambda f: f + (
                                  lambda g: (g.import_from_arrays(
                                      [0, 1], [0, 1, 2], v*.25), g)[1])(
                                          ScalarField()), v*1.25)):
            def fn():
                r = op(build())
                o = fm.obs(r)
                expect(np.array_equal(o.mask, mask), "mask",
                       lambda: (o.mask.tolist(), mask.tolist()))
                expect(np.array_equal(o.comps[0][~mask], exp[~mask]),
                       "values")
                return o.key()
            ck.case("integer " + name + "|s", fm.mdesc(mask), fn)


def inverse(ck):
    """dividing by a field that vanishes somewhere masks these points"""
    for kind in "sv":
        for axx, axy in (("a2", "a3"), ("b3", "u4")):
            shape = (len(fm.AXES[axx]), len(fm.AXES[axy]))
            n = shape[0]*shape[1]
            for mask in fm.masks(shape, "single"):
                m = nz(fm.mk(kind, axx, axy, mask))
                zs = [(i,) for i in range(n)] + [(0, n - 1), (1, n//2)]
                for z, c0 in itertools.product(zs, range(len(m.comps))):
                    comps = [c.copy() for c in m.comps]
                    comps[c0].flat[list(z)] = 0.
                    p = with_values(m, comps)
                    zero = np.zeros(shape, bool)
                    zero.flat[list(z)] = True
                    mk = mask | zero
                    a = fm.vals(shape, 5)
                    for nm, num in (("3", 3), ("-.5", -.5), ("array", a),
                                    ("list", a.tolist())):
                        def fn():
                            r = p.real()
                            s = fm.snap(r)
                            res = num/r
                            expect(fm.snap(r) == s, "operand modified")
                            k = np.asarray(num)
                            return phys(res, with_values(p, [
                                k/np.where(mk, 1., c) for c in p.comps], mk),
                                1/p.uv)
                        ck.case("{}/field with zeros|{}".format(nm, kind),
                                (axx, axy, fm.mdesc(mask), z, c0), fn)


def positions(ck):
    """fields are added at the same positions, whatever the units of their
    axes, and never multiplied when these differ"""
    axs = [[0., 1., 2.], [1., 2., 3.], [0., 2.], [0., .001, .002, 1., 2.],
           [0., 1000., 2000.], [2000., 3000.]]
    fac = {"m": 1., "mm": 1e-3}
    for kind, u1, u2 in itertools.product("sv", fac, fac):
        for ax1, ax2 in itertools.product(axs, axs):
            p1 = [round(v*fac[u1], 6) for v in ax1]
            p2 = [round(v*fac[u2], 6) for v in ax2]
            shared = sorted(set(p1) & set(p2))
            for axis, same in itertools.product("xy", (True, False)):
                oth1, oth2 = [0., 1.], ([0., 1.] if same else [0., 1., 3.])
                if u1 == u2 and p1 == p2 and same:
                    continue
                if len(shared) == 1:
                    continue
                if axis == "x":
                    A = fm.mk(kind, ax1, oth1, ux=u1)
                    B = fm.mk(kind, ax2, oth2, ux=u2, k=2)
                else:
                    A = fm.mk(kind, oth1, ax1, uy=u1)
                    B = fm.mk(kind, oth2, ax2, uy=u2, k=2)
                d = (ax1, ax2, u1, u2, axis, same)

                def add():
                    fa, fb = A.real(), B.real()
                    sa, sb = fm.snap(fa), fm.snap(fb)
                    if not shared:
                        try:
                            r = fa + fb
                        except Exception:
                            return "refused"
                        raise Mismatch("nothing shared", repr(r))
                    res = fa + fb
                    expect(fm.snap(fa) == sa and fm.snap(fb) == sb,
                           "operand modified")
                    i1 = [p1.index(v) for v in shared]
                    i2 = [p2.index(v) for v in shared]
                    ax = [ax1[i] for i in i1]
                    if axis == "x":
                        comps = [a[i1] + b[i2][:, :2]
                                 for a, b in zip(A.comps, B.comps)]
                        m = fm.M(ax, oth1, comps, np.zeros(comps[0].shape,
                                                           bool),
                                 A.ux, A.uy, A.uv)
                    else:
                        comps = [a[:, i1] + b[:, i2][:2]
                                 for a, b in zip(A.comps, B.comps)]
                        m = fm.M(oth1, ax, comps, np.zeros(comps[0].shape,
                                                           bool),
                                 A.ux, A.uy, A.uv)
                    return phys(res, m, A.uv)
                ck.case("positions+|" + kind, d, add)
                S = fm.mk("s", B.ax, B.ay, ux=B.ux, uy=B.uy, k=2)

                def mul():
                    if u1 != u2 and p1 == p2 and same:
                        # the same positions: accepting it would be fine too
                        return "open"
                    for op in (operator.mul,) if kind == "v" else (
                            operator.mul, operator.truediv):
                        try:
                            r = op(A.real(), S.real())
                        except Exception:
                            continue
                        raise Mismatch("other positions accepted", repr(r))
                    return "refused"
                ck.case("positions*|" + kind, d, mul)


def scales(ck):
    """the same on axes of any magnitude, and on longer ones"""
    axes = {"tiny": [k*2.**-20 for k in range(5)],
            "far": [20000. + k for k in range(5)],
            "far fine": [512. + k*2.**-8 for k in range(5)],
            "negative far": [-4096. + .25*k for k in range(5)],
            "large": [k*2.**20 for k in range(5)],
            "long": [.5*k - 3 for k in range(13)]}
    for kind, (nx, ax), (ny, ay) in itertools.product(
            "sv", axes.items(), axes.items()):
        for s in (slice(0, None), slice(1, None), slice(0, -1),
                  slice(None, None, 2), slice(2, 4)):
            for axis in "xy":
                A = fm.mk(kind, ax, ay)
                bx = ax[s] if axis == "x" else ax
                by = ay[s] if axis == "y" else ay
                B = fm.mk(kind, bx, by, uv="mm/s", k=2)

                def fn():
                    ia = np.ix_([ax.index(v) for v in bx],
                                [ay.index(v) for v in by])
                    out = []
                    for r, sg in ((A.real() + B.real(), 1),
                                  (A.real() - B.real(), -1)):
                        comps = [a[ia] + sg*b*1e-3
                                 for a, b in zip(A.comps, B.comps)]
                        out.append(phys(r, fm.M(bx, by, comps, np.zeros(
                            comps[0].shape, bool), A.ux, A.uy), A.uv))
                    return out[0]
                ck.case("magnitudes+|" + kind, (nx, ny, str(s), axis), fn)
        m = nz(fm.mk(kind, ax, ay))
        for fac_ in (2.**-20, 2.**40):
            m2 = with_values(m, [c*fac_ for c in m.comps])

            def fn():
                f = m2.real()
                phys(f*2, with_values(m2, [c*2 for c in m2.comps]), m.uv)
                phys(1/f, with_values(m2, [1/c for c in m2.comps]), 1/m.uv)
                phys(f**2, with_values(m2, [c**2 for c in m2.comps]),
                     m.uv**2)
                phys(f + f, with_values(m2, [c*2 for c in m2.comps]), m.uv)
                if kind == "s":
                    phys(f/f, with_values(m2, [c/c for c in m2.comps]), m.uv
                         / m.uv)
                    phys(f*f, with_values(m2, [c*c for c in m2.comps]),
                         m.uv**2)
                return phys(abs(-f), with_values(m2, [
                    np.abs(c) for c in m2.comps]), m.uv)
            ck.case("magnitudes values|" + kind, (nx, ny, fac_), fn)
