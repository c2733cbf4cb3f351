"""C09: profiles as sorted lists of (x, y) pairs."""
import itertools
import math

import numpy as np

from mc.core import Mismatch, expect
from mc import fm
from mc.fm import U, NAN

XS = {"e4": [0., 1., 2., 3.], "n4": [-1.5, -.5, .5, 1.5],
      "u4": [-1., 0., .5, 2.], "u5": [0., .5, 2., 2.5, 4.],
      "e5": [1., 2., 3., 4., 5.],
      # other magnitudes: tiny steps, far from the origin, huge, longer
      "t4": [k*2.**-16 for k in range(-1, 3)],
      "f4": [512. + k*2.**-6 for k in range(4)],
      "g4": [k*2.**14 for k in range(-2, 2)],
      "l12": [.25*k - 1 for k in range(12)]}
BIG = ("t4", "f4", "g4", "l12")


# units whose products and quotients hide a factor
UNITS = (("mm", "1/m"), ("ms", "m/s"), ("m", "mm"), ("km", "m"), ("s", "h"))


class P(object):
    """model: sorted pairs (x, y or nan)"""

    def __init__(self, x, y, mask=None, ux="s", uy="m/s"):
        x = np.array(x, float)
        y = np.array(y, float)
        if mask is not None:
            y = np.where(mask, NAN, y)
        o = np.argsort(x, kind="stable")
        self.x, self.y = x[o], y[o]
        self.ux = U(ux) if isinstance(ux, str) else ux
        self.uy = U(uy) if isinstance(uy, str) else uy

    @property
    def mask(self):
        return np.isnan(self.y)

    def real(self, hidden=0.):
        from IMTreatment import Profile
        y = np.where(self.mask, hidden, self.y)
        return Profile(self.x.copy(), y, mask=self.mask.copy(),
                       unit_x=self.ux, unit_y=self.uy)

    def key(self):
        return (tuple(np.round(self.x, 9)),
                tuple(np.round(np.nan_to_num(self.y, nan=9e9), 6)),
                fm.ustr(self.ux), fm.ustr(self.uy))

    def copy(self):
        return P(self.x, self.y, None, self.ux, self.uy)


def mk(nm, mask=None, k=0, ux="s", uy="m/s"):
    x = XS[nm]
    y = fm.vals((1, len(x)), k)[0]
    return P(x, y, mask, ux, uy)


def compare(p, m, what="", units=True):
    from IMTreatment import Profile
    expect(isinstance(p, Profile), "not a profile" + what,
           lambda: repr(type(p)))
    x, y, k = np.array(p.x), np.array(p.y), np.array(p.mask)
    expect(x.shape == m.x.shape == y.shape == k.shape, "length" + what,
           lambda: (x.tolist(), y.tolist(), m.x.tolist(), m.y.tolist()))
    expect(fm.close(x, m.x), "x" + what, lambda: (x.tolist(), m.x.tolist()))
    expect(np.array_equal(k.astype(bool), m.mask), "mask" + what,
           lambda: (k.tolist(), y.tolist(), m.y.tolist()))
    yy = np.where(m.mask, NAN, y)
    expect(fm.close(yy, m.y), "y" + what,
           lambda: (y.tolist(), m.y.tolist()))
    expect(np.all(np.isnan(y[m.mask])), "masked y not missing" + what)
    if units:
        expect(fm.same_unit(p.unit_x, m.ux), "x unit" + what,
               lambda: (str(p.unit_x), str(m.ux)))
        expect(fm.same_unit(p.unit_y, m.uy), "y unit" + what,
               lambda: (str(p.unit_y), str(m.uy)))
    return m.key()


def masks(n, some=False, full=False):
    if some:
        for k in ((), (1,), (0, n - 1), (n//2, n//2 + 1)):
            m = np.zeros(n, bool)
            m[list(k)] = True
            yield m
        return
    for bits in itertools.product([False, True], repeat=n):
        if not all(bits) or full:
            yield np.array(bits)


def run(ck):
    construct(ck)
    arith(ck)
    structure(ck)
    queries(ck)
    sequences(ck)
    ck.assumptions += ["profiles of 4-5 points (some of 12, or of other magnitudes) with distinct x; y bounds of "
                       "crops and searched y values never coincide with two "
                       "different conventions (open/closed)"]


def refused(fn, obj=None, exc=(ValueError, TypeError, Exception)):
    s = None if obj is None else fm.snap(obj)
    try:
        r = fn()
    except exc:
        if obj is not None:
            expect(fm.snap(obj) == s, "modified by a refused call")
        return "refused"
    raise Mismatch("not refused", repr(r)[:200])


# -- construction ------------------------------------------------------------
def construct(ck):
    from IMTreatment import Profile
    n = 4
    base = [-1., 0., .5, 2.]
    y0 = fm.vals((1, n))[0]
    for perm in itertools.permutations(range(n)):
        x = np.array([base[i] for i in perm])
        y = np.array([y0[i] for i in perm])
        for mask in masks(n):
            for style in ("mask", "nan", "list"):
                def fn():
                    m = P(x, y, mask)
                    if style == "nan":
                        a, b, c = x, np.where(mask, NAN, y), False
                    elif style == "list":
                        a, b, c = x.tolist(), y.tolist(), mask.tolist()
                    else:
                        a, b, c = x.copy(), y.copy(), mask.copy()
                    s = fm.snap([a, b, c])
                    p = Profile(a, b, mask=c, unit_x="s", unit_y=U("m/s"))
                    k = compare(p, m)
                    expect(fm.snap([a, b, c]) == s, "arguments modified")
                    for arr in (a, b, c):
                        if isinstance(arr, np.ndarray):
                            expect(not fm.shares_memory(p, arr), "aliases")
                    expect(len(p) == n, "len")
                    return k
                ck.case("construct|" + style, (perm, fm.mdesc(mask)), fn)
                # attributes set one by one, masked arrays
                def later():
                    m = P(x, y, mask)
                    p = Profile(x, np.zeros(n), unit_x="s", unit_y=U("m/s"))
                    ys, ms = m.y.copy(), m.mask.copy()
                    ma = np.ma.array(np.where(ms, 7., ys), mask=ms)
                    if style == "mask":
                        p.y = np.where(ms, 7., ys)
                        p.mask = ms
                    elif style == "nan":
                        p.y = np.where(ms, NAN, ys)
                    else:
                        p.y = ma
                    compare(p, m)
                    before = fm.snap(p)
                    ys += 1
                    ms[:] = ~ms
                    ma.data[:] = 5.
                    expect(fm.snap(p) == before, "shares the given data")
                    # new positions: sorted together with the values
                    nx = (3. - m.x)*2
                    p.x = nx
                    return compare(p, P(nx, m.y, m.mask))
                ck.case("set attributes|" + style, (perm, fm.mdesc(mask)),
                        later)
    for k in (True, False):
        ck.case("construct|one mask for all", k, lambda: compare(
            Profile(base, y0, mask=k, unit_x="s", unit_y="m/s"),
            P(np.array(base), np.array(y0), np.array([k]*4))))
    ck.case("construct|refused", "lengths", lambda: refused(
        lambda: Profile([1., 2.], [1., 2., 3.])))


# -- arithmetic --------------------------------------------------------------
NUM = (2.5, -1, 0.5)


def arith(ck):
    grids = (("n4",) if not ck.thorough else ("n4", "u5")) + BIG
    for nm in grids:
        n = len(XS[nm])
        for mask in masks(n, nm in BIG):
            m = mk(nm, mask)
            d = (nm, fm.mdesc(mask))
            cls = fm.mcls(mask)

            def one(op, f, e, uy=None):
                def fn():
                    p = m.real()
                    s = fm.snap(p)
                    r = f(p)
                    k = compare(r, P(m.x, e, None, m.ux, m.uy if uy is None else uy))
                    expect(fm.snap(p) == s, "operand modified")
                    expect(not fm.shares_memory(p, r), "result aliases")
                    return k
                ck.case("arith {}|{}".format(op, cls), d, fn, state=m.key())
            one("neg", lambda p: -p, -m.y)
            for v in NUM:
                one("+num", lambda p: p + v, m.y + v)
                one("num+", lambda p: v + p, m.y + v)
                one("-num", lambda p: p - v, m.y - v)
                one("num-", lambda p: v - p, v - m.y)
                one("*num", lambda p: p*v, m.y*v)
                one("num*", lambda p: v*p, m.y*v)
                one("/num", lambda p: p/v, m.y/v)
            one("**2", lambda p: p**2, m.y**2, m.uy**2)
            one("**3", lambda p: p**3, m.y**3, m.uy**3)
            one("**0", lambda p: p**0, m.y*0 + 1, m.uy**0)
            one("**1", lambda p: p**1, m.y, m.uy)
            if np.all(m.y[~m.mask] != 0):
                one("**-1", lambda p: p**-1, 1./m.y, m.uy**-1)
                one("**-2", lambda p: p**-2., m.y**-2, m.uy**-2)
            for us in ("m/s", "mm/s", "km/s"):
                q = 3*U(us)
                r = fm.ratio(U(us), m.uy)
                one("+qty", lambda p: p + q, m.y + 3*r)
                one("-qty", lambda p: p - q, m.y - 3*r)
            for us in ("m", "s", "mm", "1/s"):
                q = 3*U(us)

                def fq(op):
                    p = m.real()
                    s = fm.snap(p)
                    if op == "*":
                        r, ru = p*q, m.uy*U(us)
                        e = m.y*3
                    else:
                        r, ru = p/q, m.uy/U(us)
                        e = m.y/3.
                    expect(fm.snap(p) == s, "operand modified")
                    expect(abs(r.unit_y.asNumber() - 1) < 1e-9,
                           "unit carries a factor", str(r.unit_y))
                    # physical equality
                    f = fm.ratio(r.unit_y, ru)
                    got = np.array(r.y)*f
                    expect(np.array_equal(np.array(r.mask), m.mask), "mask")
                    expect(fm.close(np.where(m.mask, NAN, got), e), "y",
                           lambda: (got.tolist(), e.tolist()))
                    return np.round(got, 6).tolist()
                for op in "*/":
                    ck.case("arith {}qty|{}".format(op, cls), d + (us,),
                            lambda: fq(op), state=m.key())
            for bad in ("m", "s"):
                ck.case("arith +qty|refused", d + (bad,), lambda: refused(
                    lambda: m.real() + 3*U(bad)))
    # two profiles: all mask pairs
    n = 4
    for ma, mb in itertools.product(masks(n), repeat=2):
        for ub in ("m/s", "mm/s"):
            def fn(op):
                a, b = mk("n4", ma), mk("n4", mb, 1, uy=ub)
                if op == "/0":
                    b.y[1] = 0. if not mb[1] else NAN
                pa, pb = a.real(), b.real()
                s = fm.snap([pa, pb])
                r = fm.ratio(b.uy, a.uy)
                if op == "+":
                    g, e, u = pa + pb, a.y + b.y*r, a.uy
                elif op == "-":
                    g, e, u = pa - pb, a.y - b.y*r, a.uy
                elif op == "*":
                    g, e, u = pa*pb, a.y*b.y*r, a.uy**2
                else:
                    with np.errstate(all="ignore"):
                        e = np.where(b.y == 0, NAN, a.y/b.y/r)
                    g, u = pa/pb, U("")
                expect(fm.snap([pa, pb]) == s, "operand modified")
                expect(not fm.shares_memory(g, [pa, pb]), "result aliases")
                f = fm.ratio(g.unit_y, u)
                gy = np.array(g.y)*f
                expect(fm.close(g.x, a.x), "x")
                expect(np.array_equal(np.array(g.mask), np.isnan(e)), "mask",
                       lambda: (g.mask.tolist(), e.tolist()))
                expect(fm.close(np.where(np.isnan(e), NAN, gy), e), "y",
                       lambda: (gy.tolist(), e.tolist()))
                return np.round(gy, 6).tolist()
            for op in ("+", "-", "*", "/", "/0"):
                ck.case("arith {}profile|{}".format(
                    op, "same unit" if ub == "m/s" else "other unit"),
                    (fm.mdesc(ma), fm.mdesc(mb)), lambda: fn(op))
    # other positions: combined where they are shared, or refused
    x0 = [0., 1., 2., 4.]
    fac = {"s": 1., "ms": 1e-3}
    import operator
    for ua, ub in itertools.product(fac, fac):
        for sh, sc in itertools.product((0., 1., -1., .5, -.5, -.25, 2., -2.,
                                         -8.), (1., 1000., .001, 2.)):
            for op in ("+", "-", "*", "/"):
                def fn():
                    a = P(x0, fm.vals((1, 4))[0], None, ua)
                    b = P([v*sc + sh for v in x0], fm.vals((1, 4), 2)[0],
                          None, ub)
                    pa, pb = a.real(), b.real()
                    s = fm.snap([pa, pb])
                    o = {"+": operator.add, "-": operator.sub,
                         "*": operator.mul, "/": operator.truediv}[op]
                    try:
                        r = o(pa, pb)
                    except Exception:
                        expect(not (ua == ub and sh == 0 and sc == 1),
                               "the same positions are refused")
                        return "refused"
                    expect(fm.snap([pa, pb]) == s, "operand modified")
                    px = [v*fac[ua] for v in a.x]
                    qx = [v*fac[ub] for v in b.x]
                    ex, ey = [], []
                    for i, v in enumerate(px):
                        for j, w in enumerate(qx):
                            if abs(v - w) < 1e-9:
                                ex.append(a.x[i])
                                ey.append(o(a.y[i], b.y[j]))
                    expect(fm.close(np.array(r.x), np.array(ex)),
                           "positions that are not shared",
                           lambda: (list(r.x), ex))
                    f = fm.ratio(r.unit_y, o(a.uy, b.uy) if op in "*/" else
                                 a.uy)
                    expect(fm.close(np.array(r.y)*f, np.array(ey)), "y")
                    expect(fm.same_unit(r.unit_x, a.ux), "unit of x")
                    return np.round(ey, 6).tolist()
                ck.case("arith {}profile|other positions".format(op),
                        (ua, ub, sh, sc), fn)
    a = mk("n4")
    ck.case("arith +profile|refused", "other x", lambda: refused(
        lambda: a.real() + mk("e4").real()))
    ck.case("arith +profile|refused", "other length", lambda: refused(
        lambda: a.real() + mk("u5").real()))
    ck.case("arith +profile|refused", "dimension", lambda: refused(
        lambda: a.real() + mk("n4", uy="kg").real()))
    ck.case("arith /profile|refused", "other x", lambda: refused(
        lambda: a.real()/mk("e4").real()))
    ck.case("arith *profile|refused", "other x", lambda: refused(
        lambda: a.real()*mk("e4").real()))
    ck.case("arith *profile|refused", "other unit_x", lambda: refused(
        lambda: a.real()*mk("n4", ux="m").real()))


# -- structural operations -----------------------------------------------------
def bounds(x):
    q = [x[0] - 1.]
    for a, b in zip(x[:-1], x[1:]):
        q += [a, (a + b)/2.]
    return q + [x[-1], x[-1] + 1.]


def both(op, m, f, e, ck, desc, ret=True):
    """f(p, inplace) against the expected model, both variants"""
    def fn():
        p = m.real()
        s = fm.snap(p)
        r = f(p, False)
        k = compare(r, e)
        expect(fm.snap(p) == s, "original modified")
        expect(not fm.shares_memory(p, r), "result aliases")
        p = m.real()
        f(p, True)
        compare(p, e, " in place")
        return k
    ck.case(op, desc, fn, state=m.key())


def crop_between(m, lo, hi, e):
    res = []
    for inplace in (False, True):
        p = m.real()
        r = p.crop(intervx=[lo, hi], inplace=inplace)
        r = p if inplace else r
        try:
            res.append(compare(r, e))
        except Mismatch:
            # known finding (pinned by a stored test reference): exactly the
            # first point of the interval is lost
            compare(r, P(e.x[1:], e.y[1:], None, e.ux, e.uy))
            res.append("dropped")
    expect("dropped" not in res, "first point dropped")
    return res


def structure(ck):
    for nm in (("n4", "u5") if not ck.thorough else
               ("n4", "u5", "e5", "u4")) + BIG:
        x = XS[nm]
        n = len(x)
        for mask in masks(n, nm in BIG):
            m = mk(nm, mask)
            d = (nm, fm.mdesc(mask))
            cls = fm.mcls(mask)
            few = mask.sum() <= 1
            for lo, hi in itertools.combinations(bounds(x), 2):
                if hi < x[0] or lo > x[-1] or not few:
                    continue
                sel = [i for i in range(n) if lo <= x[i] <= hi]
                if not sel:
                    continue
                e = P(m.x[sel], m.y[sel], None, m.ux, m.uy)
                if lo > x[0] and lo not in x:
                    ck.case("crop x, lower bound between points",
                            d + (lo, hi), lambda: crop_between(
                                m, lo, hi, e), state=m.key())
                    continue
                both("crop x|" + cls, m,
                     lambda p, i: p.crop(intervx=[lo, hi], inplace=i),
                     e, ck, d + (lo, hi))
            for lo, hi in itertools.combinations(range(n + 1), 2):
                both("crop index|" + cls, m,
                     lambda p, i: p.crop(intervx=[lo, hi], ind=True,
                                         inplace=i),
                     P(m.x[lo:hi], m.y[lo:hi], None, m.ux, m.uy), ck,
                     d + (lo, hi))
            ys = np.sort(m.y[~mask])
            cut = [ys[0] - 1] + [(a + b)/2 for a, b in zip(ys[:-1], ys[1:])] \
                + [ys[-1] + 1]
            for lo, hi in itertools.combinations(cut, 2):
                sel = [i for i in range(n) if lo < m.y[i] < hi]
                both("crop y|" + cls, m,
                     lambda p, i: p.crop(intervy=[lo, hi], inplace=i),
                     P(m.x[sel], m.y[sel], None, m.ux, m.uy), ck,
                     d + (lo, hi))
                sel = [i for i in sel if x[0] <= x[i] <= x[-2]]
                if sel:
                    both("crop xy|" + cls, m,
                         lambda p, i: p.crop(intervx=[x[0], x[-2]],
                                             intervy=[lo, hi], inplace=i),
                         P(m.x[sel], m.y[sel], None, m.ux, m.uy), ck,
                         d + (lo, hi))
            ck.case("crop x|refused", d, lambda: refused(
                lambda: m.real().crop(intervx=[x[-1] + 1, x[-1] + 2])))
            ok = np.where(~mask)[0]
            sel = slice(ok[0], ok[-1] + 1)
            both("crop_masked_border|" + cls, m,
                 lambda p, i: p.crop_masked_border(inplace=i),
                 P(m.x[sel], m.y[sel], None, m.ux, m.uy), ck, d)
            both("remove_nans|" + cls, m,
                 lambda p, i: p.remove_nans(inplace=i),
                 P(m.x[ok], m.y[ok], None, m.ux, m.uy), ck, d)
            for sx, sy in itertools.product((1., 2., -.5), (1., -3., .5)):
                both("scale|" + cls, m,
                     lambda p, i: p.scale(scalex=sx, scaley=sy, inplace=i),
                     P(m.x*sx, m.y*sy, None, m.ux, m.uy), ck, d + (sx, sy))
            both("scale quantity|" + cls, m,
                 lambda p, i: p.scale(scalex=2*U("m"), scaley=3*U("s"),
                                      inplace=i),
                 P(m.x*2, m.y*3, None, m.ux*U("m"), m.uy*U("s")), ck, d)
            # points
            for xn in bounds(x)[::2] + [x[0] + .125]:
                def fn():
                    p = m.real()
                    p.add_point(xn, 7.5)
                    # a point at an existing x may go before or after it
                    e1 = P(np.append(m.x, xn), np.append(m.y, 7.5), None,
                           m.ux, m.uy)
                    e2 = P(np.append([xn], m.x), np.append([7.5], m.y), None,
                           m.ux, m.uy)
                    try:
                        return compare(p, e1)
                    except Mismatch:
                        return compare(p, e2)
                ck.case("add_point|" + cls, d + (xn,), fn, state=m.key())
            for i in range(n):
                def fn():
                    p = m.real()
                    p.remove_point(i)
                    return compare(p, P(np.delete(m.x, i),
                                        np.delete(m.y, i), None, m.ux, m.uy))
                ck.case("remove_point|" + cls, d + (i,), fn, state=m.key())
            for m2 in masks(3):
                def fn():
                    o = P([x[0] + .125, x[-1] + 1, x[0] - 2], [4., 5., 6.],
                          m2, m.ux, m.uy)
                    p, q = m.real(), o.real()
                    s = fm.snap(q)
                    p.add_points(q)
                    expect(fm.snap(q) == s, "argument modified")
                    return compare(p, P(np.append(m.x, o.x),
                                        np.append(m.y, o.y), None, m.ux,
                                        m.uy))
                ck.case("add_points|" + cls, d + (fm.mdesc(m2),), fn,
                        state=m.key())
            ck.case("add_points|refused", d, lambda: refused_add(m))
            # duplicates
            for dup in range(n):
                for meth, agg in (("average", lambda v: sum(v)/len(v)),
                                  ("min", min), ("max", max)):
                    def fn():
                        o = P(np.append(m.x, m.x[dup]), np.append(m.y, 2.25),
                              None, m.ux, m.uy)
                        e = m.y.copy()
                        v = m.y[dup]
                        e[dup] = NAN if np.isnan(v) else agg([v, 2.25])
                        p = o.real()
                        r = p.remove_doublons(method=meth)
                        compare(p, o, " of the original")
                        # positions are rounded to a millionth of their order
                        # of magnitude
                        rx = np.array(r.x)
                        tol = 5e-6*np.mean(m.x**2)**.5
                        expect(len(rx) == len(m.x) and
                               np.all(abs(rx - m.x) <= tol), "x",
                               lambda: (rx.tolist(), m.x.tolist()))
                        return compare(r, P(rx, e, None, m.ux, m.uy))
                    ck.case("remove_doublons|{}|{}".format(meth, cls),
                            d + (dup,), fn, state=m.key())
            # resolution
            if len(ok) > 1:
                for fact in (2, 3):
                    # the masked ends are cropped, the gaps filled
                    e_x, e_y = [], []
                    idx = [(i - ok[0])*fact for i in ok]
                    for k in range((ok[-1] - ok[0])*fact + 1):
                        e_x.append(np.interp(k, idx, m.x[ok]))
                        e_y.append(np.interp(k, idx, m.y[ok]))
                    both("augment_resolution|" + cls, m,
                         lambda p, i: p.augment_resolution(fact=fact,
                                                           inplace=i),
                         P(e_x, e_y, None, m.ux, m.uy), ck, d + (fact,))
            if not mask[0] and not mask[-1]:
                L = x[-1] - x[0]
                dxs = np.diff(x)
                even = np.all(abs(dxs - dxs[0]) < 1e-9)
                for dx in (None, .5):
                    if even:
                        e = m
                    else:
                        k = (n - 1) if dx is None else int(L/dx)
                        xe = [x[0] + L*q/k for q in range(k + 1)]
                        e = P(xe, np.interp(xe, m.x[ok], m.y[ok]), None,
                              m.ux, m.uy)
                    both("evenly_space|{}|{}".format(
                        "even" if even else "uneven", cls), m,
                        lambda p, i: p.evenly_space(dx=dx, inplace=i), e, ck,
                        d + (dx,))


def refused_add(m):
    p = m.real()
    o = P([9.], [1.], None, m.ux, "kg")
    return refused(lambda: p.add_points(o.real()), p)


# -- queries -------------------------------------------------------------------
def queries(ck):
    for nm in ("n4", "u5", "e5") + BIG if not ck.thorough else sorted(XS):
        x = np.array(XS[nm])
        n = len(x)
        for mask in masks(n, nm in BIG):
            m = mk(nm, mask)
            d = (nm, fm.mdesc(mask))
            cls = fm.mcls(mask)
            ok = np.where(~mask)[0]

            def pure(op, fn):
                def f():
                    p = m.real(hidden=1e6)
                    s = fm.snap(p)
                    r = fn(p)
                    expect(fm.snap(p) == s, "profile modified")
                    return r
                ck.case(op + "|" + cls, d, f, state=m.key())

            def stats(p):
                v = m.y[ok]
                expect(abs(p.min - min(v)) < 1e-12, "min")
                expect(abs(p.max - max(v)) < 1e-12, "max")
                expect(abs(p.mean - sum(v)/len(v)) < 1e-9, "mean")
                return round(p.mean, 6)
            pure("stats", stats)

            def integral(p):
                e = sum((m.y[a] + m.y[b])/2*(m.x[b] - m.x[a])
                        for a, b in zip(ok[:-1], ok[1:]))
                v, u = p.get_integral()
                expect(abs(v*fm.ratio(u, m.ux*m.uy) - e) < 1e-9, "integral",
                       (v, e))
                for us in UNITS:
                    v, u = P(m.x, m.y, None, *us).real().get_integral()
                    expect(abs(v*fm.ratio(u, U(us[0])*U(us[1])) - e) <
                           1e-9*max(1, abs(e)), "integral in other units",
                           (us, v, str(u), e))
                return round(e, 6)
            pure("get_integral", integral)

            def by_x(p):
                out = []
                for i in range(n - 1):
                    q = (x[i] + x[i + 1])/2
                    e = (m.y[i] + m.y[i + 1])/2
                    for val in (q, ):
                        r = p.get_interpolated_values(x=val)
                        g = float(np.ma.filled(np.ma.asarray(
                            r[0], dtype=float), NAN)) if len(r) else NAN
                        expect(fm.close([g], [e]), "interpolated y",
                               (val, g, e))
                        out.append(round(np.nan_to_num(e), 6))
                for i in range(n):
                    r = p.get_interpolated_values(x=x[i])
                    g = float(np.ma.filled(np.ma.asarray(
                        r[0], dtype=float), NAN))
                    expect(fm.close([g], [m.y[i]]), "stored y",
                           (i, g, m.y[i]))
                    r = p.get_interpolated_values(x=i, ind=True)
                    g = float(np.ma.filled(np.ma.asarray(
                        r[0], dtype=float), NAN))
                    expect(fm.close([g], [m.y[i]]), "y at index", (i, g))
                r = p.get_interpolated_values(x=list(x))
                expect(fm.close(r, m.y), "y of several x",
                       lambda: (r.tolist(), m.y.tolist()))
                return out
            pure("get_interpolated_values x", by_x)

            def crossings(v):
                e = []
                for i in range(n - 1):
                    a, b = m.y[i], m.y[i + 1]
                    if np.isnan(a) or np.isnan(b):
                        continue
                    if (a - v)*(b - v) < 0:
                        e.append(x[i] + (v - a)/(b - a)*(x[i + 1] - x[i]))
                e += [x[i] for i in range(n) if m.y[i] == v]
                return sorted(e)

            def by_y(p):
                out = []
                ys = np.sort(m.y[ok])
                for v in [(a + b)/2 for a, b in zip(ys[:-1], ys[1:])]:
                    e = crossings(v)
                    r = sorted(float(k) for k in p.get_interpolated_values(
                        y=v) if not np.ma.is_masked(k))
                    expect(fm.close(r, e), "x of a y", (v, r, e))
                    r = sorted(float(k) for k in p.get_value_position(v))
                    expect(fm.close(r, e), "position of a value", (v, r, e))
                    ei = sorted(np.interp(k, x, np.arange(n)) for k in e)
                    r = sorted(float(k) for k in p.get_value_position(
                        v, ind=True))
                    expect(fm.close(r, ei), "index of a value", (v, r, ei))
                    out.append(e)
                for i in ok:
                    e = crossings(m.y[i])
                    r = [float(k) for k in p.get_interpolated_values(
                        y=float(m.y[i])) if not np.ma.is_masked(k)]
                    expect(fm.close(r, e), "x of a stored y", (i, r, e))
                    r = p.get_value_position(float(m.y[i]))
                    expect(fm.close(r, e), "position of a stored value",
                           (i, list(r), e))
                    ei = sorted(np.interp(k, x, np.arange(n)) for k in e)
                    r = p.get_value_position(float(m.y[i]), ind=True)
                    expect(fm.close(r, ei), "index of a stored value",
                           (i, list(r), ei))
                return np.round(np.concatenate(out) if out else [],
                                6).tolist()
            pure("value positions", by_y)

            if len(ok) >= 2:
                def interp(p):
                    it = p.get_interpolator()
                    q = np.linspace(x[ok[0]], x[ok[-1]], 9)
                    e = np.interp(q, x[ok], m.y[ok])
                    expect(fm.close(it(q), e), "interpolator")
                    return np.round(e, 6).tolist()
                pure("get_interpolator", interp)
            dxs = np.diff(x)
            if np.all(dxs == dxs[0]):
                def grad(p):
                    h = dxs[0]
                    e = []
                    for i in range(n):
                        if i == 0:
                            e.append((m.y[1] - m.y[0])/h)
                        elif i == n - 1:
                            e.append((m.y[-1] - m.y[-2])/h)
                        else:
                            e.append((m.y[i + 1] - m.y[i - 1])/2/h)
                    g = p.get_gradient()
                    f = fm.ratio(g.unit_y, m.uy/m.ux)
                    gy = np.array(g.y)*f
                    for i in range(n):
                        if not np.isnan(e[i]):
                            expect(abs(gy[i] - e[i]) < 1e-9, "gradient",
                                   (i, gy[i], e[i]))
                        else:
                            expect(bool(g.mask[i]), "gradient of missing data",
                                   (i, gy[i]))
                    expect(fm.same_unit(g.unit_x, m.ux), "x unit")
                    for us in UNITS:
                        g = P(m.x, m.y, None, *us).real().get_gradient()
                        f = fm.ratio(g.unit_y, U(us[1])/U(us[0]))
                        for i in range(n):
                            expect(np.isnan(e[i]) or abs(
                                g.y[i]*f - e[i]) < 1e-8*max(1, abs(e[i])),
                                "gradient in other units", (us, i))
                    return np.round(e, 6).tolist()
                pure("get_gradient", grad)
                if not mask.any():
                    def gradp(p):
                        h = dxs[0]
                        for i in range(1, n - 1):
                            e = (m.y[i + 1] - m.y[i - 1])/2/h
                            g = p.get_gradient(position=float(x[i]))
                            expect(abs(g - e) < 1e-6, "gradient at a point",
                                   (i, g, e))
                        return 1
                    pure("get_gradient position", gradp)

                    def grada(p):
                        h = dxs[0]

                        def at(t):
                            i = min(max(int(np.searchsorted(x, t)) - 1, 0),
                                    n - 2)
                            return m.y[i] + (m.y[i + 1] - m.y[i]) * \
                                (t - x[i])/(x[i + 1] - x[i])
                        for wd in (None, h, h/4, 1.5*h):
                            w = h if wd is None else wd
                            for t in np.arange(x[0] - h, x[-1] + 1.1*h, h/4):
                                t = float(t)
                                a = t if t < x[0] else t - w
                                b = t if t > x[-1] else t + w
                                e = (at(b) - at(a))/(b - a)
                                g = p.get_gradient(position=t, wanted_dx=wd)
                                expect(abs(g - e) < 1e-7*max(1, abs(e)),
                                       "gradient at a position",
                                       (t, wd, g, e))
                        return 1
                    if nm not in BIG:
                        pure("get_gradient any position", grada)
            else:
                ck.case("get_gradient|refused", d, lambda: refused(
                    lambda: m.real().get_gradient()))


# -- sequences -------------------------------------------------------------------
def sequences(ck):
    """breadth first search over operation sequences: every result compared
    with the model of the whole history"""
    def e_crop(m):
        sel = (m.x >= -.5) & (m.x <= 2.5)
        return P(m.x[sel], m.y[sel], None, m.ux, m.uy) if sel.any() else None

    def e_cmb(m):
        ok = np.where(~m.mask)[0]
        if not len(ok):
            return None
        return P(m.x[ok[0]:ok[-1] + 1], m.y[ok[0]:ok[-1] + 1], None, m.ux,
                 m.uy)

    def r_fill(p):
        p.fill(kind="value", fill_value=1.5, inplace=True)
        return p

    def r_add(p):
        p.add_point(.75, 3.)
        return p

    def r_rem(p):
        p.remove_point(1)
        return p

    def r_unit(p):
        p.change_unit("x", "ms" if fm.same_unit(p.unit_x, U("s")) else "s")
        return p

    def e_unit(m):
        if fm.same_unit(m.ux, U("s")):
            return P(m.x*1000, m.y, None, "ms", m.uy)
        return P(m.x/1000., m.y, None, "s", m.uy)

    def r_mask(p):
        k = np.array(p.mask)
        k[0] = True
        p.mask = k
        return p

    def e_mask(m):
        y = m.y.copy()
        y[0] = NAN
        return P(m.x, y, None, m.ux, m.uy)
    OPS = [
        ("neg", lambda p: -p, lambda m: P(m.x, -m.y, None, m.ux, m.uy)),
        ("add", lambda p: p + 1, lambda m: P(m.x, m.y + 1, None, m.ux, m.uy)),
        ("double", lambda p: p + p, lambda m: P(m.x, 2*m.y, None, m.ux,
                                                m.uy)),
        ("scale", lambda p: p.scale(scalex=-1., scaley=2.),
         lambda m: P(-m.x[::-1], 2*m.y[::-1], None, m.ux, m.uy)),
        ("fill", r_fill, lambda m: P(m.x, np.where(m.mask, 1.5, m.y), None,
                                     m.ux, m.uy) if not m.mask.all()
         else None),
        ("add_point", r_add, lambda m: P(np.append(m.x, .75),
                                         np.append(m.y, 3.), None, m.ux,
                                         m.uy) if .75 not in m.x else None),
        ("remove", r_rem, lambda m: P(np.delete(m.x, 1), np.delete(m.y, 1),
                                      None, m.ux, m.uy) if len(m.x) > 2
         else None),
        ("unit", r_unit, e_unit),
        ("mask", r_mask, e_mask),
        ("nans", lambda p: p.remove_nans(), lambda m: P(
            m.x[~m.mask], m.y[~m.mask], None, m.ux, m.uy)
         if (~m.mask).any() else None),
        ("border", lambda p: p.crop_masked_border(), e_cmb),
        ("copy", lambda p: p.copy(), lambda m: m.copy()),
    ]
    depth = 4 if ck.thorough else 3
    for start in (mk("u4"), mk("n4", np.array([1, 0, 1, 0], bool))):
        frontier = [(start, ())]
        seen = {start.key()}
        for lvl in range(depth):
            nxt = []
            for m, hist in frontier:
                for nm, real, model in OPS:
                    e = model(m)
                    if e is None or len(e.x) == 0:
                        continue

                    def fn():
                        return compare(real(m.real()), e)
                    if ck.case("sequence|" + nm, hist + (nm,), fn,
                               state=m.key()) is None:
                        continue
                    # the same, replayed as a live history of one object
                    def live():
                        p = start.real()
                        mm = start
                        for h in hist + (nm,):
                            f = [o for o in OPS if o[0] == h][0]
                            p, mm = f[1](p), f[2](mm)
                        return compare(p, mm)
                    if hist:
                        ck.case("history|" + nm, hist + (nm,), live,
                                state=("h", start.key(), hist, nm))
                    if e.key() not in seen:
                        seen.add(e.key())
                        nxt.append((e, hist + (nm,)))
            frontier = nxt
