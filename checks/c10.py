"""C10: point clouds as lists of records."""
import itertools
import math

import numpy as np

from mc.core import Mismatch, expect
from mc import fm
from mc.fm import U, NAN

PTS = [(0., 0.), (1., -2.), (-1.5, .5), (1., 3.), (2.5, -2.), (0., 0.)]
VAL = [3., -1., 2., 0.5, -1., 4.]
ORI = [[[1., 0.], [0., 1.]], [[0., -1.], [2., 1.]], [[.5, .5], [-1., 3.]],
       [[3., 2.], [1., 1.]], [[-2., 0.], [0., 5.]], [[4., 4.], [1., -7.]]]
# more points (the 6 first ones are the ones used in small clouds)
for _i in range(6, 25):
    PTS.append((((_i*7) % 13)*.25 - 1.5, ((_i*5) % 17)*.25 - 2.))
    VAL.append(((_i*11) % 29)*.25 - 3.0625)
    ORI.append([[float(_i % 3 - 1), .5*_i], [1. - _i, float(_i % 5)]])
BIG = [list(range(25)), [(k*7 + 3) % 25 for k in range(25)],
       list(range(24, 12, -1))]


class C(object):
    """list of records [x, y, v, ori]"""

    def __init__(self, recs, hasv, ori=False, ux="m", uy="mm", uv="s"):
        self.recs = [tuple(r) for r in recs]
        self.hasv, self.ori = hasv, ori
        self.ux, self.uy, self.uv = [U(u) if isinstance(u, str) else u
                                     for u in (ux, uy, uv)]

    def new(self, recs, **kw):
        d = dict(ux=self.ux, uy=self.uy, uv=self.uv)
        d.update(kw)
        return C(recs, self.hasv, self.ori, **d)

    def real(self):
        from IMTreatment import Points, OrientedPoints
        xy = np.array([r[:2] for r in self.recs], float).reshape(-1, 2)
        v = np.array([r[2] for r in self.recs], float) if self.hasv else []
        if self.ori:
            o = np.array([r[3] for r in self.recs], float) if self.recs \
                else []
            return OrientedPoints(xy, o, v, unit_x=self.ux, unit_y=self.uy,
                                  unit_v=self.uv)
        return Points(xy, v, unit_x=self.ux, unit_y=self.uy, unit_v=self.uv)

    def key(self):
        return (tuple(tuple(np.round(np.nan_to_num(np.hstack(
            [np.ravel(np.array(k, float)) for k in r]), nan=9e9),
            6)) for r in self.recs), self.hasv, self.ori, fm.ustr(self.ux),
            fm.ustr(self.uy), fm.ustr(self.uv))

    def __len__(self):
        return len(self.recs)


def cloud(ids, hasv=True, ori=False, **kw):
    return C([(PTS[i][0], PTS[i][1], VAL[i], ORI[i]) for i in ids], hasv,
             ori, **kw)


def compare(p, m, what="", order=True):
    from IMTreatment import Points, OrientedPoints
    expect(isinstance(p, Points), "not points" + what)
    if m.ori:
        expect(isinstance(p, OrientedPoints), "not oriented points" + what,
               lambda: repr(type(p)))
    xy = np.array(p.xy)
    expect(xy.ndim == 2 and xy.shape[1] == 2 or len(xy) == 0,
           "xy shape" + what, lambda: xy.shape)
    expect(len(xy) == len(m) == len(p), "number of points" + what,
           lambda: (xy.tolist(), m.recs))
    v = np.array(p.v) if p.v is not None else np.array([])
    if m.hasv and len(m):
        expect(v.shape == (len(m),), "number of values" + what,
               lambda: (v.tolist(), m.recs))
    elif not m.hasv:
        expect(len(v) == 0, "values appeared" + what, lambda: v.tolist())
    got = []
    for i in range(len(m)):
        r = [float(xy[i, 0]), float(xy[i, 1])]
        if m.hasv:
            r.append(float(v[i]))
        if m.ori:
            o = np.array(p.orientations)
            expect(len(o) == len(m), "number of orientations" + what,
                   lambda: (o.shape, len(m)))
            r += [float(k) for k in o[i].ravel()]
        got.append(r)
    exp = []
    for r in m.recs:
        e = [r[0], r[1]]
        if m.hasv:
            e.append(r[2])
        if m.ori:
            e += [float(k) for k in np.ravel(r[3])]
        exp.append(e)
    if not order:
        kf = lambda r: tuple(np.round(np.nan_to_num(r, nan=9e9), 7))
        got, exp = sorted(got, key=kf), sorted(exp, key=kf)
    expect(fm.close(np.array(got), np.array(exp)), "records" + what,
           lambda: (got, exp))
    expect(fm.same_unit(p.unit_x, m.ux), "x unit" + what,
           lambda: (str(p.unit_x), str(m.ux)))
    expect(fm.same_unit(p.unit_y, m.uy), "y unit" + what,
           lambda: (str(p.unit_y), str(m.uy)))
    if m.hasv and len(m):
        expect(fm.same_unit(p.unit_v, m.uv), "v unit" + what,
               lambda: (str(p.unit_v), str(m.uv)))
    return m.key()


def refused(fn, obj=None):
    s = None if obj is None else fm.snap(obj)
    try:
        r = fn()
    except Exception:
        if obj is not None:
            expect(fm.snap(obj) == s, "modified by a refused call")
        return "refused"
    raise Mismatch("not refused", repr(r)[:200])


# -- operations: (name, real(p, inplace) -> result, model, variants) ------------
def inb(v, lo, hi):
    return lo <= v <= hi


def ops(ori):
    O = []

    def add(nm, both=None, only_in=None, only_out=None, model=None,
            order=True, needv=False, oriented=True):
        if ori and not oriented:
            return
        O.append(dict(nm=nm, both=both, only_in=only_in, only_out=only_out,
                      model=model, order=order, needv=needv))
    for lo, hi in ((-1., 1.), (0., 2.), (-9., 9.), (5., 6.)):
        add("crop x %s %s" % (lo, hi),
            both=lambda p, i, lo=lo, hi=hi: p.crop(intervx=[lo, hi],
                                                   inplace=i),
            model=lambda m, lo=lo, hi=hi: m.new([r for r in m.recs if inb(
                r[0], lo, hi)]))
        add("crop y %s %s" % (lo, hi),
            both=lambda p, i, lo=lo, hi=hi: p.crop(intervy=[lo, hi],
                                                   inplace=i),
            model=lambda m, lo=lo, hi=hi: m.new([r for r in m.recs if inb(
                r[1], lo, hi)]))
        add("crop v %s %s" % (lo, hi),
            both=lambda p, i, lo=lo, hi=hi: p.crop(intervv=[lo, hi],
                                                   inplace=i),
            model=lambda m, lo=lo, hi=hi: m.new([r for r in m.recs if inb(
                r[2], lo, hi)]), needv=True)
        add("cut x %s %s" % (lo - .1, hi + .1),
            only_out=lambda p, lo=lo - .1, hi=hi + .1: p.cut(intervx=[lo,
                                                                      hi]),
            model=lambda m, lo=lo - .1, hi=hi + .1: m.new(
                [r for r in m.recs if not inb(r[0], lo, hi)]))
        add("cut y %s %s" % (lo - .1, hi + .1),
            only_out=lambda p, lo=lo - .1, hi=hi + .1: p.cut(intervy=[lo,
                                                                      hi]),
            model=lambda m, lo=lo - .1, hi=hi + .1: m.new(
                [r for r in m.recs if not inb(r[1], lo, hi)]))
    # bounds next to a point, without reaching it, and on points
    e = 2.**-14
    for lo, hi in ((-1.5 + e, 1. - e), (0., .5 - e), (-1. + e, 3.),
                   (1., 1.), (-2., 2.)):
        for k, nm in enumerate("xyv"):
            kw = {"interv" + nm: [lo, hi]}
            add("crop %s near %s %s" % (nm, lo, hi),
                both=lambda p, i, kw=kw: p.crop(inplace=i, **kw),
                model=lambda m, lo=lo, hi=hi, k=k: m.new(
                    [r for r in m.recs if inb(r[k], lo, hi)]),
                needv=nm == "v")
            if nm != "v":
                # the border of the area is not in the area
                add("cut %s near %s %s" % (nm, lo, hi),
                    only_out=lambda p, kw=kw: p.cut(**kw),
                    model=lambda m, lo=lo, hi=hi, k=k: m.new(
                        [r for r in m.recs if not lo < r[k] < hi]))
    add("crop xyv", both=lambda p, i: p.crop(
        intervx=[-1.5, 1.], intervy=[-2., .5], intervv=[-1., 3.],
        inplace=i), model=lambda m: m.new(
            [r for r in m.recs if inb(r[0], -1.5, 1.) and
             inb(r[1], -2., .5) and inb(r[2], -1., 3.)]), needv=True)
    for a, b in ((0, 1), (1, 3), (0, 2)):
        add("crop ind %d %d" % (a, b),
            both=lambda p, i, a=a, b=b: p.crop(intervv=[a, b], ind=True,
                                               inplace=i),
            model=lambda m, a=a, b=b: m.new(m.recs[a:b]), oriented=False)
    add("crop xy", both=lambda p, i: p.crop(intervx=[-1.5, 1.],
                                            intervy=[-2., .5], inplace=i),
        model=lambda m: m.new([r for r in m.recs if inb(r[0], -1.5, 1.) and
                               inb(r[1], -2., .5)]))
    add("cut xy", only_out=lambda p: p.cut(intervx=[-1.6, 1.1],
                                           intervy=[-2.1, .6]),
        model=lambda m: m.new([r for r in m.recs if not (
            inb(r[0], -1.6, 1.1) and inb(r[1], -2.1, .6))]))
    for q in (0, 1, -1):
        def mrem(m, q=q):
            if not -len(m) <= q < len(m):
                return None
            r = list(m.recs)
            del r[q]
            return m.new(r)
        add("remove %d" % q, only_in=lambda p, q=q: p.remove(q), model=mrem)
    for qs in ([0, 2], [2, 0], [0, 1, 2], []):
        add("remove %s" % qs, only_in=lambda p, qs=qs: p.remove(list(qs)),
            model=lambda m, qs=qs: m.new([r for k, r in enumerate(m.recs)
                                          if k not in qs])
            if all(q < len(m) for q in qs) else None)
    add("add", only_in=lambda p: radd(p, (.25, -.75), 6., ORI[3]),
        model=lambda m: m.new(m.recs + [(.25, -.75, 6., ORI[3])]))
    for ref, k in (("x", 0), ("y", 1), ("v", 2)):
        add("sort " + ref, both=lambda p, i, ref=ref: p.sort(ref=ref,
                                                             inplace=i),
            model=lambda m, k=k: m.new(sorted(m.recs, key=lambda r: r[k]))
            if len(m) else None, needv=(ref == "v"), order="key%d" % k)
    add("sort indices", both=lambda p, i: p.sort(
        ref=list(range(len(p)))[::-1], inplace=i),
        model=lambda m: m.new(m.recs[::-1]) if len(m) > 1 else None)
    add("set_origin", only_in=lambda p: p.set_origin(.5, -1.),
        model=lambda m: m.new([(r[0] - .5, r[1] + 1.) + r[2:]
                               for r in m.recs]))
    add("set_origin x", only_in=lambda p: p.set_origin(x=1.5),
        model=lambda m: m.new([(r[0] - 1.5,) + r[1:] for r in m.recs]))
    add("scale", both=lambda p, i: p.scale(scalex=2., scaley=-.5, scalev=3.,
                                           inplace=i),
        model=lambda m: m.new([(r[0]*2, r[1]*-.5, r[2]*3, r[3])
                               for r in m.recs]))
    for q, kw in (((1., 4., 1.), dict(scaley=4.)),
                  ((-2., 1., 1.), dict(scalex=-2.)),
                  ((1., 1., .5), dict(scalev=.5)),
                  ((3., 1., -2.), dict(scalex=3, scalev=-2))):
        add("scale only %s" % (q,),
            both=lambda p, i, kw=kw: p.scale(inplace=i, **kw),
            model=lambda m, q=q: m.new(
                [(r[0]*q[0], r[1]*q[1], r[2]*q[2], r[3]) for r in m.recs]),
            needv="scalev" in kw)
    add("scale quantity v", both=lambda p, i: p.scale(scalev=2*U("kg"),
                                                      inplace=i),
        model=lambda m: m.new([r[:2] + (r[2]*2, r[3]) for r in m.recs],
                              uv=m.uv*U("kg")), needv=True)
    add("scale quantity", both=lambda p, i: p.scale(scalex=2*U("kg"),
                                                    scaley=4*U("s"),
                                                    inplace=i),
        model=lambda m: m.new([(r[0]*2, r[1]*4) + r[2:] for r in m.recs],
                              ux=m.ux*U("kg"), uy=m.uy*U("s")))
    a = math.pi/6
    add("rotate", both=lambda p, i: p.rotate(a, inplace=i),
        model=lambda m: m.new([(r[0]*math.cos(a) - r[1]*math.sin(a),
                                r[1]*math.cos(a) + r[0]*math.sin(a),
                                r[2], [[o[0]*math.cos(a) - o[1]*math.sin(a),
                                        o[1]*math.cos(a) + o[0]*math.sin(a)]
                                       for o in r[3]])
                               for r in m.recs]))
    add("unit x", only_in=lambda p: p.change_unit("x", "km"),
        model=lambda m: m.new([(r[0]*fm.ratio(m.ux, U("km")),) + r[1:]
                               for r in m.recs], ux="km")
        if fm.ustr(m.ux) in ("[m]", "[km]") else None)
    add("unit v", only_in=lambda p: p.change_unit("v", "ms"),
        model=lambda m: m.new([r[:2] + (r[2]*fm.ratio(m.uv, U("ms")),) +
                               r[3:] for r in m.recs], uv="ms"), needv=True)
    add("reverse", only_out=lambda p: p.reverse(),
        model=lambda m: m.new([(r[1], r[0], r[2],
                                [o[::-1] for o in r[3]]) for r in m.recs],
                              ux=m.uy, uy=m.ux))
    add("remove_nans", both=lambda p, i: p.remove_nans(inplace=i),
        model=lambda m: m.new([r for r in m.recs if not any(
            np.isnan(r[k]) for k in ((0, 1, 2) if m.hasv else (0, 1)))]))
    add("copy", only_out=lambda p: p.copy(), model=lambda m: m)
    other = cloud([3, 4], True, ori, ux="mm", uy="m", uv="ms")

    def msum(m, first):
        o = other
        if m.hasv is False:
            return None
        try:
            fs = [fm.ratio(o.ux, m.ux), fm.ratio(o.uy, m.uy),
                  fm.ratio(o.uv, m.uv)]
        except Exception:
            return None
        if not len(m):
            return o
        if first:
            return m.new(m.recs + [(r[0]*fs[0], r[1]*fs[1], r[2]*fs[2], r[3])
                                   for r in o.recs])
        return o.new(list(o.recs) + [(r[0]/fs[0], r[1]/fs[1], r[2]/fs[2],
                                      r[3]) for r in m.recs])
    add("sum", only_out=lambda p: p + other.real(),
        model=lambda m: msum(m, True))
    add("sum reversed", only_out=lambda p: other.real() + p,
        model=lambda m: msum(m, False))

    def mself(m):
        return m.new(m.recs + m.recs)
    add("double", only_out=lambda p: p + p, model=mself)
    return O


def radd(p, pt, v, o):
    from IMTreatment import OrientedPoints
    hasv = len(p.v) != 0 or getattr(p, "_c10_hasv", False)
    if isinstance(p, OrientedPoints):
        p.add(pt, o, v=v if hasv else None)
    else:
        p.add(pt, v=v if hasv else None)


def apply(ck, o, m, e, hist=()):
    """all variants of operation o from model state m"""
    cmp = o["order"]

    def check(p, what=""):
        if isinstance(cmp, str):        # sorted: ties may be in any order
            k = int(cmp[3:])
            compare(p, e, what, order=False)
            if k < 2:
                s = np.array(p.xy)[:, k]
            else:
                s = np.array(p.v)
            expect(np.all(np.diff(s) >= 0), "not sorted" + what)
        else:
            compare(p, e, what)
        return e.key()

    def mkr():
        p = m.real()
        p._c10_hasv = m.hasv
        return p

    def out(fn):
        p = mkr()
        s = fm.snap(p)
        r = fn(p)
        k = check(r)
        expect(fm.snap(p) == s, "original modified")
        expect(not fm.shares_memory(p, r), "result aliases the original")
        return k

    def inp(fn):
        p = mkr()
        fn(p)
        return check(p, " in place")
    cls = ("oriented" if m.ori else "points") + \
        ("|values" if m.hasv else "|no values")
    nm = o["nm"].split(" ")[0]
    sig = "{}|{}|{}".format(nm, cls, "empty" if not len(m) else "some")
    d = (o["nm"], m.key()[0], hist)
    ok = True
    if o["both"]:
        ok &= ck.case(sig + "|copy", d, lambda: out(
            lambda p: o["both"](p, False)), state=m.key()) is not None
        ok &= ck.case(sig + "|inplace", d, lambda: inp(
            lambda p: o["both"](p, True)), state=m.key()) is not None
    if o["only_in"]:
        ok &= ck.case(sig + "|inplace", d, lambda: inp(o["only_in"]),
                      state=m.key()) is not None
    if o["only_out"]:
        ok &= ck.case(sig + "|copy", d, lambda: out(o["only_out"]),
                      state=m.key()) is not None
    return ok


def run(ck):
    construct(ck)
    single(ck)
    sequences(ck)
    histories(ck)
    queries(ck)
    smoothing(ck)
    ck.assumptions += ["clouds of 0 to 4 points (coincident points and equal "
                       "values included), 2 orientations per point",
                       "clouds without values are not merged with clouds "
                       "with values (refused)"]


def construct(ck):
    from IMTreatment import Points, OrientedPoints
    for n in range(0, 5):
        for ids in itertools.permutations(range(5), n):
            if n == 4 and not ck.thorough and ids[0] > 1:
                continue
            for hasv, ori in itertools.product((True, False), repeat=2):
                m = cloud(ids, hasv, ori)

                def fn():
                    xy = np.array([r[:2] for r in m.recs]).reshape(-1, 2)
                    v = np.array([r[2] for r in m.recs])
                    o = np.array([r[3] for r in m.recs])
                    s = fm.snap([xy, v, o])
                    if ori:
                        p = OrientedPoints(xy, o, v if hasv else [],
                                           unit_x="m", unit_y="mm",
                                           unit_v="s")
                    else:
                        p = Points(xy, v if hasv else [], unit_x="m",
                                   unit_y="mm", unit_v="s")
                    compare(p, m)
                    for a in (xy, v, o):
                        expect(not fm.shares_memory(p, a),
                               "aliases the arguments")
                    p.set_origin(1., 1.)
                    p.change_unit("x", "km")
                    expect(fm.snap([xy, v, o]) == s, "arguments modified")
                    its = list(m.real())
                    expect(len(its) == len(m), "iteration length")
                    for it, r in zip(its, m.recs):
                        flat = np.hstack([np.ravel(np.array(k, float))
                                          for k in (it if isinstance(
                                              it, tuple) else (it,))])
                        e = list(r[:2]) + ([r[2]] if hasv else []) + \
                            (list(np.ravel(r[3])) if ori else [])
                        expect(fm.close(flat, e), "iteration",
                               lambda: (flat.tolist(), e))
                    return m.key()
                ck.case("construct|{}|{}".format(
                    "oriented" if ori else "points",
                    "values" if hasv else "no values"), ids, fn,
                    state=m.key())
    P3 = [(0., 1.), (1., 2.), (2., 3.)]
    for bad, f in (("v length", lambda: Points(P3, [1., 2.])),
                   ("3D", lambda: Points([(0., 1., 2.)])),
                   ("unit", lambda: Points(P3, unit_x=3)),
                   ("orientation length", lambda: OrientedPoints(
                       P3, np.ones((2, 1, 2))))):
        ck.case("construct|refused", bad, lambda: refused(f))
    m = cloud([0, 1])
    p = m.real()
    ck.case("add|refused", "value missing", lambda: refused(
        lambda: p.add((1., 2.)), p))
    m2 = cloud([0, 1], False)
    p2 = m2.real()
    ck.case("add|refused", "value unexpected", lambda: refused(
        lambda: p2.add((1., 2.), v=3.), p2))
    ck.case("sum|refused", "dimension", lambda: refused(
        lambda: cloud([0], ux="kg").real() + cloud([1]).real()))
    ck.case("sum|refused", "dimension of values", lambda: refused(
        lambda: cloud([0], uv="kg").real() + cloud([1]).real()))
    ck.case("sum|refused", "values/no values", lambda: refused(
        lambda: cloud([0], False).real() + cloud([1]).real()))
    # integers
    for v in ([1, 2, 4], np.array([3, 1, 2])):
        def ints():
            q = Points([[0, 1], [2, 3], [4, 6]], v, unit_x="m", unit_y="mm",
                       unit_v="s")
            e = C([(x*.5, y*2., w*.25, ORI[0]) for (x, y), w in
                   zip([[0, 1], [2, 3], [4, 6]], v)], True)
            r = q.scale(.5, 2., .25)
            compare(r, e)
            q.scale(.5, 2., .25, inplace=True)
            compare(q, e, " in place")
            q.change_unit("v", "ms")
            compare(q, e.new([r[:2] + (r[2]*1e3, r[3]) for r in e.recs],
                             uv="ms"), " other unit")
            return "ok"
        ck.case("integers", list(v), ints)
    ck.case("unit|refused", "x", lambda: refused(
        lambda: p.change_unit("x", "kg"), p))


def starts(ck):
    for hasv, ori in ((True, False), (False, False), (True, True),
                      (False, True)):
        for n in range(0, 5):
            for ids in itertools.permutations(range(6), n):
                if n >= 3 and (ids[0] > 2 if ck.thorough else
                               ids[0] != 1 or (n == 4 and ids[1] > 2)):
                    continue
                yield cloud(ids, hasv, ori)
        for ids in BIG:
            yield cloud(ids, hasv, ori)
        for sx, ox, sv in ((2.**-16, 0., 2.**14), (2.**-6, 512., 2.**-16),
                           (2.**14, -2.**10, -1.)):
            m = cloud([1, 0, 2, 4], hasv, ori)
            yield m.new([(r[0]*sx + ox, r[1]*sx - ox, r[2]*sv, r[3])
                         for r in m.recs])
        base = cloud([0, 1, 2], hasv, ori)
        for i in range(3):
            for k in (0, 1) + ((2,) if hasv else ()):
                recs = [list(r) for r in base.recs]
                recs[i][k] = NAN
                yield base.new(recs)
        base = cloud([0, 1, 2, 3], hasv, ori)
        for bad in itertools.product((None, 0, 1) + ((2,) if hasv else ()),
                                     repeat=4):
            if sum(k is not None for k in bad) < 2:
                continue
            recs = [list(r) for r in base.recs]
            for r, k in zip(recs, bad):
                if k is not None:
                    r[k] = NAN
            yield base.new(recs)


def hasnan(m):
    return any(np.isnan(r[k]) for r in m.recs for k in (0, 1, 2))


def single(ck):
    """every operation from every start state"""
    tables = {True: ops(True), False: ops(False)}
    for m in starts(ck):
        for o in tables[m.ori]:
            if o["needv"] and not m.hasv:
                continue
            if hasnan(m) and o["nm"] != "remove_nans":
                continue
            e = o["model"](m)
            if e is None:
                continue
            apply(ck, o, m, e)


SEQ = ("crop x -1.0 1.0", "cut y -0.1 2.1", "remove 0", "remove [0, 2]",
       "add", "sort x", "sort v", "sort indices", "set_origin", "scale",
       "unit x", "unit v", "reverse", "remove_nans", "sum", "sum reversed",
       "double")


def sequences(ck):
    depth = 3 if ck.thorough else 2
    for hasv, ori in ((True, False), (False, False), (True, True)):
        table = [o for o in ops(ori) if o["nm"] in SEQ]
        frontier = [(cloud([1, 0, 2], hasv, ori), ())]
        seen = {frontier[0][0].key()}
        for lvl in range(depth):
            nxt = []
            for m, hist in frontier:
                for o in table:
                    if o["needv"] and not m.hasv or len(m) > 8:
                        continue
                    e = o["model"](m)
                    if e is None:
                        continue
                    if not apply(ck, o, m, e, hist):
                        continue
                    if e.key() not in seen:
                        seen.add(e.key())
                        nxt.append((e, hist + (o["nm"],)))
            frontier = nxt


def histories(ck):
    """live histories on one object: all sequences of length 3"""
    for hasv, ori in ((True, False), (False, False), (True, True)):
        names = ("crop x -1.0 1.0", "remove 0", "remove [0, 2]", "add",
                 "sort x", "scale", "set_origin", "sum", "double", "unit x",
                 "remove_nans", "reverse", "cut y -0.1 2.1")
        table = [o for o in ops(ori) if o["nm"] in names]
        start = cloud([1, 0, 2, 4], hasv, ori)
        for seq in itertools.product(table, repeat=4 if ck.thorough else 3):
            m = start
            for o in seq:
                m = o["model"](m) if m is not None and not (
                    o["needv"] and not m.hasv) else None
                if m is None:
                    break
            if m is None:
                continue

            def fn():
                p = start.real()
                mm = start
                p._c10_hasv = hasv
                for o in seq:
                    if o["both"]:
                        o["both"](p, True)
                    elif o["only_in"]:
                        o["only_in"](p)
                    else:
                        p = o["only_out"](p)
                        p._c10_hasv = hasv
                    mm = o["model"](mm)
                return compare(p, mm, order=not any(isinstance(
                    o["order"], str) for o in seq))
            ck.case("history|{}|{}".format(
                "oriented" if ori else "points",
                "values" if hasv else "no values"),
                tuple(o["nm"] for o in seq), fn)


# -- queries ---------------------------------------------------------------------
def queries(ck):
    from IMTreatment import ScalarField
    for n in (1, 2, 3, 4, "more"):
        for ids in itertools.permutations(range(5), n) if n != "more" \
                else BIG:
            if n == 4 and ids[0] != 2 and not ck.thorough:
                continue
            n = len(ids)
            m = cloud(ids)

            def pure(nm, fn, mm=m):
                def f():
                    p = mm.real()
                    s = fm.snap(p)
                    r = fn(p)
                    expect(fm.snap(p) == s, "cloud modified")
                    return r
                ck.case("query " + nm, ids, f, state=mm.key())

            def decompose(p):
                r = p.decompose()
                expect(len(r) == n, "number of parts")
                for q, rec in zip(r, m.recs):
                    compare(q, m.new([rec]))
                    expect(not fm.shares_memory(q, p), "part aliases")
                return n
            pure("decompose", decompose)

            def dec_o(p):
                mo = cloud(ids, True, True)
                r = p.decompose()
                expect(len(r) == n, "number of parts")
                for q, rec in zip(r, mo.recs):
                    compare(q, mo.new([rec]))
                return n
            pure("decompose oriented", dec_o, cloud(ids, True, True))

            def prof(p):
                us = dict(x=m.ux, y=m.uy, v=m.uv)
                for (a, i), (b, j) in itertools.product(
                        (("x", 0), ("y", 1), ("v", 2)), repeat=2):
                    r = p.export_to_profile(a, b)
                    got = sorted(zip(r.x.tolist(), r.y.tolist()))
                    exp = sorted((q[i], q[j]) for q in m.recs)
                    expect(fm.close(np.array(got), np.array(exp)),
                           "exported profile", (a, b, got, exp))
                    expect(fm.same_unit(r.unit_x, us[a]) and
                           fm.same_unit(r.unit_y, us[b]), "profile units")
                return n
            pure("export_to_profile", prof)

            def clusters(p):
                r = p.get_clusters(1e-3, min_samples=1)
                got = sorted((float(x), float(y), float(v)) for q in r
                             for (x, y), v in zip(q.xy, q.v))
                exp = sorted(q[:3] for q in m.recs)
                expect(got == exp, "clusters lose points", (got, exp))
                return n
            pure("get_clusters", clusters)
            if n >= 2:
                def augment(p):
                    r = p.augment_resolution(fact=2)
                    e = []
                    for a, b in zip(m.recs[:-1], m.recs[1:]):
                        e += [a[:3], tuple((q + s)/2 for q, s in
                                           zip(a[:3], b[:3]))]
                    e.append(m.recs[-1][:3])
                    return compare(r, C([q + (ORI[0],) for q in e], True))
                pure("augment_resolution", augment)

            def doublons(p):
                e = {}
                for r in m.recs:
                    e.setdefault(r[2], []).append(r)
                for meth, agg in (("average", lambda k: sum(k)/len(k)),
                                  ("min", min), ("max", max)):
                    ee = m.new([(agg([r[0] for r in e[v]]),
                                 agg([r[1] for r in e[v]]), v, ORI[0])
                                for v in sorted(e)])
                    compare(p.remove_doublons(method=meth), ee)
                    q = m.real()
                    q.remove_doublons(method=meth, inplace=True)
                    compare(q, ee, " in place")
                return len(e)
            pure("remove_doublons", doublons)

            # values shared by several points
            for pat in itertools.product((1., -.5, 0.), repeat=n) \
                    if n <= 3 else ():
                mm = m.new([(r[0], r[1], v, r[3])
                            for r, v in zip(m.recs, pat)])

                def dbl(p):
                    e = {}
                    for r in mm.recs:
                        e.setdefault(r[2], []).append(r)
                    for meth, agg in (("average", lambda k: sum(k)/len(k)),
                                      ("min", min), ("max", max)):
                        compare(p.remove_doublons(method=meth), mm.new(
                            [(agg([r[0] for r in e[v]]),
                              agg([r[1] for r in e[v]]), v, ORI[0])
                             for v in sorted(e)]))
                    return len(e)
                pure("remove_doublons shared", dbl, mm)

            vs = [r[2] for r in m.recs]
            if n >= 2 and len(set(vs)) == n:
                def vel_on(p):
                    rs = sorted(m.recs, key=lambda r: r[2])
                    for xa, k, u in (("x", 0, m.ux), ("y", 1, m.uy),
                                     ("time", 2, m.uv)):
                        for incr in (1, 2):
                            q = rs[::incr]
                            if len(q) < 2:
                                continue
                            pos = [(a[k] + b[k])/2 for a, b in zip(q[:-1],
                                                                  q[1:])]
                            for pr, c, uc in zip(
                                    p.get_velocity(incr=incr, xaxis=xa),
                                    (0, 1), (m.ux, m.uy)):
                                e = [(b[c] - a[c])/(b[2] - a[2])
                                     for a, b in zip(q[:-1], q[1:])]
                                f = fm.ratio(pr.unit_y, uc/m.uv)
                                expect(fm.same_unit(pr.unit_x, u),
                                       "velocity: unit of the positions",
                                       (xa, str(pr.unit_x)))
                                got = sorted(zip(pr.x.tolist(),
                                                 (np.array(pr.y)*f).tolist()))
                                expect(fm.close(np.array(got), np.array(
                                    sorted(zip(pos, e)))), "velocity along "
                                    + xa, (got, pos, e))
                    return n
                pure("get_velocity xaxis", vel_on)
                for us in (("m", "mm", "km"), ("s", "ms", "h"),
                           ("km", "m", "h")):
                    mu = cloud(ids, ux=us[0], uy=us[1], uv=us[2])

                    def vel_u(p):
                        rs = sorted(mu.recs, key=lambda r: r[2])
                        for pr, c, u in zip(p.get_velocity(), (0, 1),
                                            (mu.ux, mu.uy)):
                            f = fm.ratio(pr.unit_y, u/mu.uv)
                            expect(fm.close(np.array(pr.y)*f, [
                                (b[c] - a[c])/(b[2] - a[2])
                                for a, b in zip(rs[:-1], rs[1:])]),
                                "velocity in other units", us)
                        return us
                    pure("get_velocity units", vel_u, mu)

                def vel(p):
                    rs = sorted(m.recs, key=lambda r: r[2])
                    px, py = p.get_velocity()
                    for pr, k, u in ((px, 0, m.ux), (py, 1, m.uy)):
                        e = [(b[k] - a[k])/(b[2] - a[2])
                             for a, b in zip(rs[:-1], rs[1:])]
                        t = [(a[2] + b[2])/2 for a, b in zip(rs[:-1],
                                                            rs[1:])]
                        f = fm.ratio(pr.unit_y, u/m.uv)
                        expect(fm.close(pr.x, t), "velocity times")
                        expect(fm.close(np.array(pr.y)*f, e), "velocity",
                               lambda: (pr.y.tolist(), e))
                    return np.round(e, 6).tolist()
                pure("get_velocity", vel)

            def on_sf(p):
                f = ScalarField()
                ax, ay = np.arange(-2., 4.), np.arange(-3., 5.)
                f.import_from_arrays(ax, ay, 2*ax[:, None] - ay[None, :] + 1,
                                     unit_values="K")
                for axe, k in (("x", 0), ("y", 1), ("v", 2), (None, 2)):
                    r = p.get_evolution_on_sf(f, axe_x=axe)
                    got = sorted(zip(r.x.tolist(), r.y.tolist()))
                    exp = sorted((q[k], 2*q[0] - q[1] + 1) for q in m.recs)
                    expect(fm.close(np.array(got), np.array(exp)),
                           "evolution on a field", (axe, got, exp))
                    expect(fm.same_unit(r.unit_y, U("K")), "evolution unit")
                # points in m, mm: positions in the units of the field
                g = ScalarField()
                g.import_from_arrays(ax*1e3, ay*1e-3,
                                     2*ax[:, None] - ay[None, :] + 1,
                                     unit_x="mm", unit_y="m",
                                     unit_values="K")
                r = p.get_evolution_on_sf(g, axe_x="x")
                got = sorted(zip(r.x.tolist(), r.y.tolist()))
                exp = sorted((q[0], 2*q[0] - q[1] + 1) for q in m.recs)
                expect(fm.close(np.array(got), np.array(exp)),
                       "evolution on a field in other units", (got, exp))
                return n
            pure("get_evolution_on_sf", on_sf)

            if len(set(vs)) == n:
                def on_tsf(p):
                    from IMTreatment import TemporalScalarFields
                    ax, ay = np.arange(-2., 4.), np.arange(-3., 5.)
                    for ut, ft in (("s", 1.), ("ms", 1e3)):
                        t = TemporalScalarFields()
                        for i, v in enumerate(sorted(vs)):
                            f = ScalarField()
                            f.import_from_arrays(
                                ax, ay, (2 + i)*ax[:, None] - ay[None, :],
                                unit_x="m", unit_y="mm", unit_values="K")
                            t.add_field(f, time=v*ft, unit_times=ut)
                        for axe, k in (("x", 0), ("y", 1), ("v", 2),
                                       (None, 2)):
                            r = p.get_evolution_on_tsf(t, axe_x=axe)
                            got = sorted(zip(r.x.tolist(), r.y.tolist()))
                            exp = sorted((q[k], (2 + sorted(vs).index(q[2])) *
                                          q[0] - q[1]) for q in m.recs)
                            expect(fm.close(np.array(got), np.array(exp)),
                                   "evolution on a series", (axe, got, exp))
                            expect(fm.same_unit(r.unit_y, U("K")) and
                                   fm.same_unit(r.unit_x, (m.ux, m.uy,
                                                           m.uv)[k]),
                                   "evolution units")
                        # a time the series does not have
                        t.remove_field(n - 1)
                        if n > 1:
                            refused(lambda: p.get_evolution_on_tsf(t), p)
                    return n
                pure("get_evolution_on_tsf", on_tsf)


# -- smoothing ---------------------------------------------------------------
def ref_filter(a, tos, size, mode):
    """direct sums over the neighbours"""
    n = len(a)
    if tos == "uniform":
        left = size//2
        ks = list(range(-left, size - left))
        w = [1./size]*size
    else:
        rad = int(4*size + .5)
        ks = list(range(-rad, rad + 1))
        w = [math.exp(-.5*(k/float(size))**2) for k in ks]
        w = [q/sum(w) for q in w]
    res = []
    for i in range(n):
        t = 0.
        for k, q in zip(ks, w):
            j = i + k
            if mode == "nearest":
                j = min(max(j, 0), n - 1)
            elif mode == "wrap":
                j %= n
            elif mode == "reflect":
                j %= 2*n
                j = j if j < n else 2*n - 1 - j
            elif not 0 <= j < n:
                continue
            t += q*a[j]
        res.append(t)
    return res


def smoothing(ck):
    """each coordinate is smoothed along the points, values included"""
    for ids in [p for n in (1, 2, 3) for p in itertools.permutations(
            range(5), n)] + BIG:
        for hasv, ori in itertools.product((True, False), repeat=2):
            m = cloud(ids, hasv, ori)
            for tos, size in (("uniform", None), ("uniform", 2),
                              ("uniform", 3), ("gaussian", None),
                              ("gaussian", 1), ("gaussian", 2)):
                for mode in (None, "reflect", "wrap", "constant"):
                    kw = {} if mode is None else dict(mode=mode)
                    if size is not None:
                        kw["size"] = size
                    sz = size or (3 if tos == "uniform" else 1)
                    cols = [ref_filter([r[k] for r in m.recs], tos, sz,
                                       mode or "nearest")
                            for k in range(3)]
                    e = m.new([(x, y, v, r[3]) for x, y, v, r in
                               zip(cols[0], cols[1], cols[2], m.recs)])

                    def fn():
                        p = m.real()
                        s = fm.snap(p)
                        r = p.smooth(tos, **kw)
                        compare(r, e)
                        expect(fm.snap(p) == s, "original modified")
                        p.smooth(tos, inplace=True, **kw)
                        return compare(p, e, " in place")
                    ck.case("smooth|" + tos, (ids, hasv, ori, size, mode),
                            fn)
    # low-pass: linear, keeps constants, acts on each coordinate alone
    for ids in BIG:
        for size in (None, .1, .25, .5):
            def low():
                kw = {} if size is None else dict(size=size)
                m = cloud(ids)
                r = m.real().smooth("lowpass", **kw)
                from scipy import signal
                b, a = signal.butter(2, size or .1)
                cols = [signal.filtfilt(b, a, [q[k] for q in m.recs])
                        for k in range(3)]
                e = m.new([(x, y, v, ORI[0]) for x, y, v in zip(*cols)])
                compare(r, e)
                p = m.real()
                p.smooth("lowpass", inplace=True, **kw)
                return compare(p, e, " in place")
            ck.case("smooth|lowpass", (len(ids), ids[0], size), low)
