"""C11: time series pair each element with its time through all operations."""
import itertools
import operator

import numpy as np
import unum

from mc.core import Mismatch, expect
from mc import fm, geo, ops, series
from mc.fm import U, ratio
from mc.series import S
from checks import c10

TIMES = [1.5, -2., 3., 0.25]
LONG = {"long": (0., .5, 12, "a3", "b2"),
        "tiny far": (512., 2.**-8, 12, "t4", "b2"),
        "huge": (-2.**16, 2.**14, 4, "l11", "f4")}


def elem(kind, axx="a3", axy="b3", n=0, mask=None, uv="m/s"):
    return fm.mk(kind, axx, axy, mask, uv=uv, k=n)


def mset(shape, pts):
    m = np.zeros(shape, bool)
    for p in pts:
        m[p] = True
    return m


def start(kind, n, masked, axx="a3", axy="a4", ut="s"):
    shape = (len(fm.AXES[axx]), len(fm.AXES[axy]))
    pats = [[], [(0, 0)], [(1, 2), (0, 1)], [(2, 3)]] if masked == 1 else \
        [[(0, j) for j in range(shape[1])] + [(1, 1)]]*4 if masked == 2 else \
        [[]]*4
    return S([(t, elem(kind, axx, axy, i, mset(shape, pats[i])))
              for i, t in enumerate(sorted(TIMES)[:n])], ut)


# -- model of the series operations ------------------------------------------
def m_remove(s, inds):
    inds = [i % len(s) for i in inds]
    return S([it for i, it in enumerate(s.items) if i not in inds], s.ut)


def m_crop(s, intervx=None, intervy=None, intervt=None, ind=False):
    its = s.items
    if intervt is not None:
        if ind:
            its = its[intervt[0]:intervt[1] + 1]
        else:
            its = [i for i in its if intervt[0] <= i[0] <= intervt[1]]
        if not its:
            return None
    s = S(its, s.ut)
    if intervx is None and intervy is None:
        return s
    return s.map(lambda m: geo.crop(m, intervx, intervy, ind))


def m_scale(s, scalex=None, scaley=None, scalev=None, scalet=None):
    r = s.map(lambda m: geo.scale(m, scalex, scaley, scalev))
    if scalet is None:
        return r
    if isinstance(scalet, tuple):
        q = s.ut*(scalet[0]*U(scalet[1]))
        f = q.asNumber()
        ut = q/f
    else:
        f, ut = scalet, s.ut
    return S([(t*f, m) for t, m in r.items], ut)


def m_unit(s, axe, unit):
    if axe == "time":
        r = ratio(s.ut, U(unit))
        return S([(t*r, m) for t, m in s.items], U(unit))
    return s.map(lambda m: geo.change_unit(m, axe, unit))


def cum(s):
    return np.all([m.mask for m in s.fields], axis=0)


def m_border(s, hard=False):
    c = cum(s)
    if c.all():
        return None
    if not c.any():
        return s.copy()
    shape = c.shape
    ix = [i for i in range(shape[0]) if not c[i].all()]
    iy = [j for j in range(shape[1]) if not c[:, j].all()]
    ix = list(range(ix[0], ix[-1] + 1))
    iy = list(range(iy[0], iy[-1] + 1))
    if hard:
        while True:
            q = c[np.ix_(ix, iy)]
            n = [q[0].sum(), q[-1].sum(), q[:, 0].sum(), q[:, -1].sum()]
            k = n.index(max(n))
            if n[k] == 0:
                break
            if k == 0:
                ix = ix[1:]
            elif k == 1:
                ix = ix[:-1]
            elif k == 2:
                iy = iy[1:]
            else:
                iy = iy[:-1]
            if not ix or not iy:
                return None
    return s.map(lambda m: geo.sub(m, ix, iy))


def m_add(s, m, t, u):
    if len(s) == 0:
        return S([(t, m)], U(u))
    if not (np.array_equal(m.ax, s.fields[0].ax) and
            np.array_equal(m.ay, s.fields[0].ay)) or \
            not fm.same_unit(m.ux, s.fields[0].ux) or \
            not fm.same_unit(m.uy, s.fields[0].uy):
        return None
    try:
        r = ratio(U(u), s.ut)
    except Exception:
        return None
    if any(abs(t*r - q) < 1e-9 for q in s.times):
        return None
    return S(s.items + [(t*r, m)], s.ut)


def m_reduce_t(s, n, mean):
    its = []
    for k in range(len(s)//n):
        blk = s.items[k*n:(k + 1)*n]
        if not mean:
            its.append(blk[0])
            continue
        m = blk[0][1].copy()
        m.comps = [sum(b[1].comps[c] for b in blk)/float(n)
                   for c in range(len(m.comps))]
        m = fm.M(m.ax, m.ay, m.comps, None, m.ux, m.uy, m.uv)
        its.append((sum(b[0] for b in blk)/float(n), m))
    return S(its, s.ut)


def interp(a, b, t):
    (t0, m0), (t1, m1) = a, b
    c = (t - t0)/(t1 - t0)
    return fm.M(m0.ax, m0.ay, [x*(1 - c) + y*c for x, y in
                               zip(m0.comps, m1.comps)], None, m0.ux, m0.uy,
                m0.uv)


def m_augment(s, n):
    its = []
    for a, b in zip(s.items[:-1], s.items[1:]):
        its.append(a)
        for k in range(1, n):
            t = a[0] + (b[0] - a[0])*k/float(n)
            its.append((t, interp(a, b, t)))
    return S(its + [s.items[-1]], s.ut)


def elementwise(s, fn):
    """apply a real field operation to every element separately"""
    its = []
    for t, m in s.items:
        f = m.real()
        r = fn(f)
        r = f if r is None else r
        o = fm.obs(r)
        its.append((t, fm.M(o.ax, o.ay, o.comps, o.mask, o.ux, o.uy, o.uv)))
    return S(its, s.ut)


class SOp(object):
    def __init__(self, label, model, real, inplace="both", args=""):
        self.label, self.model, self.real = label, model, real
        self.inplace, self.args = inplace, args

    def __repr__(self):
        return "{}({})".format(self.label, self.args)

    def run(self, ts, inplace):
        if self.inplace == "always":
            self.real(ts)
            return ts
        if self.inplace == "never":
            return self.real(ts)
        r = self.real(ts, inplace=inplace)
        return ts if inplace else r


def call(name, **kw):
    def f(ts, **k):
        q = {}
        for a, v in kw.items():
            if a.startswith("scale") and isinstance(v, tuple):
                v = v[0]*U(v[1])
            elif isinstance(v, list):
                v = list(v)
            q[a] = v
        q.update(k)
        return getattr(ts, name)(**q)
    return f


def alphabet(s, kind, full):
    """operations applicable to a non empty series"""
    O = []
    m = s.fields[0]
    tm = s.times

    def add(label, model, name=None, inplace="both", **kw):
        O.append(SOp(label, model, call(name or label, **kw), inplace,
                     ", ".join("{}={}".format(k, v) for k, v in
                               sorted(kw.items()))))
    # time
    tb = [tm[0] - 1] + [(a + b)/2. for a, b in zip(tm[:-1], tm[1:])] + tm + \
        [tm[-1] + 1]
    ivs = [[a, b] for a in sorted(tb) for b in sorted(tb) if a <= b]
    for iv in ivs if full else ivs[1::4]:
        kw = dict(intervt=iv)
        add("crop time", lambda q, kw=kw: m_crop(q, **kw), "crop", **kw)
    for a in range(len(s)):
        for b in range(a, len(s)):
            kw = dict(intervt=[a, b], ind=True)
            add("crop time ind", lambda q, kw=kw: m_crop(q, **kw), "crop",
                **kw)
    for v in (2., -1., (3., "s"), (-.5, "ms"), -.25, 4):
        add("scale time", lambda q, v=v: m_scale(q, scalet=v), "scale",
            scalet=v)
    for u in ("ms", "s", "h"):
        try:
            ratio(s.ut, U(u))
        except Exception:
            continue
        add("change_unit time", lambda q, u=u: m_unit(q, "time", u),
            "change_unit", "always", axe="time", new_unit=u)
    for n in range(1, min(len(s), 6)):
        if n > 1:
            for mean in (True, False):
                add("reduce_temporal_resolution",
                    lambda q, n=n, mean=mean: m_reduce_t(q, n, mean),
                    nmb_in_interval=n, mean=mean)
    for n in (1, 2, 3):
        if len(s) > 1:
            add("augment_temporal_resolution",
                lambda q, n=n: m_augment(q, n), fact=n)
    # removal
    for n in range(1, len(s) + 1 if len(s) < 6 else 3):
        for c in itertools.combinations(range(len(s)), n):
            if len(s) > 5 and sum(c) % 5:
                continue
            perms = itertools.permutations(c) if full else [c, c[::-1]]
            for p in perms:
                add("remove_fields", lambda q, p=p: m_remove(q, p),
                    inplace="always", fieldnumbers=list(p))
    for i in range(-1, len(s)):
        add("remove_fields", lambda q, i=i: m_remove(q, [i]),
            inplace="always", fieldnumbers=i)
    # additions
    for t, u in ((7., "s"), (-3., "s"), (100., "ms"), (.001, "h")):
        new = elem(kind, n=5)
        new = fm.M(m.ax, m.ay, [fm.vals(m.shape, 5 + i) for i in
                                range(len(m.comps))], None, m.ux, m.uy, m.uv)

        def radd(ts, new=new, t=t, u=u):
            f = new.real()
            ts.add_field(f, time=t, unit_times=u)
            # the series must not depend on the caller's field
            if kind == "s":
                f.values[:] = 1e5
            else:
                f.comp_x[:] = 1e5
        O.append(SOp("add_field", lambda q, new=new, t=t, u=u:
                     m_add(q, new, t, u), radd, "always", (t, u)))
    # space: same operations as on single fields
    fam = []
    for nm in ("crop", "extend", "scale", "rotate", "origin", "unit",
               "reduce", "mirror"):
        lst = [o for o in ops.FAMILIES[nm](m, False) if kind in o.kinds and
               "value" not in o.kw and o.label != "extend by lengths"]
        if not full:
            k = max(1, len(lst)//3)
            lst = lst[::k]
        elif nm == "crop":
            lst = lst[::5]
        elif nm == "mirror":
            lst = lst[::3]
        fam += lst
    for o in fam:
        kw = dict(o.kw)
        if o.name == "change_unit":
            kw["new_unit"] = kw.pop("unit")
        O.append(SOp(o.label, lambda q, o=o: q.map(o.apply_model),
                     call(o.name, **kw), o.inplace, repr(o)))
    if len(m.ax) > 2:
        kw = dict(intervx=[0, 1], intervt=[0, 0], ind=True)
        add("crop space and time", lambda q, kw=kw: m_crop(q, **kw), "crop",
            **kw)
    kw = dict(intervy=[float(m.ay[0]), float(m.ay[-1])],
              intervt=[tm[0], tm[-1]])
    add("crop space and time", lambda q, kw=kw: m_crop(q, **kw), "crop", **kw)
    kw = dict(scalex=-2., scaley=(3., "m"), scalev=-1., scalet=2.)
    add("scale all", lambda q, kw=kw: m_scale(q, **kw), "scale", **kw)
    for h in (False, True):
        add("crop_masked_border hard={}".format(h),
            lambda q, h=h: m_border(q, h), "crop_masked_border", hard=h)
    # element by element treatments
    for kw in (dict(tos="uniform", size=3), dict(tos="gaussian", size=1)):
        add("smooth", lambda q, kw=kw: elementwise(
            q, lambda f: f.smooth(inplace=True, **kw)), **kw)
    val = 2.5 if kind == "s" else [2.5, -1.]
    for kd, v in (("value", val), ("nearest", None), ("linear", None)):
        kw = dict(kind=kd)
        if v is not None:
            kw["value"] = v
        add("fill " + kd, lambda q, kw=kw: elementwise(
            q, lambda f: f.fill(inplace=True, **kw)), "fill", **kw)
    kw = dict(kind="value", value=val)
    add("fill crop", lambda q, kw=kw: None if m_border(q) is None else
        elementwise(m_border(q), lambda f: f.fill(inplace=True, **kw)),
        "fill", kind="value", value=val, crop=True)
    add("copy", lambda q: q, "copy", "never")
    return O


def arith(s, kind):
    res = []
    for nm, op in (("add", operator.add), ("sub", operator.sub)):
        res.append((nm + " number", lambda a, op=op: op(a, 2.5)))
        res.append((nm + " quantity", lambda a, op=op:
                    op(a, 300.*s.fields[0].uv)))
    for nm, op in (("mul", operator.mul), ("div", operator.truediv)):
        res.append((nm + " number", lambda a, op=op: op(a, -2.)))
        res.append((nm + " integer", lambda a, op=op: op(a, 3)))
        res.append((nm + " quantity", lambda a, op=op:
                    op(a, 4.*U("mm"))))
    res.append(("number mul", lambda a: 2.*a))
    res.append(("neg", lambda a: -a))
    res.append(("pow 2", lambda a: a**2))
    return res


def run(ck):
    construct(ck)
    refusals(ck)
    borders(ck)
    single(ck)
    arithmetic(ck)
    sequences(ck)
    equality(ck)
    points(ck)


def construct(ck):
    for kind in "sv":
        for n in range(0, 5):
            for order in itertools.permutations(range(n)):
                for units in (("s",)*4, ("s", "ms", "h", "s"),
                              ("ms", "s", "s", "ms")):
                    def fn():
                        from IMTreatment import (TemporalScalarFields,
                                                 TemporalVectorFields)
                        ts = TemporalScalarFields() if kind == "s" else \
                            TemporalVectorFields()
                        s = S([], "")
                        for k, i in enumerate(order):
                            m = elem(kind, n=i)
                            f = m.real()
                            s = m_add(s, m, TIMES[i], units[k])
                            ts.add_field(f, time=TIMES[i],
                                         unit_times=units[k] if k % 2 else
                                         U(units[k]))
                            expect(not fm.shares_memory(ts, f),
                                   "aliases the added field")
                            series.compare(ts, s)
                        if kind == "v" and n:
                            comps(ts, s)
                        return s.key()
                    ck.case("construct|" + kind, (order, units), fn)


def comps(ts, s):
    for nm, e in (("Vx", [m.comps[0] for m in s.fields]),
                  ("Vy", [m.comps[1] for m in s.fields]),
                  ("magnitude", [np.hypot(*m.comps) for m in s.fields])):
        expect(fm.close(getattr(ts, nm), np.array(e)), nm)
        q = getattr(ts, nm + "_as_sf")
        series.compare(q, S([(t, fm.M(m.ax, m.ay, [c], m.mask, m.ux, m.uy,
                                      m.uv)) for (t, m), c in
                             zip(s.items, e)], s.ut), what=" " + nm)


def refusals(ck):
    for kind in "sv":
        s = start(kind, 2, 0)
        m = s.fields[0]

        def bad(nm, fn):
            ck.case("add_field refused|" + kind, nm, lambda: one(fn))

        def one(fn):
            ts = s.real()
            before = fm.snap(ts)
            try:
                fn(ts)
            except Exception:
                expect(fm.snap(ts) == before, "modified by a refused call")
                return "refused"
            raise Mismatch("not refused", ts.times)
        n = 0
        for dx, dy in itertools.product((0, 1), (0, 1)):
            if dx or dy:
                f = fm.M(m.ax + .5*dx, m.ay + .5*dy, m.comps, None, m.ux,
                         m.uy, m.uv)
                bad("other axes {}{}".format(dx, dy),
                    lambda ts, f=f: ts.add_field(f.real(), 9., "s"))
                g = geo.sub(m, list(range(len(m.ax) - dx)),
                            list(range(len(m.ay) - dy)))
                bad("smaller {}{}".format(dx, dy),
                    lambda ts, g=g: ts.add_field(g.real(), 9., "s"))
        o = elem("v" if kind == "s" else "s", "a3", "a4")
        bad("other class", lambda ts: ts.add_field(o.real(), 9., "s"))
        bad("time unit of another dimension",
            lambda ts: ts.add_field(m.real(), 9., "m"))
        bad("not a field", lambda ts: ts.add_field(3., 9., "s"))
        bad("not a time", lambda ts: ts.add_field(m.real(), "9", "s"))
        bad("times of another length",
            lambda ts: setattr(ts, "times", [1., 2., 3.]))
        for iv in ([1e3, 2e3], [-1e3, -5e2]):
            bad("crop time outside", lambda ts, iv=iv: ts.crop(intervt=iv))
        # an interval without any time never gives a field of another time
        s3 = start(kind, 4, 0)
        tm = [t for t, _ in s3.items]
        for a, b in zip(tm[:-1], tm[1:]):
            def gap(inplace):
                ts = s3.real()
                iv = [a + (b - a)*.25, a + (b - a)*.75]
                try:
                    r = ts.crop(intervt=iv, inplace=inplace)
                except Exception:
                    return "refused"
                r = ts if inplace else r
                expect(len(r.fields) == 0 and len(r.times) == 0,
                       "fields of other times kept", list(r.times))
                return "empty"
            for i in (False, True):
                ck.case("crop between times|" + kind, (a, b, i),
                        lambda: gap(i))


def borders(ck):
    """masked borders of the series: every pattern of the points masked at
    all the times"""
    def pats(shape, mx):
        pts = list(itertools.product(range(shape[0]), range(shape[1])))
        for n in range(1, mx + 1):
            for c in itertools.combinations(pts, n):
                yield c
    todo = [("a3", "b3", 8 if ck.thorough else 4, "sv"), ("a2", "a3", 5, "sv"),
            ("a4", "a5", 2, "s"), ("u4", "a4", 2, "v")]
    for axx, axy, mx, kinds in todo:
        shape = (len(fm.AXES[axx]), len(fm.AXES[axy]))
        for kind in kinds:
            for c in pats(shape, mx):
                other = [p for p in itertools.product(range(shape[0]),
                                                      range(shape[1]))
                         if p not in c]
                s = S([(0., elem(kind, axx, axy, 0, mset(shape, c))),
                       (1., elem(kind, axx, axy, 1,
                                 mset(shape, list(c) + other[:1])))], "s")
                for h in (False, True):
                    exp = m_border(s, h)
                    if exp is None:
                        continue

                    def fn():
                        ts = s.real(kind)
                        if len(c) % 2:
                            r = ts.crop_masked_border(hard=h)
                        else:
                            ts.crop_masked_border(hard=h, inplace=True)
                            r = ts
                        return series.compare(r, exp)
                    ck.case("masked borders|{}|hard={}".format(kind, h),
                            (axx, axy, c, h), fn)


def check(ck, s, op, desc, kind, modes=(False, True), pre=""):
    exp = op.model(s)
    if exp is None:
        return None
    for inplace in modes:
        if op.inplace == "always" and not inplace:
            continue
        if op.inplace == "never" and inplace:
            continue

        def fn():
            ts = s.real(kind)
            before = fm.snap(ts)
            r = op.run(ts, inplace)
            expect(r is not None, "returned nothing")
            if not inplace:
                expect(fm.snap(ts) == before, "source modified")
                expect(not fm.shares_memory(r, ts), "shares data with source")
            return series.compare(r, exp, rtol=1e-7)
        ck.case("{}{}|{}|{}".format(pre, op.label, kind, "inplace" if inplace
                                    else "copy"), (desc, repr(op)), fn,
                state=(desc, repr(op), inplace))
    return exp


def single(ck):
    for kind in "sv":
        for n, masked in ((1, 0), (2, 1), (3, 1), (3, 2), (4, 0), (4, 2)):
            s = start(kind, n, masked)
            for op in alphabet(s, kind, ck.thorough or (n, masked) in
                               ((3, 1), (3, 2))):
                check(ck, s, op, (kind, n, masked), kind)
        # uneven grid, time unit ms
        s = start(kind, 3, 1, "u3", "u4", "ms")
        for op in alphabet(s, kind, False):
            check(ck, s, op, (kind, "uneven"), kind)
        # longer series, times and axes of other magnitudes
        for ln, (t0, dt, nt, axx, axy) in sorted(LONG.items()):
            its = []
            for i in range(nt):
                m = elem(kind, axx, axy, i % 5)
                if i % 3 == 1:
                    m.mask[i % m.shape[0], i % m.shape[1]] = True
                m.comps = [np.where(m.mask, np.nan, c + .125*i)
                           for c in m.comps]
                its.append((t0 + dt*(i + (i % 4)*.25), m))
            s = S(its, "s")
            for op in alphabet(s, kind, False):
                check(ck, s, op, (kind, ln), kind)

            def order():
                for key in (7, 5, 11):
                    ts = S([], "s").real(kind)
                    for k in range(nt):
                        t, m = its[(k*key + 3) % nt]
                        ts.add_field(m.real(), time=t, unit_times="s")
                    series.compare(ts, s)
                return s.key()
            if nt == 12:
                ck.case("construct long|" + kind, ln, order)
        for r in (1, 2, 3):
            for axx, axy in (("u3", "a4"), ("a3", "u4"), ("u4", "u3")):
                s = start(kind, 3, 0, axx, axy)

                def ev():
                    ts = s.real()
                    ts.make_evenly_spaced(res=r)
                    e = elementwise(s, lambda f: f.make_evenly_spaced(res=r))
                    return series.compare(ts, e)
                ck.case("make_evenly_spaced|" + kind, (axx, axy, r), ev)


def arithmetic(ck):
    for kind in "sv":
        for n, masked in ((1, 0), (3, 1), (4, 0)):
            s = start(kind, n, masked)
            for nm, fn in arith(s, kind):
                def f():
                    ts = s.real()
                    before = fm.snap(ts)
                    r = fn(ts)
                    expect(fm.snap(ts) == before, "operand modified")
                    expect(not fm.shares_memory(r, ts), "shares data")
                    return series.compare(r, elementwise(s, fn))
                ck.case("arithmetic {}|{}".format(nm, kind), (n, masked), f)
            g = elem(kind, "a3", "a4", 7, mset((3, 4), [(2, 0)]))
            g.comps = [np.where(np.abs(c) < 1e-9, .5, c) for c in g.comps]
            for nm, op in (("add", operator.add), ("sub", operator.sub),
                           ("div", operator.truediv)):
                if kind == "v" and nm == "div":
                    continue

                def f():
                    ts, o = s.real(), g.real()
                    before, bo = fm.snap(ts), fm.snap(o)
                    r = op(ts, o)
                    expect(fm.snap(ts) == before and fm.snap(o) == bo,
                           "operand modified")
                    return series.compare(r, elementwise(
                        s, lambda a: op(a, g.real())))
                ck.case("arithmetic {} field|{}".format(nm, kind),
                        (n, masked), f)
            s2 = S([(t, elem(kind, "a3", "a4", 4 + i,
                             mset((3, 4), [(i % 3, 3)] if masked else [])))
                    for i, t in enumerate(s.times)], s.ut)
            for nm, op in (("add", operator.add), ("sub", operator.sub),
                           ("mul", operator.mul), ("div", operator.truediv)):
                if kind == "v" and nm in ("mul", "div"):
                    continue

                def f():
                    a, b = s.real(), s2.real()
                    before, bo = fm.snap(a), fm.snap(b)
                    r = op(a, b)
                    expect(fm.snap(a) == before and fm.snap(b) == bo,
                           "operand modified")
                    expect(not fm.shares_memory(r, a) and
                           not fm.shares_memory(r, b), "shares data")
                    it = iter(s2.fields)
                    e = elementwise(s, lambda q: op(q, next(it).real()))
                    return series.compare(r, e)
                ck.case("arithmetic {} series|{}".format(nm, kind),
                        (n, masked), f)
            # series at other times are joined
            for shift, ut in ((10., "s"), (.125, "s"), (500., "ms")):
                for m2 in (1, 2, 3):
                    o = S([(t + shift, elem(kind, "a3", "a4", 4 + i))
                           for i, t in enumerate(s.times[:m2])], ut)

                    def f():
                        r = s.real() + o.real()
                        e = s
                        for t, m in o.items:
                            e = m_add(e, m, t, ut)
                        return series.compare(r, e)
                    ck.case("arithmetic join series|" + kind,
                            (n, masked, shift, ut, m2), f)
            for nm, op in (("mul", operator.mul), ("div", operator.truediv)):
                for w in ("times", "axes x", "axes y"):
                    if kind == "v":
                        continue

                    def f():
                        o = S([(t + (w == "times"), fm.M(
                            m.ax + (w == "axes x"), m.ay + (w == "axes y"),
                            m.comps, m.mask, m.ux, m.uy, m.uv))
                            for t, m in s.items], s.ut)
                        a, b = s.real(), o.real()
                        try:
                            r = op(a, b)
                        except Exception:
                            return "refused"
                        raise Mismatch("not refused")
                    ck.case("arithmetic {} series refused|{}".format(
                        nm, kind), (n, masked, w), f)


def short_alphabet(s, kind):
    pick = {}
    res = []
    want = {"crop time": (1,), "scale time": (1, 3), "change_unit time": (0,),
            "reduce_temporal_resolution": (0, 1),
            "augment_temporal_resolution": (1,), "remove_fields": (1, 5),
            "add_field": (0, 2), "crop": (1,), "extend": (1,), "scale": (1,),
            "rotate": (1,), "set_origin": (1,), "change_unit x": (0,),
            "change_unit y": (0,), "reduce_spatial_resolution even": (0,),
            "mirroring x": (0,), "mirroring y": (0,),
            "crop_masked_border hard=True": (0,), "scale all": (0,),
            "fill value": (0,), "copy": ()}
    for o in alphabet(s, kind, False):
        i = pick.get(o.label, 0)
        pick[o.label] = i + 1
        if i in want.get(o.label, ()):
            res.append(o)
    return res


def sequences(ck):
    """every sequence of operations, run on one single object"""
    depth = 3 if ck.thorough else 2
    for kind in "sv":
        for n, masked in ((3, 1), (2, 2)) if not ck.thorough else \
                ((3, 1), (2, 2), (1, 0)):
            s0 = start(kind, n, masked, "a3", "b3")
            frontier = [(s0, [])]
            seen = {s0.key()}
            for d in range(depth):
                nxt = []
                for s, hist in frontier:
                    if len(s) == 0:
                        continue
                    for op in short_alphabet(s, kind):
                        exp = op.model(s)
                        if exp is None or len(exp) > 6 or (
                                len(exp) and np.prod(exp.fields[0].shape) >
                                40):
                            continue
                        h = hist + [op]

                        def fn():
                            ts = s0.real()
                            for k, o in enumerate(h):
                                ts = o.run(ts, (k + len(h)) % 2 == 0 if
                                           o.inplace == "both" else True)
                                expect(ts is not None, "returned nothing")
                            return series.compare(ts, exp, rtol=1e-6)
                        ck.case("sequence|{}|{}".format(kind, op.label),
                                (kind, n, masked, h), fn,
                                state=("seq", exp.key()))
                        k = exp.key()
                        if k not in seen:
                            seen.add(k)
                            nxt.append((exp, h))
                frontier = nxt


def equality(ck):
    for kind in "sv":
        s = start(kind, 3, 1)

        def eq(a, b, want):
            r = a.real() == b.real()
            expect(bool(r) == want, "equality", (bool(r), want))
            return want
        ck.case("equality|" + kind, "same", lambda: eq(s, s, True))
        for nm, o in (("times", S([(t + 1, m) for t, m in s.items], s.ut)),
                      ("values", s.map(lambda m: geo.scale(m, scalev=2.))),
                      ("axes", s.map(lambda m: geo.set_origin(m, 1., 0))),
                      ("number", S(s.items[:2], s.ut)),
                      ("unit of time", S(s.items, "ms")),
                      ("unit of x", s.map(lambda m: fm.M(
                          m.ax, m.ay, m.comps, m.mask, "s", m.uy, m.uv)))):
            ck.case("equality|" + kind, nm, lambda o=o: eq(s, o, False))

        def units():
            ts = s.real()
            ts.unit_times = "ms"
            expect(fm.same_unit(ts.unit_times, U("ms")), "time unit not set")
            ts.times = [5, 6, 7]
            ts.scale(scalet=2., inplace=True)
            expect(fm.close(ts.times, [10, 12, 14]), "times not set")
            a = np.array([1., 2., 3.])
            ts.times = a
            a[:] = 0
            expect(fm.close(ts.times, [1, 2, 3]), "times alias the argument")
            return "ok"
        ck.case("attributes|" + kind, "unit_times and times", units)


# ---------------------------------------------------------------------------
# series of point clouds
# ---------------------------------------------------------------------------
class SP(object):
    def __init__(self, items, ut="s"):
        self.items = sorted(items, key=lambda i: i[0])
        self.ut = U(ut) if isinstance(ut, str) else ut

    @property
    def times(self):
        return [t for t, _ in self.items]

    def key(self):
        return (tuple(np.round(self.times, 6)), fm.ustr(self.ut),
                tuple(c.key() for _, c in self.items))

    def real(self):
        from IMTreatment import TemporalPoints
        tp = TemporalPoints()
        for t, c in self.items:
            tp.add_pts(c.real(), time=t, unit_times=self.ut)
        return tp

    def map(self, fn):
        return SP([(t, fn(c)) for t, c in self.items], self.ut)


def pcompare(tp, s, what=""):
    expect(len(tp) == len(s.items) == len(tp.point_sets),
           "number of clouds" + what)
    expect(fm.close(np.array(tp.times, float), s.times), "times" + what,
           lambda: (np.array(tp.times).tolist(), s.times))
    if not s.items:
        return s.key()
    expect(fm.same_unit(tp.unit_times, s.ut), "time unit" + what,
           lambda: (str(tp.unit_times), str(s.ut)))
    for i, (t, c) in enumerate(s.items):
        c10.compare(tp.point_sets[i], c, what=" of a cloud" + what)
    expect(fm.same_unit(tp.unit_x, s.items[0][1].ux), "series x unit" + what,
           lambda: (str(tp.unit_x), str(s.items[0][1].ux)))
    expect(fm.same_unit(tp.unit_y, s.items[0][1].uy), "series y unit" + what)
    got = list(tp)
    expect(len(got) == len(s.items) and fm.close([g[0] for g in got],
                                                 s.times) and
           all(g[1] is p for g, p in zip(got, tp.point_sets)), "iteration")
    return s.key()


def pstart(n, hasv=True):
    ids = [(0, 1, 2), (3,), (1, 4, 5), (2, 3)]
    return SP([(t, c10.cloud(ids[i], hasv)) for i, t in
               enumerate(sorted(TIMES)[:n])])


def c_scale(c, x=None, y=None, v=None):
    def one(u, s):
        if s is None:
            return 1., u
        if isinstance(s, tuple):
            q = u*(s[0]*U(s[1]))
            return q.asNumber(), q/q.asNumber()
        return s, u
    fx, ux = one(c.ux, x)
    fy, uy = one(c.uy, y)
    fv, uv = one(c.uv, v)
    return c.new([(r[0]*fx, r[1]*fy, r[2]*fv, r[3]) for r in c.recs],
                 ux=ux, uy=uy, uv=uv)


def p_alphabet(s):
    O = []
    tm = s.times

    def add(label, model, name=None, inplace="both", **kw):
        O.append(SOp(label, model, call(name or label, **kw), inplace,
                     ", ".join("{}={}".format(k, v) for k, v in
                               sorted(kw.items()))))
    tb = [tm[0] - 1] + [(a + b)/2. for a, b in zip(tm[:-1], tm[1:])] + tm + \
        [tm[-1] + 1]

    def pcrop(q, x=None, y=None, v=None, t=None, ind=False):
        its = q.items
        if t is not None:
            its = its[t[0]:t[1] + 1] if ind else \
                [i for i in its if t[0] <= i[0] <= t[1]]
            if not its:
                return None

        def one(c):
            return c.new([r for r in c.recs
                          if (x is None or x[0] <= r[0] <= x[1]) and
                          (y is None or y[0] <= r[1] <= y[1]) and
                          (v is None or not c.hasv or
                           v[0] <= r[2] <= v[1])])
        return SP(its, q.ut).map(one)
    for a in sorted(tb):
        for b in sorted(tb):
            if a <= b:
                add("crop time", lambda q, t=[a, b]: pcrop(q, t=t), "crop",
                    intervt=[a, b])
    for a in range(len(tm)):
        for b in range(a, len(tm)):
            add("crop time ind", lambda q, t=[a, b]: pcrop(q, t=t, ind=True),
                "crop", intervt=[a, b], ind=True)
    add("crop x", lambda q: pcrop(q, x=[-1., 1.]), "crop", intervx=[-1., 1.])
    add("crop y", lambda q: pcrop(q, y=[-2., 0.]), "crop", intervy=[-2., 0.])
    add("crop v", lambda q: pcrop(q, v=[-1., 2.]), "crop", intervv=[-1., 2.])
    add("crop x and time", lambda q: pcrop(q, x=[0., 3.], t=[tm[0], tm[0]]),
        "crop", intervx=[0., 3.], intervt=[tm[0], tm[0]])
    for v in (2., -1., (3., "s"), (-.5, "ms")):
        def sc(q, v=v):
            if isinstance(v, tuple):
                u = q.ut*(v[0]*U(v[1]))
                f = u.asNumber()
                return SP([(t*f, c) for t, c in q.items], u/f)
            return SP([(t*v, c) for t, c in q.items], q.ut)
        add("scale time", sc, "scale", scalet=v)
    for kw in (dict(x=2.), dict(y=(-3., "m")), dict(v=-2.), dict(
            x=(2., "mm"), y=.5, v=(2., "s"))):
        add("scale", lambda q, kw=kw: q.map(lambda c: c_scale(c, **kw)),
            "scale", **{"scale" + k: v for k, v in kw.items()})
    def cut(q):
        try:
            r = ratio(q.ut, U("ms"))
        except unum.IncompatibleUnitsError:
            return None
        return SP([(t*r, c) for t, c in q.items], "ms")
    add("change_unit time", cut, "change_unit", "always", axe="time", new_unit="ms")
    for axe, k, new in (("x", "ux", "mm"), ("y", "uy", "m"),
                        ("values", "uv", "ms")):
        def cu(q, k=k, new=new, axe=axe):
            def one(c):
                r = ratio(getattr(c, k), U(new))
                j = {"x": 0, "y": 1, "values": 2}[axe]
                return c.new([tuple(w*r if i == j else w for i, w in
                                    enumerate(z)) for z in c.recs],
                             **{k: U(new)})
            try:
                return q.map(one)
            except unum.IncompatibleUnitsError:
                return None
        add("change_unit " + axe, cu, "change_unit", "always", axe=axe,
            new_unit=new)
    for n in range(1, len(tm) + 1):
        for p in itertools.permutations(range(len(tm)), n):
            add("remove_pts", lambda q, p=p: SP(
                [i for k, i in enumerate(q.items) if k not in p], q.ut),
                inplace="always", indice=list(p))
    add("remove_pts", lambda q: SP(q.items[1:], q.ut), inplace="always",
        indice=0)
    for t, u in ((7., "s"), (-3., "s"), (100., "ms")):
        def ad(q, t=t, u=u):
            try:
                r = ratio(U(u), q.ut)
            except Exception:
                return None
            c = c10.cloud((5, 0))
            if q.items:
                # positions in the units of the series
                o = q.items[0][1]
                try:
                    fx, fy = ratio(c.ux, o.ux), ratio(c.uy, o.uy)
                except unum.IncompatibleUnitsError:
                    return None
                c = c.new([(z[0]*fx, z[1]*fy) + z[2:] for z in c.recs],
                          ux=o.ux, uy=o.uy)
            return SP(q.items + [(t*r, c)], q.ut)

        def rad(tp, t=t, u=u):
            tp.add_pts(c10.cloud((5, 0)).real(), time=t, unit_times=u)
        O.append(SOp("add_pts", ad, rad, "always", (t, u)))
    return O


def points(ck):
    for n in range(5):
        for order in itertools.permutations(range(n)):
            for units in (("s",)*4, ("s", "ms", "h", "s"),
                          ("ms", "s", "s", "ms")):
                def fn():
                    from IMTreatment import TemporalPoints
                    tp = TemporalPoints()
                    its, ut = [], None
                    for k, i in enumerate(order):
                        c = c10.cloud((i, (i + 1) % 5))
                        ut = ut if ut is not None else U(units[k])
                        its.append((TIMES[i]*ratio(U(units[k]), ut), c))
                        tp.add_pts(c.real(), time=TIMES[i],
                                   unit_times=units[k] if k % 2 else
                                   U(units[k]))
                        pcompare(tp, SP(its, ut))
                    return SP(its, "s" if ut is None else ut).key()
                ck.case("points construct", (order, units), fn)
    for n in (1, 2, 3, 4):
        for hasv in (True, False):
            s = pstart(n, hasv)
            for op in p_alphabet(s):
                if not hasv and ("values" in op.label or op.label == "add_pts"
                                 or "scalev" in op.args):
                    continue
                if n == 4 and op.label == "remove_pts" and not hasv:
                    continue
                p_check(ck, s, op, (n, hasv))
    # sequences
    depth = 3 if ck.thorough else 2
    s0 = pstart(3)
    frontier, seen = [(s0, [])], {s0.key()}
    for d in range(depth):
        nxt = []
        for s, hist in frontier:
            if not s.items:
                continue
            cnt = {}
            for op in p_alphabet(s):
                cnt[op.label] = cnt.get(op.label, 0) + 1
                if cnt[op.label] > 2:
                    continue
                exp = op.model(s)
                if exp is None:
                    continue
                h = hist + [op]

                def fn():
                    tp = s0.real()
                    for k, o in enumerate(h):
                        tp = o.run(tp, (k + len(h)) % 2 == 0)
                        expect(tp is not None, "returned nothing")
                    return pcompare(tp, exp)
                ck.case("points sequence|" + op.label, h, fn,
                        state=("pseq", exp.key()))
                if exp.key() not in seen:
                    seen.add(exp.key())
                    nxt.append((exp, h))
        frontier = nxt


def p_check(ck, s, op, desc):
    exp = op.model(s)
    if exp is None:
        return
    for inplace in (False, True):
        if op.inplace == "always" and not inplace:
            continue

        def fn():
            tp = s.real()
            before = fm.snap(tp)
            r = op.run(tp, inplace)
            expect(r is not None, "returned nothing")
            if not inplace:
                expect(fm.snap(tp) == before, "source modified")
                expect(not fm.shares_memory(r, tp), "shares data with source")
            return pcompare(r, exp)
        ck.case("points {}|{}|{}".format(
            op.label, "values" if desc[1] else "no values",
            "inplace" if inplace else "copy"), (desc, repr(op)), fn,
            state=(desc, repr(op), inplace))
