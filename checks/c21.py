"""C21: collections of critical points and their trajectories."""
import itertools

import numpy as np

from mc import fm
from mc.core import expect

TYPES = ("foc", "foc_c", "node_i", "node_o", "sadd")
EYE = [[1., 0.], [0., 1.]]


class Col(object):
    """reference model: times, and positions by type and time"""

    def __init__(self, ux="m", uy="m", ut="s"):
        self.u = [fm.U(ux), fm.U(uy), fm.U(ut)]
        self.times = []
        self.pts = {t: [] for t in TYPES}
        self.trajs = None

    def copy(self):
        new = Col()
        new.u = list(self.u)
        new.times = list(self.times)
        new.pts = {t: [list(p) for p in self.pts[t]] for t in TYPES}
        new.trajs = None if self.trajs is None else {
            t: [list(tr) for tr in self.trajs[t]] for t in TYPES}
        return new

    def add(self, time, **pts):
        self.times.append(time)
        for t in TYPES:
            self.pts[t].append([tuple(p) for p in pts.get(t, [])])
        o = sorted(range(len(self.times)), key=lambda i: self.times[i])
        self.times = [self.times[i] for i in o]
        for t in TYPES:
            self.pts[t] = [self.pts[t][i] for i in o]
        self.trajs = None

    def keep(self, inds):
        self.times = [self.times[i] for i in inds]
        for t in TYPES:
            self.pts[t] = [self.pts[t][i] for i in inds]

    def map(self, f):
        """apply f(x, y, t) to every point"""
        for t in TYPES:
            self.pts[t] = [[f(x, y, tm)[:2] for x, y in p]
                           for p, tm in zip(self.pts[t], self.times)]
        if self.trajs is not None:
            self.trajs = {t: [[f(*q) for q in tr] for tr in v]
                          for t, v in self.trajs.items()}
        self.times = [f(0., 0., tm)[2] for tm in self.times]

    def real(self):
        from IMTreatment.vortex_detection import CritPoints
        cp = CritPoints(unit_time=self.u[2])
        for i, tm in enumerate(self.times):
            cp.add_point(time=tm, **{t: mkpts(self, t, self.pts[t][i], tm)
                                     for t in TYPES})
        return cp


def mkpts(col, typ, xy, tm):
    from IMTreatment import Points, OrientedPoints
    kw = dict(unit_x=col.u[0], unit_y=col.u[1], unit_v=col.u[2])
    if typ == "sadd" and len(xy):
        return OrientedPoints(xy=[list(p) for p in xy],
                              orientations=[EYE]*len(xy), v=[tm]*len(xy),
                              **kw)
    return Points(xy=[list(p) for p in xy] if len(xy)
                  else np.empty((0, 2)), v=[tm]*len(xy), **kw)


def near(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12)


def compare(cp, m, trajs=True):
    for u, w, n in zip((cp.unit_x, cp.unit_y, cp.unit_time), m.u,
                       ("x", "y", "time")):
        expect(fm.same_unit(u, w), "unit of the collection",
               lambda: (n, str(u), str(w)))
    expect(near(cp.times, m.times), "times",
           lambda: (list(cp.times), m.times))
    for t in TYPES:
        arr = getattr(cp, t)
        expect(len(arr) == len(m.times), "number of times",
               lambda: (t, len(arr), len(m.times)))
        for i, (p, q) in enumerate(zip(arr, m.pts[t])):
            expect(near(sorted(map(tuple, p.xy)), sorted(q))
                   or not len(q) and not len(p.xy), "points",
                   lambda: (t, m.times[i], p.xy.tolist(), q))
            if len(q):
                for u, w in zip((p.unit_x, p.unit_y, p.unit_v), m.u):
                    expect(fm.same_unit(u, w), "unit of the points",
                           lambda: (t, str(u), str(w)))
                expect(near(p.v, [m.times[i]]*len(q)), "time of the points",
                       lambda: (t, list(p.v), m.times[i]))
    if not trajs:
        return
    for t in TYPES:
        tr = getattr(cp, t + "_traj")
        if m.trajs is None:
            expect(tr is None, "obsolete trajectories kept",
                   lambda: (t, [r.xy.tolist() for r in tr]))
            continue
        expect(tr is not None, "trajectories lost", lambda: t)
        got = sorted(rows(r) for r in tr)
        want = sorted(m.trajs[t])
        expect(len(got) == len(want) and all(
            near(a, b) for a, b in zip(got, want)), "trajectories",
            lambda: (t, got, want))
        for r in tr:
            for u, w in zip((r.unit_x, r.unit_y, r.unit_v), m.u):
                expect(fm.same_unit(u, w), "unit of a trajectory",
                       lambda: (t, str(u), str(w)))


def rows(r):
    return [(float(x), float(y), float(v)) for (x, y), v in zip(r.xy, r.v)]


def check_trajs(cp, m, eps):
    """the trajectories are a greedy matching of successive points"""
    out = {}
    for t in TYPES:
        trs = getattr(cp, t + "_traj")
        expect(trs is not None, "no trajectories", lambda: t)
        trs = [rows(r) for r in trs]
        out[t] = trs
        al = sorted(q for tr in trs for q in tr)
        want = sorted((x, y, tm) for p, tm in zip(m.pts[t], m.times)
                      for x, y in p)
        expect(len(al) == len(want) and near(al, want) or not al and not want,
               "points of the trajectories", lambda: (t, al, want))
        lens = [len(tr) for tr in trs]
        expect(lens == sorted(lens, reverse=True),
               "trajectories not sorted by length", lambda: lens)
        links = {k: [] for k in range(len(m.times) - 1)}
        for tr in trs:
            ks = [min(range(len(m.times)), key=lambda k: abs(
                m.times[k] - q[2])) for q in tr]
            expect(ks == list(range(ks[0], ks[0] + len(ks))),
                   "times of a trajectory", lambda: (t, tr))
            for k, a, b in zip(ks, tr, tr[1:]):
                expect(dist(a, b) <= eps*(1 + 1e-9) + 1e-12,
                       "points too far linked", lambda: (t, a, b, eps))
                links[k].append((a, b))
        for k, ln in links.items():
            for a in m.pts[t][k]:
                for b in m.pts[t][k + 1]:
                    d = dist(a, b)
                    if d > eps*(1 - 1e-9):
                        continue
                    ok = any((near(la[:2], a) or near(lb[:2], b))
                             and dist(la, lb) <= d*(1 + 1e-9) + 1e-12
                             for la, lb in ln)
                    expect(ok, "closest points not linked",
                           lambda: (t, m.times[k], a, b, eps, ln))
    return out


def dist(a, b):
    return ((a[0] - b[0])**2 + (a[1] - b[1])**2)**.5


def run(ck):
    trajectories(ck)
    operations(ck)
    sums(ck)
    breaking(ck)
    changes(ck)
    topo(ck)
    refine(ck)
    density(ck)
    means(ck)
    averages(ck)
    reconstructed(ck)
    equality(ck)
    merged(ck)
    turning(ck)


# -- trajectories ------------------------------------------------------------

def trajectories(ck):
    pos = [(0., 0.), (.5, 0.), (0., 2.), (3., 0.)]
    subs = [s for n in range(4) for s in itertools.combinations(pos, n)]
    nt = 3
    for combo in itertools.product(subs, repeat=nt):
        if not ck.thorough and sum(map(len, combo)) > 6:
            continue
        for eps in (None, .25, .5, 2., 2.5):
            def fn():
                m = Col()
                for k, s in enumerate(combo):
                    m.add(.5*k, foc=s, sadd=[(y, x) for x, y in s[:1]])
                cp = m.real()
                cp.compute_traj(epsilon=eps)
                m.trajs = check_trajs(cp, m, np.inf if eps is None else eps)
                compare(cp, m)
            ck.case("trajectories|%s" % eps, "foc at %s" % (combo,), fn,
                    state=("traj", combo, eps))
    # epsilon with a unit
    for ux, ue, d in itertools.product(("m", "mm"), ("m", "mm"),
                                       (.5, 1., 3.)):
        f = fm.ratio(fm.U(ue), fm.U(ux))

        def fn():
            m = Col(ux, ux)
            for k in range(3):
                m.add(float(k), foc=[(k*1.*f, 0.), (0., k*3.*f)])
            cp = m.real()
            cp.compute_traj(epsilon=d*fm.U(ue))
            m.trajs = check_trajs(cp, m, d*f)
            compare(cp, m)
        ck.case("trajectories|unit", "epsilon %s %s, points in %s" % (
            d, ue, ux), fn, state=("trajunit", ux, ue, d))


# -- sequences of operations -------------------------------------------------

def starts():
    a = Col("", "", "s")
    b = Col("mm", "m", "ms")
    b.add(1., foc=[(1., 2.)], sadd=[(0., 1.), (4., 1.)])
    c = Col()
    c.add(2., foc=[(1., 2.), (3., .5)], node_o=[(5., 5.)])
    c.add(0., foc=[(1.25, 2.), (4., 4.)], sadd=[(2., 2.)])
    c.add(1., foc=[(1.5, 2.)], foc_c=[(0., 0.)], sadd=[(2., 2.25), (9., 9.)])
    d = Col("m", "mm", "s")
    for k in range(4):
        d.add(.25*k, foc=[(1. + .25*k, 2.)], node_i=[(k*2., 8. - k)],
              sadd=[(6., 1. + .5*k)], foc_c=[(3., 3.)]*(k % 2))
    e = Col()
    e.add(1., foc=[])
    e.add(2., sadd=[])
    return [("empty", a), ("one time", b), ("three times", c),
            ("four times", d), ("no points", e)]


def refuse(cp, f):
    before = snap(cp)
    try:
        f()
    except Exception:
        expect(snap(cp) == before, "modified by a refused call")
    else:
        expect(False, "not refused")


def snap(cp):
    out = [repr(list(cp.times)), str(cp.unit_x), str(cp.unit_y),
           str(cp.unit_time)]
    for t in TYPES:
        out.append([(p.xy.tolist(), list(p.v), str(p.unit_x), str(p.unit_y),
                     str(p.unit_v)) for p in getattr(cp, t)])
        tr = getattr(cp, t + "_traj")
        out.append(None if tr is None else [
            (rows(r), str(r.unit_x), str(r.unit_v)) for r in tr])
    return repr(out)


def inout(call):
    """operation with 'inplace': both forms, the source left alone"""
    def op(cp, m, model, inplace):
        before = snap(cp)
        if inplace:
            r = call(cp, inplace=True)
            expect(r is None, "result of an in place operation")
            new = cp
        else:
            new = call(cp, inplace=False)
            expect(new is not None and new is not cp,
                   "no result of an operation on a copy")
            expect(snap(cp) == before, "source modified")
        model(m)
        return new
    return op


def operations_list(ck):
    ops = []

    def add(name, f):
        ops.append((name, f))

    def addpt(cp, m, tm=7.5, **pts):
        real = {t: mkpts(m, t, p, tm) for t, p in pts.items()}
        if tm in m.times:
            refuse(cp, lambda: cp.add_point(time=tm, **real))
            return cp
        first = not m.times
        if first and not pts:
            m.u[0] = m.u[1] = fm.U("")
        cp.add_point(time=tm, **real)
        for t, p in real.items():
            # the collection has its own copy
            if len(p):
                p.xy[:] = 99.
        m.add(tm, **pts)
        return cp

    add("add foc", lambda cp, m: addpt(cp, m, 7.5, foc=[(2., 2.)]))
    add("add sadd early", lambda cp, m: addpt(
        cp, m, -1., sadd=[(1., 1.), (0., 3.)], node_i=[(2., 2.)]))
    add("add at 1", lambda cp, m: addpt(
        cp, m, 1., foc_c=[(2.5, 2.)], node_o=[(2., 1.), (3., 2.)]))

    def badunit(cp, m):
        from IMTreatment import Points
        if not m.times:
            return cp
        refuse(cp, lambda: cp.add_point(
            foc=Points([[1., 1.]], v=[3.], unit_x="kg", unit_y="kg",
                       unit_v="s"), time=3.25))
        return cp
    add("add other unit", badunit)

    def remove(cp, m, tm=None, ind=None):
        if tm is not None and tm not in m.times:
            refuse(cp, lambda: cp.remove_point(time=tm))
            return cp
        if ind is not None and not -len(m.times) <= ind < len(m.times):
            refuse(cp, lambda: cp.remove_point(indice=ind))
            return cp
        if tm is not None:
            cp.remove_point(time=tm)
            k = m.times.index(tm)
        else:
            cp.remove_point(indice=ind)
            k = ind % len(m.times)
        m.keep([i for i in range(len(m.times)) if i != k])
        m.trajs = None
        return cp
    add("remove time 1", lambda cp, m: remove(cp, m, tm=1.))
    add("remove first", lambda cp, m: remove(cp, m, ind=0))
    add("remove last", lambda cp, m: remove(cp, m, ind=-1))
    add("remove third", lambda cp, m: remove(cp, m, ind=2))
    add("remove nothing", lambda cp, m: (refuse(cp, cp.remove_point), cp)[1])

    for inplace in (True, False):
        nm = " in place" if inplace else ""
        for name, ix, iy in (("x", [1., 3.], None), ("y", None, [1.5, 2.25]),
                             ("xy", [0., 4.], [2., 9.]),
                             ("all away", [100., 101.], None)):
            def crop(cp, m, ix=ix, iy=iy, inplace=inplace):
                def model(m):
                    for t in TYPES:
                        m.pts[t] = [[(x, y) for x, y in p
                                     if (ix is None or ix[0] <= x <= ix[1])
                                     and (iy is None
                                          or iy[0] <= y <= iy[1])]
                                    for p in m.pts[t]]
                    m.trajs = None
                return inout(lambda c, inplace: c.crop(
                    intervx=ix, intervy=iy, inplace=inplace))(
                        cp, m, model, inplace)
            add("crop %s%s" % (name, nm), crop)
        for name, it, ind in (("t", [1., 2.], False), ("t", [.25, .75], False),
                              ("t", [0., 99.], False), ("ind", [1, 3], True),
                              ("ind", [0, 1], True)):
            def crop(cp, m, it=it, ind=ind, inplace=inplace):
                def model(m):
                    if ind:
                        keep = list(range(len(m.times)))[it[0]:it[1]]
                    else:
                        keep = [i for i, v in enumerate(m.times)
                                if it[0] <= v <= it[1]]
                    kept = [m.times[i] for i in keep]
                    m.keep(keep)
                    if m.trajs is not None:
                        for t in TYPES:
                            trs = [[q for q in tr if q[2] in kept]
                                   for tr in m.trajs[t]]
                            m.trajs[t] = [tr for tr in trs if tr]
                return inout(lambda c, inplace: c.crop(
                    intervt=it, ind=ind, inplace=inplace))(
                        cp, m, model, inplace)
            add("crop %s %s%s" % (name, it, nm), crop)

        def crop(cp, m, inplace=inplace):
            def model(m):
                m.keep([i for i, v in enumerate(m.times) if .5 <= v <= 2.])
                for t in TYPES:
                    m.pts[t] = [[q for q in p if 1. <= q[0] <= 4.]
                                for p in m.pts[t]]
                m.trajs = None
            return inout(lambda c, inplace: c.crop(
                intervx=[1., 4.], intervt=[.5, 2.], inplace=inplace))(
                    cp, m, model, inplace)
        add("crop xt%s" % nm, crop)
        for name, kw in (("x", dict(scalex=2.)), ("y", dict(scaley=-.5)),
                         ("v", dict(scalev=4.)),
                         ("unit", dict(scalex=("kg", 2.))),
                         ("unit t", dict(scalev=("m", .5), scaley=("s", 1.)))
                         ):
            def scale(cp, m, kw=kw, inplace=inplace):
                fx = [1., 1., 1.]
                real = {}

                def model(m):
                    for i, k in enumerate(("scalex", "scaley", "scalev")):
                        v = kw.get(k, 1.)
                        if isinstance(v, tuple):
                            m.u[i] = m.u[i]*fm.U(v[0])
                            v = v[1]
                        fx[i] = v
                    m.map(lambda x, y, t: (x*fx[0], y*fx[1], t*fx[2]))
                for k, v in kw.items():
                    real[k] = v[1]*fm.U(v[0]) if isinstance(v, tuple) else v
                return inout(lambda c, inplace: c.scale(
                    inplace=inplace, **real))(cp, m, model, inplace)
            add("scale %s%s" % (name, nm), scale)

    for kw in (dict(x=1.5), dict(y=-2.), dict(x=1., y=2.), {}):
        def origin(cp, m, kw=kw):
            cp.set_origin(**kw)
            m.map(lambda x, y, t: (x - kw.get("x", 0.), y - kw.get("y", 0.),
                                   t))
            return cp
        add("origin %s" % kw, origin)

    for i, axe, pair in ((0, "x", ("mm", "m")), (1, "y", ("km", "m")),
                         (2, "time", ("ms", "s"))):
        def unit(cp, m, i=i, axe=axe, pair=pair):
            try:
                new = pair[0] if not fm.same_unit(
                    m.u[i], fm.U(pair[0])) else pair[1]
                f = fm.ratio(m.u[i], fm.U(new))
            except Exception:
                return cp
            cp.change_unit(axe, new)
            fx = [1., 1., 1.]
            fx[i] = f
            m.map(lambda x, y, t: (x*fx[0], y*fx[1], t*fx[2]))
            m.u[i] = fm.U(new)
            return cp
        add("unit of " + axe, unit)
    add("unit wrong", lambda cp, m: (refuse(
        cp, lambda: cp.change_unit("z", "m")), cp)[1])

    def copied(cp, m):
        new = cp.copy()
        expect(new is not cp and new == cp, "copy differs")
        before = snap(cp)
        new.set_origin(x=1., y=1.)
        new.set_origin(x=-1., y=-1.)
        if len(new.times):
            new.remove_point(indice=0)
        expect(snap(cp) == before, "copy shares data")
        return cp.copy()
    add("copy", copied)

    for eps in (None, 1.):
        def traj(cp, m, eps=eps):
            cp.compute_traj(epsilon=eps)
            m.trajs = check_trajs(cp, m, np.inf if eps is None else eps)
            return cp
        add("trajectories %s" % eps, traj)

    for n in (2, 3):
        def clean(cp, m, n=n):
            if m.trajs is None:
                refuse(cp, lambda: cp.clean_traj(n))
                return cp
            cp.clean_traj(n)
            for t in TYPES:
                m.trajs[t] = [tr for tr in m.trajs[t] if len(tr) >= n]
                m.pts[t] = [[q[:2] for tr in m.trajs[t] for q in tr
                             if q[2] == tm] for tm in m.times]
            return cp
        add("clean %d" % n, clean)
    return ops


def operations(ck):
    ops = operations_list(ck)
    depth = 3 if ck.thorough else 2
    for sname, start in starts():
        for n in range(1, depth + 1):
            for seq in itertools.product(range(len(ops)), repeat=n):
                if n == 3 and not any(ops[k][0].startswith("traj")
                                      for k in seq):
                    continue
                names = [ops[k][0] for k in seq]

                def fn():
                    m = start.copy()
                    cp = m.real()
                    compare(cp, m)
                    for k in seq:
                        cp = ops[k][1](cp, m)
                        compare(cp, m)
                    expect(cp == cp.copy(), "not equal to its copy")
                ck.case("ops|%s|%s" % (sname, "|".join(names[-1:])),
                        "%s: %s" % (sname, names), fn,
                        state=("ops", sname, seq))


def sums(ck):
    others = starts()
    for (an, a), (bn, b), ta in itertools.product(others, others,
                                                  (False, True)):
        for shift in (0., 20.):
            def fn():
                ma, mb = a.copy(), b.copy()
                mb.map(lambda x, y, t: (x, y, t + shift))
                ca, cb = ma.real(), mb.real()
                if ta:
                    ca.compute_traj()
                sa, sb = snap(ca), snap(cb)
                bad = (ma.times and mb.times
                       and (set(ma.times) & set(mb.times)
                            or not all(map(fm.same_unit, ma.u, mb.u))))
                if bad:
                    try:
                        ca + cb
                    except Exception:
                        pass
                    else:
                        expect(False, "sum of incompatible collections")
                else:
                    r = ca + cb
                    if not mb.times:
                        m = ma
                    elif not ma.times:
                        m = mb
                    else:
                        m = ma.copy()
                        for i, tm in enumerate(mb.times):
                            m.add(tm, **{t: mb.pts[t][i] for t in TYPES})
                    compare(r, m, trajs=False)
                    r.set_origin(x=5., y=5.)
                expect(snap(ca) == sa and snap(cb) == sb,
                       "operands modified or shared")
            ck.case("sum", "%s + %s (+%g)%s" % (an, bn, shift,
                                                " with trajectories"*ta),
                    fn, state=("sum", an, bn, shift, ta))


def breaking(ck):
    """broken trajectories: contiguous pieces that cover everything"""
    for n in (1, 2, 3, 5, 6):
        for xv in itertools.product((0., 1., 2.), repeat=min(n, 5)):
            xv = xv + (1.,)*(n - len(xv))
            for brk, swap in ((dict(x=.5), False), (dict(x=1.25), False),
                              (dict(x=9.), False), (dict(y=1.5), False),
                              (dict(y=-3.), False), (dict(y=.5), True),
                              (dict(y=1.25), True)):
                def fn():
                    m = Col()
                    for k in range(n):
                        q = (xv[k], float(k))
                        m.add(k*.5, foc=[q[::-1] if swap else q])
                    cp = m.real()
                    cp.compute_traj()
                    before = snap(cp)
                    r = cp.break_trajectories(inplace=False, **brk)
                    expect(snap(cp) == before, "source modified")
                    full = rows(cp.foc_traj[0])
                    ax = 0 if "x" in brk else 1
                    v = list(brk.values())[0]
                    pieces = [rows(p) for p in r.foc_traj]
                    cross = [k for k in range(n - 1)
                             if (full[k][ax] - v)*(full[k+1][ax] - v) < 0]
                    if n <= 2:
                        cross = []
                    expect(len(pieces) == len(cross) + 1, "number of pieces",
                           lambda: (pieces, cross))
                    seen = set()
                    for p in pieces:
                        k = full.index(p[0])
                        expect(full[k:k + len(p)] == p, "piece",
                               lambda: (p, full))
                        seen.update(p)
                    expect(seen == set(full), "points lost",
                           lambda: (pieces, full))
                    for p, k in zip(pieces, cross):
                        # up to one point after the crossing
                        expect(p[-1] in full[k:k + 3], "end of a piece",
                               lambda: (p, full[k], brk))
                    for p, k in zip(pieces[1:], cross):
                        expect(p[0] == full[k + 1], "start of a piece",
                               lambda: (p, full[k], brk))
                    cp.break_trajectories(inplace=True, **brk)
                    expect(snap(cp) == snap(r), "in place result differs")
                ck.case("break", "%s at %s" % (xv, brk), fn,
                        state=("break", xv, str(brk), swap))


def changes(ck):
    """turning points of trajectories, smoothing"""
    for n, k in itertools.product((5, 7, 9), (1, 2, 3)):
        for direction, up in itertools.product(("x", "y"), (1., -1.)):
            def fn():
                # a parabola: one extremum at time t0
                t0 = n//2 - .5*(k % 2)
                m = Col()
                for i in range(n):
                    a, b = up*(i - t0)**2, float(i)
                    m.add(float(i), foc=[(a, b) if direction == "x"
                                         else (b, a)])
                cp = m.real()
                cp.compute_traj()
                before = snap(cp)
                mn, mx = cp.get_traj_direction_changement("foc", direction)
                expect(snap(cp) == before, "source modified")
                want, other = (mn, mx) if up > 0 else (mx, mn)
                expect(len(other) == 0, "extremum of the other kind",
                       lambda: other.xy.tolist())
                expect(len(want) == 1, "number of extrema",
                       lambda: (mn.xy.tolist(), mx.xy.tolist()))
                expect(abs(want.v[0] - t0) <= 1e-9, "time",
                       lambda: (want.v, t0))
                on_traj(want, rows(cp.foc_traj[0]))
                for p in (mn, mx):
                    expect(all(map(fm.same_unit, (p.unit_x, p.unit_y,
                                                  p.unit_v), m.u)), "units")
            ck.case("direction changes", "%s, %d points, %+d (%d)" % (
                direction, n, up, k), fn, state=("dir", direction, n, up, k))
    for tos, size in itertools.product(("uniform", "gaussian"), (None, 2)):
        def fn():
            m = Col()
            for i in range(6):
                m.add(float(i), foc=[(1., 2.)], sadd=[(i*1., 5.)])
            cp = m.real()
            cp.compute_traj()
            cp.smooth_traj(tos=tos, size=size)
            compare(cp, m, trajs=False)
            tr = rows(cp.foc_traj[0])
            expect(near(tr, [(1., 2., float(i)) for i in range(6)]),
                   "constant trajectory changed", lambda: tr)
            tr = rows(cp.sadd_traj[0])
            expect([q[2] for q in tr] == [0., 1., 2., 3., 4., 5.]
                   and near([q[1] for q in tr], [5.]*6)
                   and all(a[0] < b[0] for a, b in zip(tr, tr[1:]))
                   and 0. <= tr[0][0] and tr[-1][0] <= 5.,
                   "smoothed trajectory", lambda: tr)
        ck.case("smooth", "%s %s" % (tos, size), fn,
                state=("smooth", tos, size))


def topo(ck):
    """topological simplification keeps the index and the distant points"""
    base = [("foc", (0., 0.)), ("sadd", (1., 0.)), ("foc_c", (0., 8.)),
            ("sadd", (8., 8.)), ("node_o", (8., 0.5)), ("node_i", (9., 0.5)),
            ("sadd", (8.5, .25))]
    sub = [s for n in range(0, 8) for s in itertools.combinations(base, n)]
    for pts, kind, d in itertools.product(sub, ("replacement",
                                                "only_delete"),
                                          (.25, 1.5, 3.)):
        def fn():
            m = Col("mm", "mm", "ms")
            for tm in (0., 1.):
                m.add(tm, **{t: [p for u, p in pts if u == t]
                             for t in TYPES})
            m.add(2., foc=[(5., 5.)])
            cp = m.real()
            before = snap(cp)
            r = cp.topo_simplify(d, kind=kind)
            expect(snap(cp) == before, "source modified")
            expect(list(r.times) == m.times, "times", lambda: r.times)
            for u, w in zip((r.unit_x, r.unit_y, r.unit_time), m.u):
                expect(fm.same_unit(u, w), "units",
                       lambda: (str(u), str(w)))
            al = [(t, tuple(q)) for t in TYPES
                  for q in getattr(r, t)[0].xy.tolist()]

            def index(lst):
                return sum(-1 if t == "sadd" else 1 for t, q in lst)
            from IMTreatment.vortex_detection.vortex_detection import \
                TopoPoints
            tp = TopoPoints()
            tp.import_from_CP(cp, 0)
            if 0 not in tp.simplify(d, kind=kind).types:
                # (no cluster with an index that no point can have)
                expect(index(al) == index(pts), "total index",
                       lambda: (pts, al))
            for t, q in pts:
                if all(dist(q, o) > d for u, o in pts if o != q):
                    if all(dist(q, o) > 2*d for u, o in pts if o != q):
                        expect((t, q) in al, "isolated point lost",
                               lambda: (t, q, al))
            if kind == "replacement":
                for (t, q), (u, o) in itertools.combinations(al, 2):
                    expect(dist(q, o) > d, "points still too close",
                           lambda: (q, o, d))
            else:
                expect(all(a in pts for a in al), "new point",
                       lambda: al)
                for (t, q), (u, o) in itertools.combinations(al, 2):
                    expect(dist(q, o) > d
                           or (t == "sadd") == (u == "sadd"),
                           "pair not removed", lambda: (q, o, d))
            expect([q.tolist() for q in r.foc[2].xy] == [[5., 5.]],
                   "other time", lambda: r.foc[2].xy)
        ck.case("topo|" + kind, "%s within %s" % (pts, d), fn,
                state=("topo", pts, kind, d))


def refine(ck):
    """points put on the extrema of fields"""
    from IMTreatment import ScalarField, TemporalScalarFields
    ax = np.arange(9.)
    X, Y = np.meshgrid(ax, ax, indexing="ij")
    for typ, ext, inplace, (dx, dy) in itertools.product(
            TYPES, ("max", "min"), (True, False),
            itertools.product((-1., 0., .75), (-.5, 1.))):
        def fn():
            cs = [(3., 4.), (4., 4.), (4.25, 3.5)]
            m = Col()
            tsf = TemporalScalarFields()
            for k, c in enumerate(cs):
                m.add(float(k), **{typ: [(c[0] + dx, c[1] + dy)],
                                   "foc" if typ != "foc" else "sadd":
                                   [(1., 1.)]})
                f = ScalarField()
                s = 1. if ext == "max" else -1.
                f.import_from_arrays(ax, ax, s*(10 - (X - c[0])**2
                                                - (Y - c[1])**2),
                                     unit_x="m", unit_y="m", unit_values="")
                tsf.add_field(f, time=float(k), unit_times="s")
            cp = m.real()
            cp.compute_traj()
            m.trajs = check_trajs(cp, m, np.inf)
            before = snap(cp)
            r = cp.refine_cp_position(typ, tsf, inplace=inplace,
                                      extrema=ext, verbose=False)
            if inplace:
                r = cp
            else:
                expect(snap(cp) == before, "source modified")
            for k, c in enumerate(cs):
                p = getattr(r, typ)[k]
                expect(len(p) == 1 and np.all(np.abs(p.xy[0] - c) <= .5),
                       "not on the extremum", lambda: (p.xy.tolist(), c))
                m.pts[typ][k] = [tuple(p.xy[0])]
            m.trajs = None
            compare(r, m)
            # usable afterwards
            r.compute_traj()
            r2 = r.crop(intervt=[0., 1.])
            expect(len(r2.times) == 2, "times after refinement")
        ck.case("refine|%s" % typ, "%s %s inplace=%s from %s" % (
            typ, ext, inplace, (dx, dy)), fn,
            state=("refine", typ, ext, inplace, dx, dy))


def density(ck):
    pts = [(0., 0.), (1., 2.), (2., .5), (3., 3.), (1.5, 1.)]
    for typ, n, fmt in itertools.product(TYPES, (3, 4, 5), (
            "normalized", "absolute", "ponderated", "concentration")):
        def fn():
            other = "foc" if typ != "foc" else "sadd"
            m = Col()
            m.add(0., **{typ: pts[:2], other: [(1., 1.)]})
            m.add(1., **{typ: pts[2:n], other: [(2., 1.), (0., 1.)]})
            cp = m.real()
            before = snap(cp)
            d = cp.get_points_density(typ, resolution=40, output_format=fmt)
            expect(snap(cp) == before, "source modified")
            expect(d.shape == (40, 40), "resolution", lambda: d.shape)
            expect(fm.same_unit(d.unit_x, m.u[0])
                   and fm.same_unit(d.unit_y, m.u[1]), "units of the axes")
            expect(np.all(d.values >= 0), "negative density")
            ref = cp.get_points_density(typ, resolution=40)
            k = {"normalized": 1., "ponderated": n,
                 "absolute": n/(n + 3.)}.get(fmt)
            if k is not None:
                expect(near(d.values, ref.values*k), "normalization",
                       lambda: (d.values.max(), ref.values.max(), k))
        ck.case("density|" + fmt, "%s, %d points" % (typ, n), fn,
                state=("density", typ, n, fmt))


def means(ck):
    """identical trajectories give themselves as mean"""
    for nt, n, two in itertools.product((1, 2, 3), (6, 8), (False, True)):
        def fn():
            m = Col()
            shape = [(.5*k, (k - 2.)**2*.25) for k in range(n)]
            for j in range(nt):
                for k, (x, y) in enumerate(shape):
                    m.add(100.*j + k, foc=[(x, y)])
                # nothing in between
                m.add(100.*j + 50, foc=[])
            if two:
                m.add(90., foc=[(70., 70.)])
                m.add(91., foc=[(70., 70.5)])
            cp = m.real()
            cp.compute_traj(epsilon=8.)
            before = snap(cp)
            trs, skipped = cp.get_mean_trajectory("foc", min_len=3,
                                                  min_nmb_to_avg=1)
            expect(snap(cp) == before, "source modified")
            expect(len(trs) == 1, "number of mean trajectories",
                   lambda: [t.xy.tolist() for t in trs])
            t = trs[0]
            expect(t.nmb_traj_used == nt and t.used_traj_number == nt,
                   "number of trajectories used",
                   lambda: (t.nmb_traj_used, nt))
            expect(t.used_pts_number == nt*n, "number of points used",
                   lambda: t.used_pts_number)
            expect(near(t.xy, shape) and near(t.time, range(n)),
                   "mean trajectory", lambda: (t.xy.tolist(), t.time))
            expect(np.allclose(t.assoc_std_x, 0, atol=1e-9)
                   and np.allclose(t.assoc_std_y, 0, atol=1e-9), "std",
                   lambda: (t.assoc_std_x, t.assoc_std_y))
            for k in range(n):
                expect(sorted(t.assoc_real_times[k]) == [
                    100.*j + k for j in range(nt)], "real times",
                    lambda: t.assoc_real_times)
            # crop and scale
            c = t.crop(intervt=[1., 3.], inplace=False)
            expect(near(c.xy, shape[1:4]) and len(c.assoc_std_x) == 3
                   and len(c.assoc_real_times) == 3, "crop",
                   lambda: c.xy.tolist())
            s = t.scale(scalex=2., scalet=.5, inplace=False)
            expect(near(s.xy, [(2*x, y) for x, y in shape])
                   and near(s.time, [.5*k for k in range(n)])
                   and near(np.sort(s.assoc_real_times[0]),
                            [50.*j for j in range(nt)]), "scale",
                   lambda: (s.xy.tolist(), s.time, s.assoc_real_times))
            expect(near(t.xy, shape) and sorted(t.assoc_real_times[0]) == [
                100.*j for j in range(nt)] and near(
                    t.base_trajs[0].xy, shape), "source modified")
            expect(snap(cp) == before, "source modified")
        ck.case("mean trajectory", "%d trajectories of %d points%s" % (
            nt, n, " + a short one"*two), fn, state=("mean", nt, n, two))


def on_traj(p, tr):
    """points lie on the (piecewise linear) trajectory, at their times"""
    v = [q[2] for q in tr]
    for (x, y), t in zip(p.xy, p.v):
        w = [np.interp(t, v, [q[i] for q in tr]) for i in (0, 1)]
        expect(near([x, y], w), "not on the trajectory",
               lambda: ((x, y, t), w))


def turning(ck):
    """turning points: short trajectories, smoothing"""
    def path(vals, ts, swap, more=()):
        m = Col("mm", "m", "s") if not swap else Col("m", "mm", "s")
        for i, (a, t) in enumerate(zip(vals, ts)):
            q = (a, 2. + i)
            m.add(t, foc=[q[::-1] if swap else q])
        cp = m.real()
        cp.compute_traj()
        return m, cp

    def res(cp, swap, **kw):
        out = []
        for p in cp.get_traj_direction_changement(
                "foc", "y" if swap else "x", **kw):
            xy = [tuple(q[::-1] if swap else q) for q in p.xy.tolist()]
            out.append(sorted((float(t),) + q for q, t in zip(xy, p.v)))
        return out
    alph = (0., 1., 3.)
    for n in (3, 4, 5, 6) if ck.thorough else (3, 4, 5):
        for vals in itertools.product(alph, repeat=n):
            if any(a == b for a, b in zip(vals, vals[1:])):
                continue
            for sm in (None, 1):
                def fn():
                    ts = [.5*k for k in range(n)]
                    m, cp = path(vals, ts, False)
                    before = snap(cp)
                    r = res(cp, False, smoothing=sm)
                    expect(snap(cp) == before, "source modified")
                    m2, cp2 = path(vals, ts, True)
                    r2 = res(cp2, True, smoothing=sm)
                    for a, b in zip(r, r2):
                        expect(near(a, b) or not a and not b,
                               "directions treated differently",
                               lambda: (r, r2))
                    if sm is None:
                        for p in cp.get_traj_direction_changement("foc",
                                                                  "x"):
                            on_traj(p, rows(cp.foc_traj[0]))
                    if sm is None and n == 3:
                        d = (vals[1] - vals[0], vals[2] - vals[1])
                        k = (d[0] < 0 < d[1], d[1] < 0 < d[0])
                        expect((len(r[0]), len(r[1])) == (int(k[0]),
                                                          int(k[1])),
                               "number of turning points", lambda: r)
                ck.case("turning", "%s, smoothing %s" % (vals, sm), fn,
                        state=("turning", vals, sm))


def equality(ck):
    """collections are equal if and only if everything is"""
    from IMTreatment import Points
    from IMTreatment.vortex_detection import CritPoints

    def build(times=(0., 1., 2.), ux="m", uy="mm", ut="s", move=None,
              kind="node_i", withv=False, n=2):
        cp = CritPoints(unit_time=ut)
        for i, t in enumerate(times):
            xy = [[1. + j, 2.*i + j] for j in range(n)]
            if move is not None and move[0] == i:
                xy[move[1]][move[2]] += .25
            kw = dict(unit_x=ux, unit_y=uy, unit_v=ut)
            if withv:
                kw["v"] = [t]*n
            cp.add_point(time=t, **{kind: Points(
                xy if n else np.empty((0, 2)), **kw)})
        return cp
    variants = [("same", {}), ("times", dict(times=(0., 1., 2.5))),
                ("first time", dict(times=(-1., 1., 2.))),
                ("fewer", dict(times=(0., 1.))),
                ("unit of x", dict(ux="mm")), ("unit of y", dict(uy="m")),
                ("unit of time", dict(ut="ms")), ("kind", dict(kind="foc")),
                ("saddle", dict(kind="node_o")), ("one point", dict(n=1))]
    variants += [("moved %s" % (mv,), dict(move=mv)) for mv in
                 itertools.product(range(3), range(2), range(2))]
    for (an, a), (bn, b), wv, n in itertools.product(
            variants, variants, (False, True), (2, 0)):
        if n == 0 and any(k in w for k in ("move", "n", "kind")
                          for w in (a, b)):
            continue

        def fn():
            ca = build(withv=wv, **dict(dict(n=n), **a))
            cb = build(withv=wv, **dict(dict(n=n), **b))
            sa = snap(ca)
            expect((ca == cb) is (a == b) or bool(ca == cb) == (a == b),
                   "equality", lambda: (an, bn))
            expect(bool(ca != cb) == (a != b), "difference",
                   lambda: (an, bn))
            expect(snap(ca) == sa, "source modified")
        ck.case("equality", "%s / %s%s, %d points" % (
            an, bn, " with v"*wv, n), fn, state=("eq", an, bn, wv, n))
    # times of the points do not matter to the trajectories
    for kind, v, n in itertools.product(TYPES, (None, 7.), (1, 2)):
        def fn():
            from IMTreatment import OrientedPoints
            cp = CritPoints(unit_time="s")
            m = Col()
            for i in range(3):
                xy = [(1. + .25*i, 5.*j) for j in range(n)]
                kw = dict(unit_x="m", unit_y="m", unit_v="s")
                if v is not None:
                    kw["v"] = [v + i % 2]*n
                if kind == "sadd":
                    p = OrientedPoints(xy=[list(q) for q in xy],
                                       orientations=[EYE]*n, **kw)
                else:
                    p = Points([list(q) for q in xy], **kw)
                cp.add_point(time=.5*i, **{kind: p})
                m.add(.5*i, **{kind: xy})
            cp.compute_traj(epsilon=1.)
            m.trajs = check_trajs(cp, m, 1.)
            compare(cp, m)
        ck.case("trajectories|values", "%s %s %d" % (kind, v, n), fn,
                state=("trajv", kind, v, n))


def merged(ck):
    """merged points: barycentre and majority type of the group"""
    pos = [(0., 0.), (1., 0.), (.25, 1.), (2.25, .5), (1.5, 2.25), (7., 7.)]
    kinds = ("foc", "foc_c", "sadd", "node_i", "node_o")

    def ref(pts, d):
        gs = [[p] for p in pts]
        while len(gs) > 1:
            c = [np.mean([p[1] for p in g], axis=0) for g in gs]
            ds = sorted((dist(c[i], c[j]), i, j) for i, j in
                        itertools.combinations(range(len(gs)), 2))
            if ds[0][0] > d - 1e-9:
                if abs(ds[0][0] - d) < 1e-9:
                    return None
                break
            if len(ds) > 1 and ds[1][0] - ds[0][0] < 1e-9:
                return None
            i, j = ds[0][1:]
            gs = [g for k, g in enumerate(gs) if k not in (i, j)] + [
                gs[i] + gs[j]]
        out = []
        for g in gs:
            idx = sum(-1 if t == "sadd" else 1 for t, q in g)
            if idx == 0:
                continue
            c = tuple(np.mean([p[1] for p in g], axis=0))
            if len(g) == 1:
                ok = [g[0][0]]
            elif abs(idx) != 1:
                ok = None
            elif idx == -1:
                ok = ["sadd"]
            else:
                cnt = {t: sum(u == t for u, q in g) for t in kinds
                       if t != "sadd"}
                ok = [t for t in cnt if cnt[t] == max(cnt.values())]
            out.append((c, ok))
        return out
    for n in (1, 2, 3, 4, 5, 6) if ck.thorough else (1, 2, 3, 4, 5):
        for ks in itertools.product(kinds, repeat=n):
            if not ck.thorough and n == 5 and ks.count("sadd") not in (2, 3):
                continue
            for d in (1.1, 1.75, 3.):
                pts = list(zip(ks, pos))
                want = ref(pts, d)
                if want is None or any(ok is None for c, ok in want):
                    continue

                def fn():
                    m = Col()
                    m.add(3., **{t: [q for u, q in pts if u == t]
                                 for t in TYPES})
                    r = m.real().topo_simplify(d)
                    got = sorted((tuple(q), t) for t in TYPES
                                 for q in getattr(r, t)[0].xy.tolist())
                    w = sorted(want)
                    expect(len(got) == len(w) and all(
                        near(a[0], b[0]) for a, b in zip(got, w)),
                        "merged points", lambda: (got, w))
                    for a, b in zip(got, w):
                        expect(a[1] in b[1], "type of a merged point",
                               lambda: (got, w))
                ck.case("merged", "%s within %s" % (pts, d), fn,
                        state=("merged", ks, d))


def groups(shapes, starts, uy="mm"):
    """one trajectory for each shape, at well separated times"""
    m = Col("m", uy, "s")
    for sh, t0 in zip(shapes, starts):
        for k, (x, y) in enumerate(sh):
            m.add(t0 + k, foc=[(x, y)])
        m.add(t0 + len(sh), foc=[])
    return m


SH = [lambda k: (.5*k, (k - 2.)**2*.25),
      lambda k: (.5*k, (k - 2.)**2*.25 + .03125),
      lambda k: (.5*k + .03125*(k % 2), (k - 2.)**2*.25 - .03125*k),
      lambda k: (9. - 2.*k, 30. + 7.*k),
      lambda k: (9. - 2.*k + .0625, 30. + 7.*k - .125*(k % 2))]


def averages(ck):
    """mean trajectories: means of the points they are said to come from"""
    lens = (8, 6, 5)
    for sel in itertools.product(range(len(SH)), repeat=3):
        for ls in itertools.product(lens, repeat=3):
            if not ck.thorough and (ls[0] != 8 and ls[1] != 8):
                continue
            for mn in (1, 2, 3):
                def fn():
                    shapes = [[SH[s](k) for k in range(l)]
                              for s, l in zip(sel, ls)]
                    m = groups(shapes, (0., 100., 200.))
                    cp = m.real()
                    cp.compute_traj(epsilon=30.)
                    before = snap(cp)
                    mts, skipped = cp.get_mean_trajectory(
                        "foc", min_len=6, min_nmb_to_avg=mn)
                    expect(snap(cp) == before, "source modified")
                    check_means(m, cp, mts, skipped, shapes, ls, sel, mn)
                ck.case("averages", "%s of %s points, at least %d" % (
                    sel, ls, mn), fn, state=("avg", sel, ls, mn))


def check_means(m, cp, mts, skipped, shapes, ls, sel, mn):
    at = {tm: p[0] for tm, p in zip(m.times, m.pts["foc"]) if p}
    used = [rows(b) for t in mts for b in t.base_trajs]
    skip = [rows(b) for b in skipped]
    al = [rows(b) for b in cp.foc_traj if len(b) >= 6]
    expect(sorted(used + skip) == sorted(al),
           "used and skipped trajectories", lambda: (used, skip, al))
    nmb = [t.nmb_traj_used for t in mts]
    expect(nmb == sorted(nmb, reverse=True), "order of the trajectories",
           lambda: nmb)
    for t in mts:
        for u, w in zip((t.unit_x, t.unit_y, t.unit_times), m.u):
            expect(fm.same_unit(u, w), "unit of a mean trajectory",
                   lambda: (str(u), str(w)))
        expect(t.nmb_traj_used == len(t.base_trajs), "number used")
        n = len(t.xy)
        expect(len(t.time) == len(t.assoc_std_x) == len(t.assoc_std_y)
               == len(t.assoc_real_times) == n, "lengths")
        expect(list(t.time) == sorted(t.time), "times not sorted",
               lambda: t.time)
        for k in range(n):
            rt = sorted(t.assoc_real_times[k])
            expect(len(rt) >= mn and len(set(rt)) == len(rt),
                   "too few points for a mean", lambda: rt)
            ps = np.array([at[r] for r in rt])
            expect(near(t.xy[k], ps.mean(axis=0)), "mean position",
                   lambda: (t.xy[k], ps))
            expect(near([t.assoc_std_x[k], t.assoc_std_y[k]],
                        ps.std(axis=0)), "std",
                   lambda: (t.assoc_std_x[k], t.assoc_std_y[k], ps))
        # each trajectory is shifted as a whole
        for b in t.base_trajs:
            sh = set(round(r - t.time[k], 6) for k in range(n)
                     for r in t.assoc_real_times[k] if r in list(b.v))
            expect(len(sh) <= 1, "trajectory not shifted as a whole",
                   lambda: sh)
        # alike and not too different in length
        lb = [len(b) for b in t.base_trajs]
        kinds = set((sel[int(b.v[0]//100)] >= 3) for b in t.base_trajs)
        expect(len(kinds) == 1, "different trajectories averaged",
               lambda: [rows(b) for b in t.base_trajs])
        expect(min(lb) >= 6, "short trajectory used", lambda: lb)
    # identical ones (lengths within 25 %) go together
    ids = [[i for i in range(3) if sel[i] == s and ls[i] == l]
           for s in set(sel) for l in set(ls) if l >= 6]
    for g in ids:
        if len(g) < 2:
            continue
        w = [next((j for j, t in enumerate(mts) for b in t.base_trajs
                   if b.v[0] == 100.*i), None) for i in g]
        expect(len(set(w)) == 1, "identical trajectories separated",
               lambda: (g, w))
    if len(set(sel)) == 1 and mn == 1 and 5 not in ls:
        # (8 - 6)/8 is within the allowed difference
        expect(len(mts) == 1, "alike trajectories separated",
               lambda: [t.xy.tolist() for t in mts])


def reconstructed(ck):
    """operations on mean trajectories"""
    from IMTreatment import ScalarField, TemporalScalarFields
    n = 6
    for nt, first in itertools.product((1, 2, 3), (0., .5)):
        def make():
            shapes = [[(SH[0](k)[0], SH[0](k)[1] + .0625*(j % 2)*(k % 2))
                       for k in range(n)] for j in range(nt)]
            m = groups(shapes, [first + 100.*j for j in range(nt)])
            cp = m.real()
            cp.compute_traj(epsilon=8.)
            mts, sk = cp.get_mean_trajectory("foc", min_len=3,
                                             min_nmb_to_avg=1)
            expect(len(mts) == 1, "number of mean trajectories")
            return m, mts[0]

        def data(t):
            return [(tuple(q), float(v), float(a), float(b),
                     tuple(sorted(map(float, r))))
                    for q, v, a, b, r in zip(
                        t.xy, t.time, t.assoc_std_x, t.assoc_std_y,
                        t.assoc_real_times)]

        def rec():
            m, t = make()
            tf = TemporalScalarFields()
            val = {}
            for i, tm in enumerate(m.times):
                f = ScalarField()
                v = np.array([[1., 2., 4.], [3., 5., 9.]])*(1 + i) + i*i
                val[tm] = v
                f.import_from_arrays([0., 1.], [0., 1., 2.], v,
                                     unit_x="m", unit_y="m",
                                     unit_values="m/s")
                tf.add_field(f, time=tm, unit_times="s")
            before = data(t)
            r = t.reconstruct_fields(tf)
            expect(data(t) == before, "trajectory modified")
            for tm, f in zip(tf.times, tf.fields):
                expect(near(f.values, val[tm]), "fields modified")
            expect(type(r) is type(tf), "type of the result")
            expect(near(r.times, t.time), "times of the result",
                   lambda: (r.times, t.time))
            expect(fm.same_unit(r.unit_times, fm.U("s")), "unit of times")
            for k, f in enumerate(r.fields):
                w = np.mean([val[q] for q in t.assoc_real_times[k]], axis=0)
                expect(near(f.values, w), "conditional mean",
                       lambda: (k, f.values, w))
                expect(fm.same_unit(f.unit_values, fm.U("m/s")),
                       "unit of the mean")
        ck.case("mean trajectory|fields", "%d trajectories from %s" % (
            nt, first), rec, state=("mtrec", nt, first))
        for name, kw, keep in (
                ("x", dict(intervx=[.75, 2.]), lambda k, d:
                 .75 <= d[0][0] <= 2.),
                ("y", dict(intervy=[.125, .5]), lambda k, d:
                 .125 <= d[0][1] <= .5),
                ("t", dict(intervt=[1., 3.]), lambda k, d: 1 <= d[1] <= 3),
                ("xy", dict(intervx=[0., 1.], intervy=[0., .5]),
                 lambda k, d: 0 <= d[0][0] <= 1 and 0 <= d[0][1] <= .5),
                ("ind", dict(intervt=[1, 4], ind=True),
                 lambda k, d: 1 <= k < 4),
                ("ind end", dict(intervt=[3, 6], ind=True),
                 lambda k, d: 3 <= k)):
            for inplace in (False, True):
                def crop():
                    m, t = make()
                    d0 = data(t)
                    w = [d for k, d in enumerate(d0) if keep(k, d)]
                    r = t.crop(inplace=inplace, **kw)
                    if inplace:
                        r = t
                    else:
                        expect(data(t) == d0, "source modified")
                    expect(data(r) == w and len(r.xy) == len(w)
                           == len(r.time) == len(r.assoc_real_times),
                           "crop", lambda: (data(r), w))
                ck.case("mean trajectory|crop", "%s, %d trajectories%s" % (
                    name, nt, " in place"*inplace), crop,
                    state=("mtcrop", name, nt, first, inplace))
        for fx, fy, ft, inplace in itertools.product(
                (1., 2.), (1., -.5), (1., 4.), (False, True)):
            def scale():
                m, t = make()
                d0 = data(t)
                b0 = [rows(b) for b in t.base_trajs]
                r = t.scale(scalex=fx, scaley=fy, scalet=ft,
                            inplace=inplace)
                if inplace:
                    r = t
                else:
                    expect(data(t) == d0 and b0 == [
                        rows(b) for b in t.base_trajs], "source modified")
                for a, b in zip(data(r), d0):
                    expect(near(a[0], (b[0][0]*fx, b[0][1]*fy))
                           and near(a[1], b[1]*ft)
                           and near(a[2], b[2]*fx)
                           and near(abs(a[3]), b[3]*abs(fy))
                           and near(a[4], [q*ft for q in b[4]]),
                           "scale", lambda: (a, b))
                for tr, b in zip(r.base_trajs, b0):
                    expect(near(rows(tr), [(x*fx, y*fy, v*ft)
                                           for x, y, v in b]),
                           "scaled base trajectories",
                           lambda: (rows(tr), b))
            ck.case("mean trajectory|scale", "%s, %d trajectories%s" % (
                (fx, fy, ft), nt, " in place"*inplace), scale,
                state=("mtscale", fx, fy, ft, nt, first, inplace))
