"""C18: streamlines, fieldlines and tracklines of affine velocity fields."""
import itertools
import os

import numpy as np

from mc import fm
from mc.core import expect

GRIDS = [("square", np.linspace(0., 4., 9), np.linspace(0., 4., 9)),
         ("offset", np.linspace(-3., 1., 9), np.linspace(10., 12., 5)),
         ("uneven", np.array([0., .5, 1., 2., 4.]),
          np.array([-1., 0., .25, 1., 3.]))]
UNIFORM = [(1., 0.), (-1., 0.), (0., 1.), (0., -2.), (1., 1.), (2., -1.),
           (-1., 3.)]
# velocity gradients (du/dx, du/dy, dv/dx, dv/dy) around the centre
LINEAR = [("turn", (0., -1., 1., 0.)), ("turn-", (0., 1., -1., 0.)),
          ("strain", (1., 0., 0., -1.)), ("shear", (0., 1., 0., 0.)),
          ("sink", (-1., 0., 0., -1.)), ("spiral", (.3, -1., 1., .3))]


class Flow(object):
    def __init__(self, ax, ay, A, b, centre=None):
        self.ax, self.ay = ax, ay
        self.A = np.array(A, float).reshape(2, 2)
        self.b = np.array(b, float)
        self.c = np.array([(ax[0] + ax[-1])/2, (ay[0] + ay[-1])/2]
                          if centre is None else centre)
        X, Y = np.meshgrid(ax, ay, indexing="ij")
        self.vx = (self.b[0] + self.A[0, 0]*(X - self.c[0])
                   + self.A[0, 1]*(Y - self.c[1]))
        self.vy = (self.b[1] + self.A[1, 0]*(X - self.c[0])
                   + self.A[1, 1]*(Y - self.c[1]))
        self.vmax = np.max(np.hypot(self.vx, self.vy))

    def field(self, mask=None, ux="m", uy="m", uv="m/s"):
        from IMTreatment import VectorField
        vf = VectorField()
        vf.import_from_arrays(self.ax, self.ay, self.vx, self.vy,
                              mask=False if mask is None else mask,
                              unit_x=ux, unit_y=uy, unit_values=uv)
        return vf

    def turned(self, s):
        """flow turned by s*90 degrees"""
        if s == 0:
            return self
        R = np.array([[0., -s], [s, 0.]])
        f = Flow(self.ax, self.ay, R.dot(self.A), R.dot(self.b), self.c)
        return f

    def vel(self, p):
        return self.b + self.A.dot(p - self.c)

    def at(self, p0, t):
        """exact position at time t of a particle at p0 at time 0"""
        from scipy.linalg import expm
        M = np.zeros((3, 3))
        M[:2, :2] = self.A
        M[:2, 2] = self.b
        E = expm(M*t)
        return self.c + E[:2, :2].dot(p0 - self.c) + E[:2, 2]

    def stagnation(self, p, h):
        """is there a zero of the velocity within h of p?"""
        return np.hypot(*self.vel(p)) <= h*np.linalg.norm(self.A)

    def inside(self, p, tol=0.):
        return (self.ax[0] - tol <= p[0] <= self.ax[-1] + tol
                and self.ay[0] - tol <= p[1] <= self.ay[-1] + tol)


def starts(ax, ay, n):
    fr = np.linspace(0., 1., n)
    return [np.array([ax[0] + a*(ax[-1] - ax[0]), ay[0] + b*(ay[-1] - ay[0])])
            for a in fr for b in fr]


def aslist(res):
    if res is None:
        return []
    return list(res) if isinstance(res, (list, tuple, np.ndarray)) else [res]


def head(line, p, ux="m", uy="m"):
    from IMTreatment.core.points import Points
    expect(isinstance(line, Points), "not a Points object", type(line))
    expect(len(line.xy) >= 1 and np.allclose(line.xy[0], p, rtol=1e-12,
                                             atol=1e-12),
           "line does not begin at the start point",
           lambda: (line.xy[:2].tolist(), p.tolist()))
    expect(fm.same_unit(line.unit_x, fm.U(ux))
           and fm.same_unit(line.unit_y, fm.U(uy)), "units of the line",
           lambda: (str(line.unit_x), str(line.unit_y)))


def within(flow, xy, tol=1e-9):
    for k, p in enumerate(xy[:-1]):
        expect(flow.inside(p, tol), "line goes on outside of the field",
               lambda: (k, p.tolist(), len(xy)))


def check_fast(flow, line, p, sgn, delta, ux="m", uy="m"):
    head(line, p, ux, uy)
    xy = line.xy
    within(flow, xy)
    mean = .5*(np.mean(np.diff(flow.ax)) + np.mean(np.diff(flow.ay)))
    steps = np.diff(xy, axis=0)
    ln = np.hypot(*steps.T) if len(steps) else np.array([])
    if len(ln):
        expect(np.allclose(ln, ln[0], rtol=1e-9),
               "steps of different lengths", lambda: ln.tolist()[:8])
        expect(.5*delta*mean < ln[0] < 1.001*delta*mean, "length of the steps",
               lambda: (ln[0], delta*mean))
    for k in range(len(steps)):
        v = sgn*flow.vel(xy[k])
        n = np.hypot(*v)
        if n < 1e-9*flow.vmax:
            continue
        expect(np.allclose(steps[k]/ln[k], v/n, rtol=0, atol=1e-7),
               "direction of the line",
               lambda: (k, xy[k].tolist(), steps[k].tolist(), v.tolist()))
    # why did it stop?
    last = xy[-1]
    if not flow.inside(last):
        return
    if np.hypot(*flow.vel(last)) <= 1e-9*flow.vmax:
        return
    if len(xy) >= (len(flow.ax) + len(flow.ay))/delta - 2:
        return
    h = delta*mean
    if len(xy) > 15:
        d = np.hypot(*(xy[:-5] - last).T)
        if d.min() <= h:
            return
    expect(False, "line stops without reason", lambda: (len(xy), last.tolist()))


def check_line(flow, line, p, sgn, kind, resolution, max_steps, mask=None,
               tol=2e-4, ux="m", uy="m"):
    head(line, p, ux, uy)
    xy, ts = line.xy, np.asarray(line.v, float)
    expect(len(ts) == len(xy), "times and points differ in number",
           lambda: (len(ts), len(xy)))
    expect(len(xy) <= max_steps + 1, "more steps than asked", lambda: len(xy))
    within(flow, xy)
    lx, ly = flow.ax[-1] - flow.ax[0], flow.ay[-1] - flow.ay[0]
    size = np.hypot(lx, ly)
    uniform = not flow.A.any()
    scale = ly/flow.vmax
    h = 1.5*resolution*max(np.diff(flow.ax).max(), np.diff(flow.ay).max())
    if mask is None:
        for k in range(1, len(xy)):
            if kind == "length":
                d = np.hypot(*((xy[k] - xy[k-1])/[lx, ly]))
                expect(d <= 12*resolution*max(np.diff(flow.ax)[0]/lx,
                                              np.diff(flow.ay)[0]/ly),
                       "jump of the line", lambda: (k, xy[k-1:k+1].tolist()))
                if flow.A.any() and flow.stagnation(xy[k-1], h):
                    # beyond a stagnation point the line is undefined
                    break
            want = flow.at(p, sgn*ts[k]*scale)
            if k == len(xy) - 1 and not flow.inside(xy[k]):
                # the velocity of the border is used beyond it
                a = np.hypot(*(want - xy[k]))
                h = np.hypot(*(xy[k] - xy[k-1]))
                expect(a <= .5*h + tol*size, "last point off the line",
                       lambda: (k, xy[k].tolist(), want.tolist()))
                continue
            expect(np.hypot(*(want - xy[k])) <= tol*size,
                   "point off the streamline",
                   lambda: (k, xy[k].tolist(), want.tolist()))
    else:
        # uniform flow: a straight line
        d = xy - p
        v = sgn*flow.b/np.hypot(*flow.b)
        expect(np.all(np.abs(d[:, 0]*v[1] - d[:, 1]*v[0]) <= tol*size)
               and np.all(np.diff(d.dot(v)) >= -1e-9),
               "not a straight line", lambda: xy.tolist())

    def node(q):
        return mask is not None and mask[np.argmin(np.abs(flow.ax - q[0])),
                                         np.argmin(np.abs(flow.ay - q[1]))]

    def sure_node(q):
        """all the nearest nodes (in case of a tie) are masked / none is"""
        out = set()
        for dx in (-1e-6, 1e-6):
            for dy in (-1e-6, 1e-6):
                out.add(bool(node(q + np.array([dx*lx, dy*ly]))))
        return out

    if mask is not None:
        for q in xy[:-1]:
            expect(sure_node(q) != {True}, "line goes on over masked points",
                   lambda: q.tolist())
    if kind == "time":
        expect(np.allclose(np.diff(ts), resolution, rtol=1e-9),
               "time steps", lambda: ts.tolist()[:5])
    elif len(xy) > 2 and mask is None and lx == ly:
        dxy = .5*(np.diff(flow.ax)[0] + np.diff(flow.ay)[0])
        inner = xy if flow.inside(xy[-1]) else xy[:-1]
        ln = np.hypot(*np.diff(inner, axis=0).T)
        if len(ln) and (uniform or flow.turn):
            if flow.A.any() and flow.stagnation(p, h):
                return
            expect(np.allclose(ln, resolution*dxy, rtol=1e-2 if not uniform
                               else 1e-6), "spacing of the points",
                   lambda: (ln.tolist()[:4], resolution*dxy))
    # why did it stop?
    last = xy[-1]
    if not flow.inside(last, -1e-9*size) or np.hypot(
            *flow.vel(last)) <= 1e-9*flow.vmax:
        return
    if mask is not None and True in sure_node(last):
        return
    if len(xy) >= max_steps:
        return
    if kind == "length" and flow.A.any() and any(
            flow.stagnation(q, h) for q in xy):
        return
    if kind == "time":
        v = np.hypot(flow.vel(last)[0]/lx, flow.vel(last)[1]/ly)*scale
        if v*resolution <= 1.2*.5*(np.diff(flow.ax)[0]/lx
                                   + np.diff(flow.ay)[0]/ly)/40:
            return
    if mask is not None and any(mask.ravel()):
        # velocity vanishing close to masked points
        i = np.argmin(np.abs(flow.ax - last[0]))
        j = np.argmin(np.abs(flow.ay - last[1]))
        if mask[max(0, i-1):i+2, max(0, j-1):j+2].any():
            return
    expect(False, "line stops without reason",
           lambda: (len(xy), last.tolist(), ts[-1]))


def flows(ax, ay, thorough):
    for b in UNIFORM:
        f = Flow(ax, ay, (0., 0., 0., 0.), b)
        f.turn = False
        yield "uniform %s" % (b,), f
    for name, A in LINEAR:
        for b in ((0., 0.), (.5, .25)) if thorough else ((0., 0.),):
            f = Flow(ax, ay, A, b)
            f.turn = name in ("turn", "turn-") and b == (0., 0.)
            yield "%s %s" % (name, b if b != (0., 0.) else ""), f


def run(ck):
    fast(ck)
    lines(ck)
    masked(ck)
    boundary(ck)
    independent(ck)
    extrema(ck)
    units(ck)
    descriptors(ck)


def fast(ck):
    import IMTreatment.field_treatment as ft
    from IMTreatment.core.orientedpoints import OrientedPoints
    n = 7 if ck.thorough else 4
    for gname, ax, ay in GRIDS:
        for fname, flow in flows(ax, ay, ck.thorough):
            for rev, delta, interp in itertools.product(
                    (False, True), (.25, .5) if ck.thorough else (.25,),
                    ("linear", "cubic")):
                for p in starts(ax, ay, n):
                    def fn(p=p):
                        vf = flow.field()
                        snap = fm.snap(vf)
                        res = ft.get_streamlines_fast(
                            vf, p, delta=delta, interp=interp, reverse=rev)
                        res = aslist(res)
                        expect(len(res) == 1, "number of lines", len(res))
                        check_fast(flow, res[0], p, -1 if rev else 1, delta)
                        expect(fm.snap(vf) == snap, "field modified")
                        # same through the points
                        if interp == "linear":
                            op = OrientedPoints([p], [[[1., 0.]]],
                                                unit_x="m", unit_y="m")
                            r2 = aslist(op.get_streamlines(
                                vf, delta=delta, interp=interp,
                                reverse_direction=rev))
                            expect(len(r2) == 1 and np.array_equal(
                                r2[0].xy, res[0].xy), "lines of the points")
                    ck.case("fast|%s|%s" % (gname, interp),
                            "%s, %s from %s reverse=%s delta=%s" % (
                                gname, fname, p.tolist(), rev, delta), fn,
                            state=("fast", gname, fname, rev, delta, interp,
                                   tuple(p)))


def functions():
    import IMTreatment.field_treatment as ft
    return [("streamlines", ft.get_streamlines, 0),
            ("fieldlines", ft.get_fieldlines, -1),
            ("tracklines", ft.get_tracklines, 1)]


def lines(ck):
    n = 5 if ck.thorough else 3
    for gname, ax, ay in GRIDS:
        for fname, flow0 in flows(ax, ay, ck.thorough):
            for (name, f, s), rev, kind in itertools.product(
                    functions(), (False, True), ("length", "time")):
                flow = flow0.turned(s)
                flow.turn = (flow0.turn and s == 0) or not flow0.A.any() or (
                    s != 0 and False)
                for p in starts(ax, ay, n):
                    res = .25 if kind == "length" else .05

                    def fn(p=p):
                        vf = flow0.field()
                        snap = fm.snap(vf)
                        got = aslist(f(vf, p, reverse=rev, resolution=res,
                                       resolution_kind=kind, max_steps=60))
                        expect(len(got) == 1, "number of lines", len(got))
                        check_line(flow, got[0], p, -1 if rev else 1, kind,
                                   res, 60)
                        expect(fm.snap(vf) == snap, "field modified")
                    ck.case("%s|%s|%s" % (name, gname, kind),
                            "%s %s %s from %s reverse=%s" % (
                                name, gname, fname, p.tolist(), rev), fn,
                            state=(name, gname, fname, rev, kind, tuple(p)))


def masked(ck):
    import IMTreatment.field_treatment as ft
    for gname, ax, ay in GRIDS[1:]:
        sh = (len(ax), len(ay))
        pts = [(i, j) for i in range(sh[0]) for j in range(sh[1])]
        if not ck.thorough:
            pts = pts[::3]
        for b in UNIFORM if ck.thorough else UNIFORM[:6:2] + UNIFORM[6:]:
            flow = Flow(ax, ay, (0., 0., 0., 0.), b)
            flow.turn = False
            for ij in pts:
                mask = np.zeros(sh, bool)
                mask[ij] = True
                for p in starts(ax, ay, 4 if ck.thorough else 3):
                    def fn(p=p, mask=mask):
                        got = aslist(ft.get_streamlines(
                            flow.field(mask), p, max_steps=60))
                        expect(len(got) == 1, "number of lines", len(got))
                        check_line(flow, got[0], p, 1, "length", .25, 60,
                                   mask=mask)
                    ck.case("masked|%s" % gname,
                            "uniform %s, %s masked, from %s" % (
                                b, ij, p.tolist()), fn,
                            state=("masked", gname, b, ij, tuple(p)))

                    def fn(p=p, mask=mask):
                        vf = flow.field(mask)
                        snap = fm.snap(vf)
                        got = aslist(ft.get_streamlines_fast(vf, p))
                        expect(len(got) == 1, "number of lines", len(got))
                        # the missing value is filled: still uniform
                        check_fast(flow, got[0], p, 1, .25)
                        expect(fm.snap(vf) == snap, "field modified")
                    i, j = ij
                    if 0 < i < sh[0] - 1 and 0 < j < sh[1] - 1:
                        ck.case("masked|%s|fast" % gname,
                                "uniform %s, %s masked, from %s" % (
                                    b, ij, p.tolist()), fn,
                                state=("maskedf", gname, b, ij, tuple(p)))


def boundary(ck):
    for gname, ax, ay in GRIDS:
        for fname, flow0 in flows(ax, ay, ck.thorough):
            for name, f, s in functions():
                flow = flow0.turned(s)
                for p in starts(ax, ay, 5 if ck.thorough else 3):
                    def fn(p=p):
                        vf = flow0.field()
                        stop = aslist(f(vf, p, max_steps=40))
                        hide = aslist(f(vf, p, max_steps=40,
                                        boundary_tr="hide"))
                        expect(len(stop) == 1, "number of lines", len(stop))
                        out = not flow.inside(stop[0].xy[-1])
                        on = not flow.inside(stop[0].xy[-1], -1e-7)
                        if out:
                            expect(hide == [], "line reaching the border "
                                   "is not hidden", lambda: len(hide))
                        elif not on:
                            expect(len(hide) == 1 and np.array_equal(
                                hide[0].xy, stop[0].xy),
                                "line staying in the field is hidden")
                    ck.case("hide|%s|%s" % (name, gname),
                            "%s %s from %s" % (gname, fname, p.tolist()), fn,
                            state=("hide", name, gname, fname, tuple(p)))


def nfds():
    return len(os.listdir("/proc/self/fd"))


def independent(ck):
    """several start points, given in every form, in and out of the field"""
    import IMTreatment.field_treatment as ft
    gname, ax, ay = GRIDS[0]
    cand = [(1., 1.), (2., 2.), (3., 1.), (0., 4.), (-1., 2.), (2., 5.)]
    fs = [("fast", ft.get_streamlines_fast, 0)] + functions()
    for fname, flow in flows(ax, ay, False):
        for name, f, s in fs:
            kw = {} if name == "fast" else {"max_steps": 30}
            alone = {}
            for r in (1, 2, 3):
                for sub in itertools.permutations(cand, r):
                    if r == 3 and not ck.thorough and sub[0] > sub[1]:
                        continue

                    def fn(sub=sub):
                        vf = flow.field()
                        got = aslist(f(vf, [list(q) for q in sub], **kw))
                        ins = [q for q in sub if flow.inside(q)]
                        expect(len(got) == len(ins), "number of lines",
                               lambda: (len(got), len(ins)))
                        for q, line in zip(ins, got):
                            if q not in alone:
                                alone[q] = aslist(f(vf, list(q),
                                                    **kw))[0].xy
                            expect(np.array_equal(alone[q], line.xy),
                                   "depends on the other start points",
                                   lambda: q)
                    ck.case("several|%s" % name, "%s from %s" % (fname, sub),
                            fn, state=("several", name, fname, sub))
            for form in ("tuple", "int list", "array", "int array",
                         "list of list"):
                def fn(form=form):
                    vf = flow.field()
                    q = {"tuple": (1., 3.), "int list": [1, 3],
                         "array": np.array([1., 3.]),
                         "int array": np.array([[1, 3]]),
                         "list of list": [[1, 3]]}[form]
                    keep = np.array(q)
                    n0 = nfds()
                    got = aslist(f(vf, q, **kw))
                    expect(nfds() == n0, "open files left behind",
                           lambda: (n0, nfds()))
                    want = aslist(f(vf, [1., 3.], **kw))
                    expect(len(got) == 1 and np.array_equal(
                        got[0].xy, want[0].xy), "form of the start point",
                        lambda: got[0].xy[:3].tolist())
                    expect(np.array_equal(keep, q), "start points modified",
                           lambda: q)
                ck.case("form|%s" % name, "%s %s" % (fname, form), fn,
                        state=("form", name, fname, form))


def extrema(ck):
    """a paraboloid's extremum is found from everywhere"""
    from IMTreatment import ScalarField
    ax, ay = np.linspace(0., 4., 9), np.linspace(-1., 3., 9)
    X, Y = np.meshgrid(ax, ay, indexing="ij")
    for ci, cj, sg in itertools.product((2, 4, 6), (2, 4, 6), (1, -1)):
        c = np.array([ax[ci], ay[cj]])
        for p in starts(ax[1:-1], ay[1:-1], 5 if ck.thorough else 3):
            def fn(p=p):
                sf = ScalarField()
                sf.import_from_arrays(ax, ay, sg*((X-c[0])**2 + (Y-c[1])**2),
                                      unit_x="m", unit_y="m", unit_values="K")
                snap = fm.snap(sf)
                got = np.asarray(sf.get_nearest_extrema(
                    [list(p)], extrema="min" if sg > 0 else "max"))
                expect(got.shape == (1, 2), "shape", lambda: got.shape)
                expect(np.all(np.abs(got[0] - c) <= .25), "extremum",
                       lambda: (got.tolist(), c.tolist()))
                expect(fm.snap(sf) == snap, "field modified")
            ck.case("extrema", "extremum of sign %d at %s from %s" % (
                sg, c.tolist(), p.tolist()), fn,
                state=("extrema", ci, cj, sg, tuple(p)))


def units(ck):
    """the lines do not depend on the units the field is given in"""
    import IMTreatment.field_treatment as ft
    gname, ax, ay = GRIDS[0]
    for fname, flow in flows(ax, ay, False):
        for (ux, uy, fx, fy), uv in itertools.product(
                [("mm", "mm", 1e3, 1e3), ("m", "mm", 1., 1e3)],
                ("m/s", "mm/s")):
            for p in starts(ax, ay, 3):
                def fn(p=p):
                    from IMTreatment import VectorField
                    want = aslist(ft.get_streamlines(flow.field(), p,
                                                     max_steps=20))[0]
                    vf = VectorField()
                    fv = 1e3 if uv == "mm/s" else 1.
                    vf.import_from_arrays(ax*fx, ay*fy, flow.vx*fv,
                                          flow.vy*fv, unit_x=ux, unit_y=uy,
                                          unit_values=uv)
                    got = aslist(ft.get_streamlines(
                        vf, p*np.array([fx, fy]), max_steps=20))[0]
                    head(got, p*np.array([fx, fy]), ux, uy)
                    n = min(len(got.xy), len(want.xy))
                    expect(abs(len(got.xy) - len(want.xy)) <= 1
                           and np.allclose(got.xy[:n]/np.array([fx, fy]),
                                           want.xy[:n], atol=1e-4),
                        "line depends on the units",
                        lambda: (got.xy[:3].tolist(), want.xy[:3].tolist()))
                ck.case("units|%s %s" % (ux, uy), "%s in %s %s %s from %s" % (
                    fname, ux, uy, uv, p.tolist()), fn,
                    state=("units", fname, ux, uy, uv, tuple(p)))


def descriptors(ck):
    """lines from the orientations of a point"""
    from IMTreatment.core.orientedpoints import OrientedPoints
    gname, ax, ay = GRIDS[0]
    for fname, flow in flows(ax, ay, False):
        for rev in (False, True, (False, True)):
            for p in starts(ax[2:-2], ay[2:-2], 3):
                def fn(p=p):
                    evs = np.array([[1., 0.], [0., 1.]])
                    op = OrientedPoints([p], [evs], unit_x="m", unit_y="m")
                    got = aslist(op.get_streamlines_from_orientations(
                        flow.field(), reverse_direction=rev))
                    expect(len(got) == 4, "number of lines", lambda: len(got))
                    k = 0
                    for n in range(2):
                        for sg in (-1, 1):
                            r = rev if isinstance(rev, bool) else rev[n]
                            q = p + sg*evs[n]*(ax[1] - ax[0])*.25
                            line = got[k]
                            k += 1
                            expect(np.allclose(line.xy[0], p)
                                   and np.allclose(line.xy[1], q),
                                   "first points", lambda: line.xy[:2])
                            xy = line.xy[1:]
                            within(flow, xy)
                            for a, b in zip(xy[:-1], xy[1:]):
                                v = flow.vel((a+b)/2)*(-1 if r else 1)
                                if (not flow.inside(b) or flow.A.any()
                                        and flow.stagnation(a, .2)):
                                    break
                                expect((b-a).dot(v) > 0, "sense of the line",
                                       lambda: (a, b, v))
                ck.case("orientations", "%s from %s reverse=%s" % (
                    fname, p.tolist(), rev), fn,
                    state=("orient", fname, tuple(p), str(rev)))
