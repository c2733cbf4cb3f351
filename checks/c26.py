"""C26: potential flow around bodies, against a closed-form panel method."""
import itertools

import numpy as np

from mc import fm
from mc.core import expect

TOL = 2e-6
SQUARE = [[0., 0.], [1., 0.], [1., 1.], [0., 1.]]
TRI = [[3., 0.], [4., .5], [3., 1.5]]
FLAT = [[-2., -1.], [1., -1.], [1., -.5], [-2., -.5]]
DIAM = [[0., -1.], [1., 0.], [0., 2.], [-1., 0.]]
PENTA = [[0., 0.], [2., -.5], [2.5, 1.], [1., 2.], [-.5, 1.]]
WALL = [[-2., 3.], [-4., 3.], [-4., 2.]]
WALL2 = [[2., -1.], [3., -2.]]
BODIES = {"square": (2, SQUARE), "triangle": (2, TRI), "flat": (2, FLAT),
          "diamond": (2, DIAM), "pentagon": (2, PENTA), "wall": (1, WALL),
          "wall 2": (1, WALL2),
          "closed square": (2, SQUARE + SQUARE[:1]),
          "small": (2, [[.2*x, .2*y] for x, y in SQUARE])}


# -- closed form --------------------------------------------------------------

def split(dim, coords, res):
    """panels [(a, b)]: the shortest side is cut in `res` pieces"""
    pts = [np.array(p, float) for p in coords]
    if dim == 2 and not np.array_equal(pts[0], pts[-1]):
        pts.append(pts[0])
    lens = [np.hypot(*(b - a)) for a, b in zip(pts, pts[1:])]
    d = min(lens)/res
    out = []
    for a, b, l in zip(pts, pts[1:], lens):
        n = max(1, int(np.round(l/d)))
        q = [a + (b - a)*k/n for k in range(n + 1)]
        q[-1] = b
        out += list(zip(q, q[1:]))
    return out


def influence(p, a, b):
    """velocity at p of a source panel of unit strength"""
    L = np.hypot(*(b - a))
    t = (b - a)/L
    n = np.array([t[1], -t[0]])
    s, h = np.dot(p - a, t), np.dot(p - a, n)
    ra, rb = np.hypot(*(p - a)), np.hypot(*(p - b))
    vt = np.log(ra/rb)/(2*np.pi)
    vn = 0. if abs(h) < 1e-13 else (np.arctan(s/h) + np.arctan((L - s)/h)) \
        / (2*np.pi)
    return vt*t + vn*n


class Ref(object):
    def __init__(self, u, alpha, bodies):
        self.v0 = u*np.array([np.cos(alpha), np.sin(alpha)])
        self.u = u
        self.panels = [p for dim, c, res in bodies for p in split(dim, c, res)]
        N = len(self.panels)
        if N == 0:
            self.sigma = []
            return
        A, rhs = np.zeros((N, N)), np.zeros(N)
        for i, (a, b) in enumerate(self.panels):
            c = (a + b)/2
            t = (b - a)/np.hypot(*(b - a))
            n = np.array([t[1], -t[0]])
            for j, (p, q) in enumerate(self.panels):
                A[i, j] = .5 if i == j else np.dot(influence(c, p, q), n)
            rhs[i] = -np.dot(self.v0, n)
        self.sigma = np.linalg.solve(A, rhs)
        self.cond = np.linalg.cond(A)

    def __call__(self, p, skip=None):
        v = self.v0.copy()
        for k, (s, (a, b)) in enumerate(zip(self.sigma, self.panels)):
            if k != skip:
                v = v + s*influence(np.array(p, float), a, b)
        return v

    def wall(self, i):
        """speed along the i-th panel, at its middle"""
        a, b = self.panels[i]
        t = (b - a)/np.hypot(*(b - a))
        return np.dot(self((a + b)/2, skip=i), t)*t


def dist(p, a, b):
    t = np.clip(np.dot(p - a, b - a)/np.dot(b - a, b - a), 0, 1)
    return np.hypot(*(p - a - t*(b - a)))


def inside(p, coords):
    """even-odd rule (never asked for points near a side)"""
    c = np.array(coords, float)
    k = False
    for (x1, y1), (x2, y2) in zip(c, np.roll(c, -1, axis=0)):
        if (y1 > p[1]) != (y2 > p[1]) and \
                p[0] < (x2 - x1)*(p[1] - y1)/(y2 - y1) + x1:
            k = not k
    return k


GX = np.array([-3.1, -1.2, -.2, .35, .8, 1.2, 2.6, 3.3, 5.])
GY = np.array([-1.4, -.7, -.1, .45, 1.1, 2.4])


def near(ref, p, d=.02):
    return any(dist(np.array(p), a, b) < d for a, b in ref.panels)


def build(u, alpha, bodies):
    from IMTreatment.potential_flow import System
    s = System(u_inf=u, alpha=alpha)
    for dim, c, res in bodies:
        s.add_object(dim, c, kind="wall", res=res)
    return s


def same(got, want, scale):
    got = np.array(got, float)
    return got.shape == want.shape and np.all(
        np.abs(got - want) <= TOL*scale)


def run(ck):
    single(ck)
    continuation(ck)
    histories(ck)
    pressure(ck)
    protocols(ck)


def families(ck):
    names = ["square", "triangle", "flat", "diamond", "pentagon", "wall",
             "closed square", "small"]
    sets = [[n] for n in names] + [["square", "triangle"],
                                   ["triangle", "wall"], ["small", "flat"],
                                   ["wall", "square", "triangle"], []]
    for st in sets:
        for res in ((1, 2, 3) if ck.thorough else (1, 2)):
            if "flat" in st and res > 1 and not ck.thorough:
                continue
            if st == ["small", "flat"] and res > 1:
                continue
            for u, al in itertools.product(
                    (1., 2.5) if ck.thorough else (2.5,),
                    (0., np.pi/6, np.pi/2, -2.)):
                yield st, res, u, al, [BODIES[n] + (res,) for n in st]


def single(ck):
    for st, res, u, al, bodies in families(ck):
        desc = "%s res %d, u %s, angle %.2f" % (st, res, u, al)
        ref = Ref(u, al, bodies)
        scale = max(u, np.max(np.abs(ref.sigma))) if st else u

        def points():
            s = build(u, al, bodies)
            k = 0
            for p in itertools.product(GX, GY):
                if near(ref, p):
                    continue
                got = s.compute_velocity(*p)
                want = ref(p)
                expect(same(got, want, scale), "velocity",
                       lambda: (p, tuple(got), tuple(want)))
                k += 1
            far = s.compute_velocity(1e7, -2e7)
            expect(same(far, ref.v0, scale), "velocity far away",
                   lambda: (far, ref.v0))
            return k
        ck.case("velocity", desc, points, state=("v", tuple(st), res, u, al))

        def panels():
            s = build(u, al, bodies)
            s.compute_velocity(50., 50.)
            got = list(s.get_solid_panels())
            expect(len(got) == len(ref.panels), "number of panels",
                   lambda: (len(got), len(ref.panels)))
            left = list(range(len(got)))
            for pan in got:
                m = [i for i in left if
                     np.allclose([pan.xa, pan.ya], ref.panels[i][0]) and
                     np.allclose([pan.xb, pan.yb], ref.panels[i][1])]
                expect(len(m) == 1, "panel", lambda: (
                    (pan.xa, pan.ya), (pan.xb, pan.yb)))
                i = m[0]
                left.remove(i)
                a, b = ref.panels[i]
                want = ref.wall(i)
                v = s.compute_velocity(pan.xc, pan.yc)
                expect(same(v, want, scale), "velocity on the wall",
                       lambda: (v, want))
                n = np.array([(b - a)[1], -(b - a)[0]])/np.hypot(*(b - a))
                # no flow through the wall just outside of it
                w = s.compute_velocity(*((a + b)/2 + 2e-4*n))
                expect(abs(np.dot(w, n)) <= 2e-2*scale, "flow through",
                       lambda: (w, n))
            return len(got)
        if st:
            ck.case("wall", desc, panels, state=("w", tuple(st), res, u, al))

        def grid(remove):
            s = build(u, al, bodies)
            gx = GX[::2] if res > 1 else GX
            vf = s.compute_velocity_on_grid(gx, GY, remove_solid=remove)
            expect(np.array_equal(vf.axe_x, gx) and
                   np.array_equal(vf.axe_y, GY), "grid")
            expect(fm.same_unit(vf.unit_values, fm.U("m/s")) and
                   fm.same_unit(vf.unit_x, fm.U("m")) and
                   fm.same_unit(vf.unit_y, fm.U("m")), "unit")
            ru, rv = s.compute_velocity_on_grid(gx, GY, raw=True,
                                                remove_solid=remove)
            k = 0
            for (i, x), (j, y) in itertools.product(enumerate(gx),
                                                    enumerate(GY)):
                if near(ref, (x, y)):
                    continue
                sol = remove and any(d == 2 and inside((x, y), c)
                                     for d, c, r in bodies)
                expect(bool(vf.mask[i, j]) == sol, "points in a solid",
                       lambda: (x, y, vf.mask[i, j]))
                if sol:
                    continue
                want = ref((x, y))
                expect(same((vf.comp_x[i, j], vf.comp_y[i, j]), want, scale),
                       "velocity on a grid", lambda: ((x, y), want))
                expect(ru[j, i] == vf.comp_x[i, j] and
                       rv[j, i] == vf.comp_y[i, j], "raw")
                k += 1
            return k
        for remove in (False, True):
            if res == 1 or ck.thorough:
                ck.case("grid", desc + " remove %s" % remove,
                        lambda: grid(remove),
                        state=("g", tuple(st), res, u, al, remove))

        def line(a, b, n, remove):
            s = build(u, al, bodies)
            px, py = s.compute_velocity_on_line(a, b, res=n,
                                                remove_solid=remove)
            rx, ry = s.compute_velocity_on_line(a, b, res=n, raw=True,
                                                remove_solid=remove)
            a, b = np.array(a), np.array(b)
            sg = -1. if b[0] < a[0] or b[0] == a[0] and b[1] < a[1] else 1.
            pts = [a + (b - a)*k/(n - 1) for k in range(n)]
            ab = [sg*np.hypot(*(p - a)) for p in pts]
            order = np.argsort(ab)
            expect(len(px.x) == n and fm.close(px.x, np.array(ab)[order]) and
                   fm.close(py.x, np.array(ab)[order]),
                   "distance along the line", lambda: (list(px.x), ab))
            expect(all(fm.same_unit(q.unit_x, fm.U("m")) and
                       fm.same_unit(q.unit_y, fm.U("m/s"))
                       for q in (px, py)), "unit")
            for m, k in enumerate(order):
                p = pts[k]
                if near(ref, p):
                    continue
                sol = remove and any(d == 2 and inside(p, c)
                                     for d, c, r in bodies)
                expect(bool(px.mask[m]) == sol and bool(py.mask[m]) == sol,
                       "points in a solid", lambda: (p, px.mask))
                if sol:
                    continue
                want = ref(p)
                expect(same((px.y[m], py.y[m]), want, scale),
                       "velocity on a line",
                       lambda: (p, (px.y[m], py.y[m]), want))
                expect(same((rx[k], ry[k]), want, scale), "raw line",
                       lambda: (p, (rx[k], ry[k]), want))
        if res == 1:
            for a, b in (((-3., .3), (4.4, .3)), ((4.4, .3), (-3., .3)),
                         ((.3, -2.), (.3, 3.)), ((.3, 3.), (.3, -2.)),
                         ((-1.5, -1.7), (3.6, 2.2)),
                         ((-1.5, 2.2), (3.6, -1.7)),
                         ((3.6, -1.7), (-1.5, 2.2)),
                         ((3.6, 2.2), (-1.5, -1.7))):
                for remove in (False, True):
                    ck.case("line", desc + " from %s to %s remove %s" % (
                        a, b, remove), lambda: line(a, b, 7, remove),
                        state=("l", tuple(st), u, al, a, b, remove))


def continuation(ck):
    """points of the fluid in line with a panel are not on the panel"""
    for name in ("square", "triangle", "diamond", "pentagon", "small"):
        bodies = [BODIES[name] + (1,)]
        ref = Ref(1., .4, bodies)
        for k, (a, b) in enumerate(ref.panels):
            for f in (-.8, -.2, -.1, 1.1, 1.15, 1.2, 1.5):
                p = a + f*(b - a)

                def fn():
                    if near(ref, p, 1e-3):
                        return
                    s = build(1., .4, bodies)
                    v, w = s.compute_velocity(*p), ref(p)
                    expect(same(v, w, 2.), "velocity in line with a panel",
                           lambda: (tuple(p), v, w))
                ck.case("velocity|in line with a panel",
                        "%s, panel %d, %.2f" % (name, k, f), fn,
                        state=("cont", name, k, f))


def histories(ck):
    from IMTreatment.potential_flow import System
    names = ["square", "triangle", "wall", "wall 2", "read", "grid", "solve", "line"]
    pts = [(-1.2, .45), (2.2, 1.3)]
    depth = 4 if ck.thorough else 3
    refs = {}
    for n in range(1, depth + 1):
        for seq in itertools.product(names, repeat=n):
            if any(seq.count(b) > 1 for b in BODIES):
                continue

            def fn():
                s = System(u_inf=1.5, alpha=.3)
                have = []
                for op in list(seq) + ["read"]:
                    if op in BODIES:
                        dim, c = BODIES[op]
                        s.add_object(dim, c, res=1)
                        have.append(op)
                        continue
                    if op == "solve":
                        if have:
                            s.solving_sigma()
                        continue
                    key = tuple(have)
                    if key not in refs:
                        refs[key] = Ref(1.5, .3, [BODIES[b] + (1,)
                                                  for b in have])
                    r = refs[key]
                    for p in pts:
                        if op == "read":
                            v = s.compute_velocity(*p)
                        elif op == "grid":
                            f = s.compute_velocity_on_grid(
                                np.array([p[0], p[0] + .1]),
                                np.array([p[1], p[1] + .1]))
                            v = f.comp_x[0, 0], f.comp_y[0, 0]
                        else:
                            q = s.compute_velocity_on_line(
                                p, (p[0] + .1, p[1]), res=2)
                            v = q[0].y[0], q[1].y[0]
                        expect(same(v, r(p), 3.), "velocity after a history",
                               lambda: (op, p, v, r(p)))
            ck.case("history|%s" % seq[-1], "%s" % (seq,), fn,
                    state=("hist", seq))


def pressure(ck):
    from IMTreatment import VectorField, Profile
    from IMTreatment.potential_flow import System
    ax, ay = np.array([0., 1.]), np.array([2., 3., 5.])
    for n, pat in enumerate(itertools.product((0., 1., -2.), repeat=6)):
        for u in (1., 2.5):
            def fn():
                vf = VectorField()
                cx = np.array(pat).reshape(2, 3)
                cy = .5 + cx[::-1]
                mask = cx == -2.
                if mask.all():
                    return
                vf.import_from_arrays(ax, ay, cx, cy, mask=mask, unit_x="m",
                                      unit_y="m", unit_values="m/s")
                s = System(u_inf=u, alpha=(0., .7, -2.)[n % 3])
                before = fm.snap(vf)
                sf = s.compute_pressure_from_velocity(vf)
                want = 1. - (cx**2 + cy**2)/u**2
                expect(np.array_equal(sf.mask, mask), "mask")
                expect(fm.close(sf.values[~mask], want[~mask]), "pressure",
                       lambda: (sf.values, want))
                expect(np.array_equal(sf.axe_x, ax) and
                       np.array_equal(sf.axe_y, ay), "grid")
                raw = s.compute_pressure_from_velocity(vf, raw=True)
                expect(fm.close(np.asarray(raw)[~mask], want[~mask]), "raw")
                expect(fm.snap(vf) == before, "argument modified")
                x = np.arange(6.)
                m1 = np.array(pat) == -2.
                m2 = np.array(pat) == 1.
                p1 = Profile(x, np.array(pat), mask=m1, unit_x="m",
                             unit_y="m/s")
                p2 = Profile(x, x + 1., mask=m2, unit_x="m", unit_y="m/s")
                b = fm.snap(p1), fm.snap(p2)
                pr = s.compute_pressure_from_velocity((p1, p2))
                mm = m1 | m2
                w = 1. - (np.array(pat)**2 + (x + 1.)**2)/u**2
                expect(np.array_equal(pr.mask, mm) and
                       fm.close(pr.x, x) and
                       fm.close(pr.y[~mm], w[~mm]), "pressure on a line",
                       lambda: (pr.y, w, pr.mask))
                expect((fm.snap(p1), fm.snap(p2)) == b, "argument modified")
            ck.case("pressure", "%s u %s" % (pat, u), fn,
                    state=("press", pat, u))


def protocols(ck):
    """where the pressure in front of a square obstacle has a given value"""
    from IMTreatment.potential_flow import get_gradP_length
    for D, perc, res in itertools.product((1., .1, 4.), (.1, .3, .6),
                                          (1, 2) if not ck.thorough
                                          else (1, 2, 4)):
        def fn():
            x = get_gradP_length(D=D, Vd=1.7, perc=perc, res_pot=res,
                                 eps=1e-5)
            h = D/2.
            r = Ref(1.7, 0., [(2, [[-h, -h], [h, -h], [h, h], [-h, h]],
                               res)])
            cp = 1. - np.sum(r((-x, 0.))**2)/1.7**2
            expect(x > h and abs(cp - perc) < 1e-4,
                   "position of the pressure", lambda: (x, cp, perc))
        ck.case("obstacle", "D %s, %s of the pressure, res %d" % (
            D, perc, res), fn, state=("obst", D, perc, res))
