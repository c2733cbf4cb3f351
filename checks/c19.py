"""C19: vortex models and systems of vortices, walls and custom fields."""
import itertools

import numpy as np

from mc import fm
from mc.core import expect

PI = np.pi
PTS = [(x, y) for x in (-2., -.5, 0., .75, 3.) for y in (-1.5, 0., .25, 2.)]
FEW = [(-.5, .25), (2., 1.5), (0., -3.)]


# -- the models, as functions of the displacement from the centre ----------
def swirl(f, r_in=None):
    """flow of azimuthal velocity f(r) (and radial velocity r_in(r))"""
    def flow(x, y):
        r = np.hypot(x, y)
        if r == 0:
            return 0., 0.
        t, n = f(r), (r_in(r) if r_in else 0.)
        return (n*x - t*y)/r, (n*y + t*x)/r
    return flow


def chaplygin(U, a, root):
    from scipy.special import jv, jn_zeros
    k = jn_zeros(1, root)[-1]/a

    def psi(x, y):
        r = np.hypot(x, y)
        if r == 0:
            return 0.
        s = y/r
        if r < a:
            return -2*U/(k*jv(0, k*a))*jv(1, k*r)*s
        return -U*(r - a**2/r)*s

    def flow(x, y):
        h = 1e-5*a
        return ((psi(x, y + h) - psi(x, y - h))/(2*h),
                -(psi(x + h, y) - psi(x - h, y))/(2*h))
    return flow


def hill(U, a):
    """axisymmetric around x: velocities from the Stokes stream function"""
    def psi(x, y):
        r = np.hypot(x, y)
        if r < a:
            return -.75*U*(1 - r**2/a**2)*y**2
        return .5*U*(1 - a**3/r**3)*y**2

    def flow(x, y):
        h = 1e-5*a
        if y == 0:
            r = abs(x)
            u = -1.5*U*(1 - r**2/a**2) if r < a else U*(1 - a**3/r**3)
            return u, 0.
        return ((psi(x, y + h) - psi(x, y - h))/(2*h*y),
                -(psi(x + h, y) - psi(x - h, y))/(2*h*y))
    return flow


def models():
    """(name, constructor of the vortex, flow around its centre, tolerance)"""
    from IMTreatment.vortex_creation import vortex_creation as vc
    out = []
    for s in (1., -1., .5, -3.):
        out.append(("solid %s" % s, lambda x, y, s=s, **k: vc.SolidVortex(
            x, y, omega=s, **k), swirl(lambda r, s=s: s*r), 1e-9))
        out.append(("free %s" % s, lambda x, y, s=s, **k: vc.FreeVortex(
            x, y, gamma=s, **k), swirl(lambda r, s=s: s/(2*PI*r)), 1e-9))
        for rv in (.5, 1., 2.):
            out.append(("rankine %s %s" % (s, rv),
                        lambda x, y, s=s, rv=rv, **k: vc.RankineVortex(
                            x, y, circ=s, rv=rv, **k),
                        swirl(lambda r, s=s, rv=rv: s/(2*PI)*(
                            r/rv**2 if r <= rv else 1/r)), 1e-9))
            out.append(("oseen %s %s" % (s, rv),
                        lambda x, y, s=s, rv=rv, **k: vc.LambOseenVortex(
                            x, y, ksi=s, t=rv, viscosity=.25, **k),
                        swirl(lambda r, s=s, rv=rv: s/(2*PI*r)*(
                            1 - np.exp(-r**2/rv))), 1e-9))
            out.append(("burger %s %s" % (s, rv),
                        lambda x, y, s=s, rv=rv, **k: vc.BurgerVortex(
                            x, y, ksi=s, alpha=rv, viscosity=.25, **k),
                        swirl(lambda r, s=s, rv=rv: s/(2*PI*r)*(
                            1 - np.exp(-rv*r**2)),
                            lambda r, rv=rv: -rv*r/2), 1e-9))
            for nr in (0., .5):
                def sp(r, s=s, rv=rv):
                    al = 16*np.log(2)/rv**2
                    return s/(2*PI*r)*(1 - np.exp(-al*r**2/4))
                out.append(("perso %s %s %s" % (s, rv, nr),
                            lambda x, y, s=s, rv=rv, nr=nr, **k:
                            vc.PersoVortex(x, y, radius=rv, circ=s,
                                           node_ratio=nr, **k),
                            swirl(sp, lambda r, f=sp, nr=nr: -abs(f(r))*nr),
                            1e-9))
            if rv != 2.:
                for root in (1, 2):
                    out.append(("chaplygin %s %s %d" % (s, rv, root),
                                lambda x, y, s=s, rv=rv, root=root, **k:
                                vc.LambChaplyginVortex(
                                    x, y, U=s, rv=rv, Bessel_root_nmb=root,
                                    **k), chaplygin(s, rv, root), 1e-5))
                for d in (1, -1):
                    out.append(("hill %s %s %d" % (s, rv, d),
                                lambda x, y, s=s, rv=rv, d=d, **k:
                                vc.HillVortex(x, y, U=s, rv=rv, rot_dir=d,
                                              **k), hill(s*d, rv), 1e-5))
    return out


def near(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(
        np.abs(a - b) <= tol*(1 + np.abs(b))))


def at(flow, x0, y0):
    return lambda x, y: flow(x - x0, y - y0)


def mirror(flow, walls):
    """flow plus its images in the walls (at most one per direction)"""
    fs = [flow]
    for d, pos in walls:
        if d == "x":
            fs += [(lambda x, y, f=f, p=pos: (
                lambda v: (-v[0], v[1]))(f(2*p - x, y))) for f in fs]
        else:
            fs += [(lambda x, y, f=f, p=pos: (
                lambda v: (v[0], -v[1]))(f(x, 2*p - y))) for f in fs]
    return fs


def total(fs, x, y):
    v = [f(x, y) for f in fs]
    return (sum(a for a, b in v), sum(b for a, b in v))


def run(ck):
    profiles(ck)
    images(ck)
    sequences(ck)
    evolution(ck)
    presets(ck)


def profiles(ck):
    ax, ay = [-1., 0., .5, 2.], [-.5, 0., 1.]
    for name, mk, flow, tol in models():
        for x0, y0 in [(0., 0.), (.75, .25), (-1., 2.)]:
            kind = name.split()[0]

            def fn():
                v = mk(x0, y0)
                for x, y in PTS:
                    r = np.hypot(x - x0, y - y0)
                    if tol > 1e-6 and any(abs(r - b) < 1e-3 for b in
                                          (.5, 1., 2.)):
                        continue
                    got = v.get_vector(x, y)
                    expect(near(got, at(flow, x0, y0)(x, y), tol),
                           "velocity of " + kind,
                           lambda: ((x, y), got, at(flow, x0, y0)(x, y)))
                expect((v.x0, v.y0) == (x0, y0), "position")
            ck.case("model|" + kind, "%s at %s" % (name, (x0, y0)), fn,
                    state=("model", name, x0, y0))

            def fn():
                v = mk(x0, y0)
                vf = v.get_vector_field(ax, ay, unit_x="m", unit_y="mm")
                o = fm.wellformed(vf)
                want = np.array([[v.get_vector(x, y) for y in ay]
                                 for x in ax])
                expect(np.array_equal(o.ax, ax) and np.array_equal(o.ay, ay),
                       "grid")
                expect(near(o.comps[0], want[..., 0], 1e-12)
                       and near(o.comps[1], want[..., 1], 1e-12)
                       and not o.mask.any(), "field of the vortex")
                expect(fm.same_unit(o.uv, fm.U("m/s"))
                       and fm.same_unit(o.ux, fm.U("m"))
                       and fm.same_unit(o.uy, fm.U("mm")), "units")
            ck.case("model field|" + kind, "%s at %s" % (name, (x0, y0)), fn,
                    state=("modelf", name, x0, y0))

            def fn():
                v = mk(x0, y0, movable=False)
                c = v.copy()
                expect(c is not v and c.get_vector(2., 3.)
                       == v.get_vector(2., 3.), "copy")
                try:
                    v.x0 = 5.
                except Exception:
                    pass
                else:
                    expect(False, "fixed vortex moved")
                w = mk(x0, y0)
                w.x0, w.y0 = 4., -1.
                for x, y in PTS:
                    expect(near(w.get_vector(x, y), mk(4., -1.).get_vector(
                        x, y), 1e-12), "moved vortex")
                expect((v.x0, v.y0) == (x0, y0), "moved the other vortex")
            ck.case("move|" + kind, "%s at %s" % (name, (x0, y0)), fn,
                    state=("move", name, x0, y0))


def images(ck):
    """no flow across the walls, for every vortex model"""
    from IMTreatment.vortex_creation import vortex_creation as vc
    wsets = [[("x", 0.)], [("y", 0.)], [("y", -1.)], [("x", 2.5)],
             [("x", 0.), ("y", 0.)], [("y", 1.), ("x", -1.)]]
    for name, mk, flow, tol in models():
        for x0, y0 in [(1., 2.), (.75, .25)]:
            for walls in wsets:
                kind = name.split()[0]

                def fn():
                    vs = vc.VortexSystem()
                    for d, p in walls:
                        vs.add_wall(vc.Wall(**{d: p}))
                    vs.add_vortex(mk(x0, y0))
                    one = mk(x0, y0)
                    fs = mirror(one.get_vector, walls)
                    for x, y in PTS:
                        got = vs.get_vector(x, y)
                        expect(near(got, total(fs, x, y), 1e-8),
                               "images of " + kind,
                               lambda: ((x, y), got, total(fs, x, y)))
                    for d, p in walls:
                        for q in (-3., -.5, .3, 2.):
                            v = vs.get_vector(*((p, q) if d == "x"
                                                else (q, p)))
                            expect(abs(v[0 if d == "x" else 1])
                                   <= 1e-9*(1 + np.hypot(*v)),
                                   "flow across the wall by " + kind,
                                   lambda: (d, p, q, v))
                ck.case("image|" + kind, "%s at %s, walls %s" % (
                    name, (x0, y0), walls), fn,
                    state=("image", name, x0, y0, str(walls)))


class Model(object):
    def __init__(self):
        self.v, self.w, self.c = [], [], []

    def key(self):
        return (tuple(n for n, f in self.v), tuple(self.w),
                tuple(n for n, f in self.c))


# members of the systems: flows known exactly
def members():
    from IMTreatment.vortex_creation import vortex_creation as vc
    vort = {"A": (lambda: vc.FreeVortex(1., 2., gamma=2.),
                  at(swirl(lambda r: 1/(PI*r)), 1., 2.)),
            "B": (lambda: vc.SolidVortex(-.5, 1., omega=-.5),
                  at(swirl(lambda r: -.5*r), -.5, 1.)),
            "C": (lambda: vc.RankineVortex(2., -1., circ=-1., rv=.5),
                  at(swirl(lambda r: -1/(2*PI)*(r/.25 if r <= .5 else 1/r)),
                     2., -1.))}
    cf = {"F": (lambda: vc.CustomField(lambda x, y: (x + 2*y, 1. - x),
                                       unit_values="m/s"),
                lambda x, y: (x + 2*y, 1. - x)),
          "G": (lambda: vc.CustomField(lambda x, y: (1000.*y, 500.),
                                       unit_values="mm/s"),
                lambda x, y: (y, .5))}
    walls = {"X": ("x", -2.), "Y": ("y", -2.5)}
    return vort, cf, walls


def sequences(ck):
    from IMTreatment.vortex_creation import vortex_creation as vc
    vort, cf, walls = members()
    shared = {n: mk() for n, (mk, f) in list(vort.items()) + list(cf.items())}
    ax, ay = [-.5, .5, 2.], [.25, 1.5]

    def observe(vs, m, how):
        fs = {n: mirror(f, [walls[w] for w in m.w]) for n, f in m.v}
        everything = [g for n, f in m.v for g in fs[n]] + [f for n, f in m.c]
        expect(len(vs.vortex) == len(m.v) and vs.nmb_vortex == len(m.v),
               "number of vortices",
               lambda: (len(vs.vortex), vs.nmb_vortex, len(m.v)))
        if how == "vector":
            for x, y in FEW:
                got = vs.get_vector(x, y)
                expect(near(got, total(everything, x, y), 1e-9),
                       "velocity", lambda: ((x, y), got,
                                            total(everything, x, y)))
        elif how == "field":
            o = fm.wellformed(vs.get_vector_field(ax, ay, unit_x="m",
                                                  unit_y="m"))
            want = np.array([[total(everything, x, y) for y in ay]
                             for x in ax])
            expect(near(o.comps[0], want[..., 0], 1e-9)
                   and near(o.comps[1], want[..., 1], 1e-9), "field",
                   lambda: (o.comps[0].tolist(), want[..., 0].tolist()))
            expect(fm.same_unit(o.uv, fm.U("m/s")) and not o.mask.any(),
                   "unit of the field")
        elif how == "each":
            for x, y in FEW:
                v, vi, c, ci = vs.get_compounded_vector(x, y)
                expect(list(vi) == list(range(len(m.v)))
                       and list(ci) == list(range(len(m.c))), "ids",
                       lambda: (list(vi), list(ci)))
                for k, (n, f) in enumerate(m.v):
                    expect(near(v[k], total(fs[n], x, y), 1e-9),
                           "contribution of a vortex", lambda: (n, v[k]))
                    one = vs.get_vector(x, y, vortex_ids=[k], cf_ids="none")
                    expect(near(one, v[k], 1e-12), "filter by id")
                for k, (n, f) in enumerate(m.c):
                    expect(near(c[k], f(x, y), 1e-9),
                           "contribution of a custom field",
                           lambda: (n, c[k]))
                    one = vs.get_vector(x, y, vortex_ids="none", cf_ids=[k])
                    expect(near(one, c[k], 1e-12), "filter by id")
        elif how == "detailed":
            for x, y in FEW:
                v, vi, c, ci = vs.get_compounded_vector(x, y, detailed=True)
                expect(len(v) == len(vi) == len(m.v)*2**len(m.w)
                       and len(c) == len(ci) == len(m.c),
                       "number of contributions",
                       lambda: (len(v), len(c), m.key()))
                for k, (n, f) in enumerate(m.v):
                    mine = [v[i] for i in range(len(v)) if vi[i] == k]
                    want = [g(x, y) for g in fs[n]]
                    expect(len(mine) == len(want) and near(
                        sorted(map(tuple, mine)), sorted(want), 1e-9),
                        "contributions of a vortex and its images",
                        lambda: (mine, want))
                    expect(near(v[k], want[0], 1e-9), "own contribution")
                for k, (n, f) in enumerate(m.c):
                    expect(near(c[k], f(x, y), 1e-9),
                           "contribution of a custom field")

    def step(vs, m, op):
        """apply op to both; False when it does not apply"""
        if op in vort:
            vs.add_vortex(shared[op])
            m.v.append((op, vort[op][1]))
        elif op in cf:
            vs.add_custom_field(shared[op])
            m.c.append((op, cf[op][1]))
        elif op in walls:
            if op in m.w:
                return False
            d, p = walls[op]
            vs.add_wall(vc.Wall(**{d: p}))
            m.w.append(op)
        elif op.startswith("del"):
            k = int(op[3:])
            if not -len(m.v) <= k < len(m.v):
                return False
            vs.remove_vortex(k)
            m.v.pop(k)
        elif op == "copy":
            # what is done to a copy stays in the copy
            c = vs.copy()
            c.add_vortex(shared["C"])
            c.add_wall(vc.Wall(x=7.))
            c.add_custom_field(shared["F"])
            c.get_vector(0., 0.)
            if m.v:
                c.remove_vortex(0)
        else:
            observe(vs, m, op)
        return True

    looks = ["vector", "field", "each", "detailed"]
    alphabet = ["A", "B", "X", "Y", "F", "G", "del0", "del-1", "del1",
                "copy", "vector", "detailed"]
    depth = 5 if ck.thorough else 4
    for n in range(0, depth + 1):
        for seq in itertools.product(alphabet, repeat=n):
            # prune: trailing observations, repeated looks
            if n and seq[-1] in ("vector", "detailed", "copy"):
                continue
            if any(a == b and a in ("vector", "detailed", "copy")
                   for a, b in zip(seq, seq[1:])):
                continue
            if n == 5 and len(set(seq) & {"F", "G"}) == 2:
                continue
            key = Model()
            ok = True
            nv, ws = 0, set()
            for op in seq:
                if op in vort:
                    nv += 1
                elif op in walls:
                    ok &= op not in ws
                    ws.add(op)
                elif op.startswith("del"):
                    k = int(op[3:])
                    ok &= -nv <= k < nv
                    nv -= 1
            if not ok:
                continue
            for look in looks:
                def fn(seq=seq, look=look):
                    vs, m = vc.VortexSystem(), Model()
                    for op in seq:
                        step(vs, m, op)
                    observe(vs, m, look)
                    for k in shared:
                        expect(shared[k].id == 0, "object given to the "
                               "system modified", lambda: k)
                ck.case("sequence|" + look, "%s then %s" % (
                    " ".join(seq), look), fn, state=("seq", seq, look))
    # larger systems, already evaluated, then changed
    more = ["A", "B", "X", "Y", "F", "del0", "del1", "del2", "del-2",
            "vector"]
    for base in (["A", "B", "C", "X"], ["Y", "C", "A", "B"],
                 ["A", "B", "C", "X", "Y", "F", "G"], ["B", "A", "X", "Y"]):
        for first in ("vector", "each"):
            for n in range(1, 4 if ck.thorough else 3):
                for tail in itertools.product(more, repeat=n):
                    def fn(look):
                        vs, m = vc.VortexSystem(), Model()
                        for op in base + [first] + list(tail):
                            step(vs, m, op)
                        observe(vs, m, look)
                    if tail[-1] == "vector":
                        continue
                    for look in looks:
                        ck.case("larger|" + look, "%s %s %s then %s" % (
                            " ".join(base), first, " ".join(tail), look),
                            lambda: fn(look),
                            state=("larger", tuple(base), first, tail, look))
    # order of the additions
    for perm in itertools.permutations(["A", "B", "X", "Y", "F"]):
        def fn():
            vs, m = vc.VortexSystem(), Model()
            for op in perm:
                step(vs, m, op)
            for look in looks:
                observe(vs, m, look)
        ck.case("order", " ".join(perm), fn, state=("order", perm))
    # refusals
    for what, bad in [("vortex", lambda vs: vs.add_vortex(vc.Wall(x=1.))),
                      ("wall", lambda vs: vs.add_wall(shared["A"])),
                      ("field", lambda vs: vs.add_custom_field(shared["A"])),
                      ("index", lambda vs: vs.remove_vortex(4)),
                      ("negative index", lambda vs: vs.remove_vortex(-4))]:
        def fn():
            vs, m = vc.VortexSystem(), Model()
            for op in ("A", "X", "F"):
                step(vs, m, op)
            try:
                bad(vs)
            except Exception:
                pass
            else:
                expect(False, "accepted")
            for look in looks:
                observe(vs, m, look)
        ck.case("refused|" + what, what, fn, state=("refused", what))


def evolution(ck):
    from IMTreatment.vortex_creation import vortex_creation as vc
    vort, cf, walls = members()
    sets = [c for n in (1, 2, 3) for c in itertools.product("ABC", repeat=n)
            if len(set(c)) == n]
    for vs_, ws, cs, fixed, dt in itertools.product(
            sets, ("", "X", "Y", "XY"), ("", "F"), (False, True),
            (.1, .5)):
        def fn():
            vs = vc.VortexSystem()
            pos = []
            for i, n in enumerate(vs_):
                v = vort[n][0]()
                if fixed and i == 0:
                    v.movable = False
                vs.add_vortex(v)
                pos.append([v.x0, v.y0])
            for w in ws:
                vs.add_wall(vc.Wall(**{walls[w][0]: walls[w][1]}))
            for c in cs:
                vs.add_custom_field(cf[c][0]())
            prof = {"A": swirl(lambda r: 1/(PI*r)),
                    "B": swirl(lambda r: -.5*r),
                    "C": swirl(lambda r: -1/(2*PI)*(
                        r/.25 if r <= .5 else 1/r))}

            def flows(pos):
                fs = []
                for n, p in zip(vs_, pos):
                    fs += mirror(at(prof[n], *p), [walls[w] for w in ws])
                return fs + [cf[c][1] for c in cs]
            traj = [pos]
            for k in range(3):
                fs = flows(traj[-1])
                traj.append([p if fixed and i == 0 else
                             [p[0] + dt*total(fs, *p)[0],
                              p[1] + dt*total(fs, *p)[1]]
                             for i, p in enumerate(traj[-1])])
            cur = vs
            for k in range(1, 4):
                new = cur.get_evolution(dt)
                expect(near([[v.x0, v.y0] for v in cur.vortex], traj[k-1],
                            1e-9), "evolution moved the original system")
                expect(near([[v.x0, v.y0] for v in new.vortex], traj[k],
                            1e-9), "positions after a time step",
                       lambda: (k, [[v.x0, v.y0] for v in new.vortex],
                                traj[k]))
                fs = flows(traj[k])
                for x, y in FEW:
                    expect(near(new.get_vector(x, y), total(fs, x, y), 1e-8),
                           "velocity after a time step", lambda: (k, (x, y)))
                cur = new
            ev = vs.get_vortex_evolution(dt, 3, unit_time="s")
            expect(len(ev) == len(vs_), "number of trajectories")
            for i, p in enumerate(ev):
                expect(near(p.xy, [t[i] for t in traj], 1e-9)
                       and near(p.v, [0., dt, 2*dt, 3*dt], 1e-12)
                       and fm.same_unit(p.unit_v, fm.U("s")), "trajectory",
                       lambda: (p.xy.tolist(), p.v.tolist()))
            ax, ay = [-.5, .5], [.25, 1.5, 2.]
            tvf = vs.get_temporal_vector_field(dt, ax, ay, 3, unit_x="m",
                                               unit_y="m", unit_time="s")
            expect(near(tvf.times, [0., dt, 2*dt, 3*dt], 1e-12)
                   and fm.same_unit(tvf.unit_times, fm.U("s")), "times")
            for k, f in enumerate(tvf.fields):
                fs = flows(traj[k])
                want = np.array([[total(fs, x, y) for y in ay] for x in ax])
                expect(near(f.comp_x, want[..., 0], 1e-8)
                       and near(f.comp_y, want[..., 1], 1e-8),
                       "field of the series", lambda: k)
            # velocity the vortex would have elsewhere
            hv = vc.HillVortex(0., 0., U=2., rv=.5)
            hmap = vs.get_velocity_map(ax, ay, hv)
            probe = vc.FreeVortex(0., 0., gamma=3.)
            vmap = vs.get_velocity_map(ax, ay, probe)
            for i, x in enumerate(ax):
                for j, y in enumerate(ay):
                    fs = flows(pos) + mirror(
                        at(swirl(lambda r: 3/(2*PI*r)), x, y),
                        [walls[w] for w in ws])
                    want = total(fs, x, y)
                    expect(near([vmap.comp_x[i, j], vmap.comp_y[i, j]], want,
                                1e-8), "velocity map",
                           lambda: (x, y, want))
                    one = vc.HillVortex(x, y, U=2., rv=.5)
                    want = total(flows(pos) + mirror(one.get_vector, [
                        walls[w] for w in ws]), x, y)
                    expect(near([hmap.comp_x[i, j], hmap.comp_y[i, j]], want,
                                1e-8), "velocity map of a dipole",
                           lambda: (x, y, want))
            expect((probe.x0, probe.y0) == (0., 0.)
                   and len(vs.vortex) == len(vs_), "velocity map modified "
                   "the system")
        ck.case("evolution", "%s walls %s fields %s fixed=%s dt=%s" % (
            "".join(vs_), ws, cs, fixed, dt), fn,
            state=("evol", vs_, ws, cs, fixed, dt))


def presets(ck):
    """the ready-made systems respect their walls"""
    from IMTreatment.vortex_creation import vortex_creation as vc
    cases = [("hsv", lambda w: vc.HsvSystem(.1, 1., 2., .5, vertical_wall=w)),
             ("step", lambda w: vc.StepSystem(.1, 1., 2., .5))]
    for name, mk in cases:
        for w in (True, False):
            if name == "step" and not w:
                continue

            def fn():
                vs = mk(w)
                for x in (-2., -1., -.5):
                    v = vs.get_vector(x, 0.)
                    expect(abs(v[1]) < 1e-9, "flow across the floor",
                           lambda: (x, v))
                n = len(vs.vortex)
                vs.add_vortex(vc.FreeVortex(-1., 1., gamma=1.))
                bg = vc.VortexSystem()
                bg.add_vortex(vc.FreeVortex(-1., 1., gamma=1.))
                for wl in vs.walls:
                    bg.add_wall(wl)
                base = mk(w)
                for x, y in [(-1.5, .5), (-.5, 1.5)]:
                    expect(near(vs.get_vector(x, y), np.add(
                        base.get_vector(x, y), bg.get_vector(x, y)), 1e-9),
                        "sum of the members")
            ck.case("preset|" + name, "%s %s" % (name, w), fn,
                    state=("preset", name, w))
