"""C25: size, properties and circulation of vortices.

The criterion functions are callables the user gives, so the shape of the
vortex zone can be enumerated directly: every criterion field over a few levels
on a small grid, every starting point.
"""
import itertools

import numpy as np

from mc import fm
from mc.core import expect

GRIDS = {"even": (np.array([0., 1., 2.]), np.array([0., 1., 2.])),
         "flat": (np.array([-2., -1.5, -1.]), np.array([4., 6., 8., 10.])),
         "thin": (np.array([1., 3.]), np.array([0., .25, .5]))}


def zone(val, bad, i, j, lim):
    """points joined to (i, j) by neighbours where the value exceeds `lim`"""
    ok = ~bad & (np.where(bad, 0., val) > lim)
    out = np.zeros(val.shape, bool)
    if not ok[i, j]:
        return out
    todo = [(i, j)]
    out[i, j] = True
    while todo:
        a, b = todo.pop()
        for c, d in ((a-1, b), (a+1, b), (a, b-1), (a, b+1)):
            if 0 <= c < val.shape[0] and 0 <= d < val.shape[1] \
                    and ok[c, d] and not out[c, d]:
                out[c, d] = True
                todo.append((c, d))
    return out


def vortex(val, bad, i, j, lim):
    """the zone of the vortex (empty if there is none)"""
    val = np.abs(val)
    if bad[i, j]:
        return np.zeros(val.shape, bool)
    first = zone(val, bad, i, j, lim*val[i, j])
    if not first.any():
        return first
    return zone(val, bad, i, j, lim*np.max(val[first]))


def simpson(z, ax, ay):
    from scipy.integrate import simpson as s
    return s(s(z, dx=ay[1] - ay[0]), dx=ax[1] - ax[0])


def scalar(ax, ay, val, mask=None, unit="1/s", ux="m", uy="m"):
    from IMTreatment import ScalarField
    sf = ScalarField()
    sf.import_from_arrays(ax, ay, np.array(val, float),
                          mask=False if mask is None else mask,
                          unit_x=ux, unit_y=uy, unit_values=unit)
    return sf


def vector(ax, ay, u, v, mask=None, ux="m", uy="m", uv="m/s"):
    from IMTreatment import VectorField
    vf = VectorField()
    vf.import_from_arrays(ax, ay, np.array(u, float), np.array(v, float),
                          mask=False if mask is None else mask,
                          unit_x=ux, unit_y=uy, unit_values=uv)
    return vf


def run(ck):
    zones(ck)
    given(ck)
    radii(ck)
    series(ck)


# -- properties with enumerated criteria -------------------------------------

def check_property(vf, crit, prop, pos, i, j, lim, unit):
    from IMTreatment.vortex_properties import get_vortex_property
    before = fm.snap(vf), fm.snap(crit), fm.snap(prop)
    r, u = get_vortex_property(vf, pos, size_crit=lambda f: crit,
                               size_crit_lim=lim, prop_crit=lambda f: prop,
                               output_unit=True)
    expect((fm.snap(vf), fm.snap(crit), fm.snap(prop)) == before,
           "argument modified")
    bad = np.asarray(crit.mask, bool)
    z = vortex(np.where(bad, 0., np.nan_to_num(crit.values)), bad, i, j, lim)
    want = simpson(np.where(z, prop.values, 0.), vf.axe_x, vf.axe_y) \
        if z.any() else 0.
    expect(fm.close(r, want), "integral over the vortex zone",
           lambda: (r, want, z.astype(int).tolist()))
    expect(fm.same_unit(u, unit), "unit", lambda: (str(u), str(unit)))
    r2 = get_vortex_property(vf, pos, size_crit=lambda f: crit,
                             size_crit_lim=lim, prop_crit=lambda f: prop)
    expect(r2 == r, "output_unit changes the result", lambda: (r, r2))
    return z


def zones(ck):
    from IMTreatment import make_unit
    unit = make_unit("1/s")*make_unit("m")*make_unit("m")
    ax, ay = GRIDS["even"]
    n = len(ax)*len(ay)
    vf = vector(ax, ay, np.ones((3, 3)), np.zeros((3, 3)))
    prop = scalar(ax, ay, (2.**np.arange(n)).reshape(3, 3)*np.where(
        np.arange(n) % 2, 1, -1).reshape(3, 3))
    for pat in itertools.product((0., 1., 5.), repeat=n):
        if not ck.thorough and sum(p == 5. for p in pat) > 2:
            continue
        crit = scalar(ax, ay, np.array(pat).reshape(3, 3))
        for (i, j) in ((0, 1), (1, 1)) if not ck.thorough else \
                itertools.product(range(3), range(3)):
            ck.case("zone", "criterion %s from (%d, %d)" % (
                np.array(pat, int).reshape(3, 3).tolist(), i, j),
                lambda: check_property(vf, crit, prop, (ax[i], ay[j]), i, j,
                                       .3, unit).astype(int).tolist(),
                state=("zone", pat, i, j))
    # signs, masked points, other grids, start beside the points, null speed
    ax, ay = GRIDS["thin"]
    ux, uy = "m", "mm"
    unit = make_unit("1/s")*make_unit("m")*make_unit("mm")
    for k, speed in enumerate((0., 2.)):
        vf = vector(ax, ay, speed*np.ones((2, 3)), np.zeros((2, 3)), ux=ux,
                    uy=uy)
        prop = scalar(ax, ay, [[1., 2., 4.], [8., 16., 32.]], ux=ux, uy=uy)
        for pat in itertools.product((0., 1., -5., 5., None), repeat=6):
            if not ck.thorough and (5. in pat[1:] or
                                    k == 0 and pat.count(0.) > 2):
                continue
            mask = np.array([p is None for p in pat]).reshape(2, 3)
            if mask.all():
                continue
            crit = scalar(ax, ay, np.array([p or 0. for p in pat]).reshape(
                2, 3), mask, ux=ux, uy=uy)
            for (i, j), off in zip(((0, 1), (1, 2)), ((.3, -.1), (-.4, -.1))):
                ck.case("zone|signs, masks, null speed" if k == 0 else
                        "zone|signs, masks",
                        "criterion %s from (%d, %d)" % (pat, i, j),
                        lambda: check_property(
                            vf, crit, prop, (ax[i] + off[0], ay[j] + off[1]),
                            i, j, .1, unit).astype(int).tolist(),
                        state=("signs", k, pat, i, j))


def given(ck):
    """criteria of the library, same or different, and the value alone"""
    from IMTreatment.vortex_properties import get_vortex_property
    from IMTreatment import make_unit
    import IMTreatment.vortex_criterions as vc
    crits = [None, vc.get_vorticity, vc.get_residual_vorticity,
             vc.get_swirling_strength]
    for nm, vf in flows(ck):
        for a, b in itertools.product(crits, crits):
            for i, j in starts(vf):
                def fn():
                    pos = (vf.axe_x[i], vf.axe_y[j])
                    s = (a or vc.get_residual_vorticity)(vf)
                    p = (b or vc.get_residual_vorticity)(vf)
                    r, u = get_vortex_property(vf, pos, size_crit=a,
                                               prop_crit=b, output_unit=True)
                    z = vortex(s.values, np.asarray(s.mask, bool), i, j, .1)
                    want = simpson(np.where(z, p.values, 0.), vf.axe_x,
                                   vf.axe_y) if z.any() else 0.
                    expect(fm.close(r, want), "library criterion",
                           lambda: (r, want, z.astype(int).tolist()))
                    expect(fm.same_unit(u, p.unit_values*vf.unit_x*vf.unit_y),
                           "unit", lambda: str(u))
                    r, u = get_vortex_property(vf, pos, size_crit="value",
                                               prop_crit=b, output_unit=True)
                    expect(fm.close(r, p.values[i, j]), "value",
                           lambda: (r, p.values[i, j]))
                    expect(fm.same_unit(u, p.unit_values), "unit of a value",
                           lambda: str(u))
                    return int(z.sum())
                ck.case("given", "%s, %s/%s from (%d, %d)" % (
                    nm, getattr(a, "__name__", a), getattr(b, "__name__", b),
                    i, j), fn, state=("given", nm, str(a), str(b), i, j))


# -- flows --------------------------------------------------------------------

def spot(ax, ay, c, strength, core):
    X, Y = np.meshgrid(ax, ay, indexing="ij")
    X, Y = X - c[0], Y - c[1]
    f = strength*np.exp(-(X**2 + Y**2)/core**2)
    return -Y*f, X*f


def flows(ck):
    grids = [(np.arange(7.), np.arange(6.), "m", "m"),
             (1. + .5*np.arange(6), -3. + .5*np.arange(7), "mm", "mm"),
             (2.*np.arange(6), 10. + .5*np.arange(6), "m", "m")]
    for g, (ax, ay, ux, uy) in enumerate(grids):
        L = min(ax[-1] - ax[0], ay[-1] - ay[0])
        spots = [(ax[2], ay[3]), (ax[4], ay[2]), (ax[1] + .2*L, ay[4])]
        for k, st in itertools.product(
                (1, 2, 3) if ck.thorough else (1, 2), (1., -1., 3.)):
            for sg in itertools.product((1., -2.), repeat=k - 1):
                u = v = 0.
                for c, s in zip(spots, (1.,) + sg):
                    a, b = spot(ax, ay, c, st*s, L/4.)
                    u, v = u + a, v + b
                for masked in (False, True):
                    mask = None
                    if masked:
                        mask = np.zeros(u.shape, bool)
                        mask[0, :2] = mask[3, 3] = True
                    yield ("grid %d, vortices %s%s" % (
                        g, [st*x for x in (1.,) + sg],
                        ", masked" if masked else ""),
                        vector(ax, ay, u, v, mask, ux, uy))
    ax = ay = np.arange(5.)
    yield "shear", vector(ax, ay, np.tile(ay, (5, 1)), np.zeros((5, 5)))
    yield "uniform", vector(ax, ay, np.ones((5, 5)), np.ones((5, 5)))


def starts(vf):
    n, m = vf.shape
    return [(2, 3), (4, 2), (0, 0), (n - 1, m - 1), (3, 3)]


def radii(ck):
    from IMTreatment.vortex_properties import (get_vortex_radius,
                                               get_vortex_circulation)
    from IMTreatment.vortex_criterions import (get_residual_vorticity,
                                               get_vorticity,
                                               get_NL_residual_vorticity)
    def cases():
        for nm, vf in flows(ck):
            for i, j in starts(vf):
                yield nm, vf, i, j
        # every small pattern of speeds
        ax, ay = np.arange(3.), .5*np.arange(3)
        us = list(itertools.product((0., 1.), repeat=9))
        vs = [p for p in us if sum(p) == 3 and (p[0] == 0 or ck.thorough)]
        for n, (pu, pv) in enumerate(itertools.product(us, vs)):
            if not ck.thorough and (n*7) % 5:
                continue
            vf = vector(ax, ay, np.reshape(pu, (3, 3)),
                        np.reshape(pv, (3, 3))*-2.)
            for i, j in ((1, 1), (0, 1)):
                yield "u=%s v=%s" % (pu, pv), vf, i, j
    for nm, vf, i, j in cases():
        ax, ay = vf.axe_x, vf.axe_y
        pos = (ax[i], ay[j])
        dx, dy = ax[1] - ax[0], ay[1] - ay[0]

        def radius(NL=None, eps=.1):
            w = get_residual_vorticity(vf) if NL is None else \
                get_NL_residual_vorticity(vf, radius=NL)
            bad = np.asarray(w.mask, bool)
            val = np.where(bad, 0., np.nan_to_num(np.abs(w.values)))
            # thresholds hit by rounding are not decided
            z = vortex(val, bad, i, j, eps)
            z2 = vortex(val, bad, i, j, eps*(1 + 1e-6))
            z3 = vortex(val, bad, i, j, eps*(1 - 1e-6))
            if (z != z2).any() or (z != z3).any():
                return "undecided"
            k = {} if NL is None else {"NL_radius": NL}
            if eps != .1:
                k["eps_detection"] = eps
            before = fm.snap(vf)
            r, c, u = get_vortex_radius(vf, pos, output_center=True,
                                        output_unit=True, **k)
            want = np.sqrt(z.sum()*dx*dy/np.pi)
            expect(fm.close(r, want), "radius",
                   lambda: (r, want, z.astype(int).tolist()))
            from IMTreatment import make_unit
            expect(fm.close((r*u/make_unit("m")).asNumber(
                make_unit("")), want*(vf.unit_x/make_unit("m")).asNumber(
                    make_unit(""))), "unit of the radius",
                lambda: (str(u), str(vf.unit_x)))
            if z.any():
                X, Y = np.meshgrid(ax, ay, indexing="ij")
                q = np.where(z, val, 0.)
                cw = [(q*X).sum()/q.sum(), (q*Y).sum()/q.sum()]
                expect(fm.close(np.asarray(c, float), np.array(cw)),
                       "centre", lambda: (c, cw))
            expect(get_vortex_radius(vf, pos, **k) == r and
                   get_vortex_radius(vf, pos, output_center=True,
                                     **k)[0] == r and
                   get_vortex_radius(vf, pos, output_unit=True, **k)[0] == r,
                   "options change the result")
            expect(fm.snap(vf) == before, "argument modified")
            return int(z.sum())

        def circ(eps=.1):
            w = get_vorticity(vf)
            bad = np.asarray(w.mask, bool)
            val = np.where(bad, 0., np.nan_to_num(w.values))
            m = np.max(np.abs(val))
            z, z2, z3 = [zone(np.abs(val), bad, i, j, m*e) for e in
                         (eps, eps*(1 + 1e-6), eps*(1 - 1e-6))]
            if (z != z2).any() or (z != z3).any():
                return "undecided"
            k = {} if eps == .1 else {"epsilon": eps}
            before = fm.snap(vf)
            r, u = get_vortex_circulation(vf, pos, output_unit=True, **k)
            want = val[z].sum()*dx*dy
            unit = w.unit_values*vf.unit_x*vf.unit_y
            expect(abs((r*u/unit).asNumber(fm.U("")) - want)
                   <= 1e-9*(abs(want) + m*dx*dy), "circulation",
                   lambda: (r, str(u), want, z.astype(int).tolist()))
            r2 = get_vortex_circulation(vf, pos, **k)
            expect(r2 == r, "options change the result", lambda: (r, r2))
            expect(fm.snap(vf) == before, "argument modified")
            return int(z.sum())
        ck.case("radius", "%s from (%d, %d)" % (nm, i, j), radius,
                state=("radius", nm, i, j))
        ck.case("circulation", "%s from (%d, %d)" % (nm, i, j), circ,
                state=("circ", nm, i, j))
        if nm.startswith("grid"):
            ck.case("radius", "%s from (%d, %d), eps .5" % (nm, i, j),
                    lambda: radius(eps=.5), state=("radius5", nm, i, j))
            ck.case("circulation", "%s from (%d, %d), eps .5" % (nm, i, j),
                    lambda: circ(.5), state=("circ5", nm, i, j))
            if "masked" not in nm and (ck.thorough or nm.startswith(
                    "grid 1")):
                ck.case("radius|non local", "%s from (%d, %d)" % (nm, i, j),
                        lambda: radius(NL=2.1*dx),
                        state=("radiusNL", nm, i, j))


# -- time evolution -----------------------------------------------------------

def series(ck):
    from IMTreatment import TemporalVectorFields, Points
    from IMTreatment.vortex_properties import (
        get_vortex_radius, get_vortex_radius_time_evolution,
        get_vortex_property, get_vortex_property_time_evolution)
    ax, ay = np.arange(7.), np.arange(6.)
    fields = []
    for t, st in enumerate((1., -2., 3., .5)):
        u, v = spot(ax, ay, (2. + .5*t, 2.), st, 1. + .2*t)
        fields.append(vector(ax, ay, u, v))
    fields.append(vector(ax, ay, np.ones((7, 6)), np.zeros((7, 6))))
    times = [0., .5, 2., 3., 4.]
    centers = [(2., 2.), (2.5, 2.), (3., 2.2), (3.4, 2.), (3., 3.)]
    tvf = TemporalVectorFields()
    for f, t in zip(fields, times):
        tvf.add_field(f, time=t, unit_times="s")
    for n in range(1, 6):
        for sel in itertools.permutations(range(5), n):
            if not ck.thorough and n > 3:
                if list(sel) != sorted(sel):
                    continue
            tr = Points(xy=[centers[i] for i in sel],
                        v=[times[i] for i in sel], unit_x="m", unit_y="m",
                        unit_v="s")

            def fn(out, **kw):
                b = fm.snap(tr)
                r = get_vortex_radius_time_evolution(tvf, tr,
                                                     output_center=out, **kw)
                want = {times[i]: get_vortex_radius(
                    fields[i], centers[i], output_center=True, **kw)
                    for i in sel}
                if out:
                    r, c = r
                    expect([tuple(p) for p in c.xy] == [
                        tuple(want[times[i]][1]) for i in sel],
                        "centres", lambda: c.xy)
                    expect(list(c.v) == [times[i] for i in sel], "times",
                           lambda: c.v)
                expect(list(r.x) == sorted(times[i] for i in sel), "times",
                       lambda: r.x)
                for t, y, m in zip(r.x, r.y, r.mask):
                    w = want[t][0]
                    expect(bool(m) == (w == 0.), "mask", lambda: (t, m, w))
                    expect(m or y == w, "radius at its time",
                           lambda: (t, y, w))
                expect(fm.same_unit(r.unit_x, fm.U("s")) and
                       fm.same_unit(r.unit_y, fm.U("m")), "unit")
                expect(fm.snap(tr) == b, "trajectory modified")
            for out in (False, True):
                ck.case("radius in time", "trajectory through %s, centres %s"
                        % (sel, out), lambda: fn(out),
                        state=("rt", sel, out))
                if n <= 2:
                    for kw in ({"eps_detection": .5}, {"NL_radius": 1.5},
                               {"eps_detection": .8, "NL_radius": 1.5}):
                        ck.case("radius in time|options",
                                "trajectory through %s, centres %s, %s"
                                % (sel, out, kw), lambda: fn(out, **kw),
                                state=("rto", sel, out, str(kw)))

            def fn(**kw):
                for verbose in (0,):
                    p = get_vortex_property_time_evolution(tvf, tr, **kw)
                    expect(list(p.x) == sorted(times[i] for i in sel),
                           "times", lambda: p.x)
                    for t, y in zip(p.x, p.y):
                        i = times.index(t)
                        w, u = get_vortex_property(fields[i], centers[i],
                                                   output_unit=True, **kw)
                        expect(y == w, "property at its time",
                               lambda: (t, y, w))
                    expect(fm.same_unit(p.unit_x, fm.U("s")) and
                           fm.same_unit(p.unit_y, u), "unit")
            ck.case("property in time", "trajectory through %s" % (sel,), fn,
                    state=("pt", sel))
            if n > 2:
                continue
            import IMTreatment.vortex_criterions as vcr
            for kw in ({"size_crit_lim": .6},
                       {"prop_crit": vcr.get_vorticity},
                       {"size_crit": vcr.get_swirling_strength,
                        "prop_crit": vcr.get_vorticity},
                       {"size_crit": "value"},
                       {"size_crit": "value",
                        "prop_crit": vcr.get_vorticity}):
                ck.case("property in time|options", "through %s, %s" % (
                    sel, sorted(kw)), lambda: fn(**kw),
                    state=("pto", sel, str(sorted(kw.items(), key=str))))
