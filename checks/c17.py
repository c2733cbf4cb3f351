"""C17: vortex criteria on linear flows."""
import itertools
import math

import numpy as np

from mc import fm
from mc.core import expect
from mc.fm import U
from checks.c16 import affine, neigh, same_grid, value, eig

GRIDS = [("even", [-1., 0., 1., 2., 3.], [-1., -.5, 0., .5, 1., 1.5]),
         ("square", [-2., -1., 0., 1., 2.], [-2., -1., 0., 1., 2.]),
         ("uneven", [0., 1., 3., 3.5], [-1., 0., .5, 2.])]
UNITS = [("m", "m", "m/s"), ("mm", "mm", "m/s"), ("m", "mm", "m/s"),
         ("", "", "")]
COEF = (-1., 0., 2.)


def flow(ax, ay, c, u0=3., v0=-1., units=UNITS[0], mask=None):
    return fm.M(ax, ay, [affine(ax, ay, (u0, c[0], c[1])),
                         affine(ax, ay, (v0, c[2], c[3]))], mask, *units)


def definitions(J):
    """analytic values on a flow of jacobian J (a, b, c, d)"""
    a, b, c, d = J
    rot2 = .5*(b - c)**2
    sh2 = a*a + .5*(b + c)**2 + d*d
    om = (c - b)/2
    s = math.sqrt(4*a*a + (b + c)**2)/2
    det, tr = a*d - b*c, a + d
    ci = math.sqrt(max(0., det - tr*tr/4))
    Q = .5*(rot2 - sh2)
    S = np.array([[a, (b + c)/2], [(b + c)/2, d]])
    W = np.array([[0, (b - c)/2], [(c - b)/2, 0]])
    l2 = min(np.linalg.eigvals(S.dot(S) + W.dot(W)).real)
    res = math.copysign(abs(om) - s, om) if abs(om) > s else 0.
    return {"divergence": (tr, 1), "vorticity": (om, 1),
            "swirling_strength": (ci, 1),
            "improved_swirling_strength": (tr/2/ci if ci > 1e-9 else None,
                                           0),
            "q_criterion": (Q, 2),
            "Nk_criterion": (math.sqrt(rot2/sh2) if sh2 else None, 0),
            "delta_criterion": ((Q/3)**3 + (det/2)**2 if ci > 1e-9 else None,
                                6),
            "lambda2": (l2, 2),
            "residual_vorticity": (res, 1), "shear_vorticity": (om - res, 1)}


# criteria defined for flows without divergence
PLANE = ("residual_vorticity", "shear_vorticity")
FILLING = ("divergence", "vorticity", "residual_vorticity",
           "shear_vorticity")


def crit(name):
    from IMTreatment import vortex_criterions as vc
    return getattr(vc, "get_" + name)


def run(ck):
    linear(ck)
    masked(ck)
    stokes(ck)
    around(ck)
    nonlocal_(ck)
    series(ck)
    optioned(ck)
    angles(ck)
    strong(ck)


def linear(ck):
    for (gn, ax, ay), units, c in itertools.product(
            GRIDS, UNITS, itertools.product(COEF, repeat=4)):
        if not ck.thorough and units[0] == "mm" and \
                (c[0] == -1 or c[1] == 0):
            continue
        m = flow(ax, ay, c, units=units)
        k = fm.ratio(m.ux, m.uy)
        J = (c[0], c[1]*k, c[2], c[3]*k)
        for name, (w, p) in definitions(J).items():
            if name in PLANE and abs(J[0] + J[3]) > 1e-9:
                continue
            if name == "delta_criterion" and units not in (UNITS[0],
                                                           UNITS[3]):
                continue        # sums terms of different dimensions

            def one():
                f = m.real()
                s0 = fm.snap(f)
                r = crit(name)(f)
                expect(fm.snap(f) == s0, "field modified")
                tr = J[0] + J[3]
                disc = abs(tr*tr/4 - J[0]*J[3] + J[1]*J[2])
                if w is None:
                    o = same_grid(r, m)
                    # rounding decides of the limit cases
                    if name == "Nk_criterion" and gn == "uneven" or \
                            name != "Nk_criterion" and disc < 1e-6:
                        return
                    expect(o.mask.all(), "undefined value given",
                           lambda: o.comps[0].tolist())
                    return
                unit = (m.uv/m.ux)**p if p else U("")
                value(r, w, unit, m, name, rtol=1e-6, atol=1e-6)
                if units in (UNITS[0], UNITS[3]):
                    raw = crit(name)(f, raw=True)
                    raw = np.ma.filled(np.ma.masked_array(raw), np.nan)
                    expect(raw.shape == m.shape and
                           fm.close(raw, np.zeros(m.shape) + w, 1e-6,
                                    1e-6*max(1, abs(w))), "raw " + name,
                           lambda: raw.tolist())
                if disc < 1e-6:
                    return
                # a uniform translation changes nothing
                f2 = flow(ax, ay, c, -7., 2., units).real()
                r2 = crit(name)(f2)
                expect(np.array_equal(r.mask, r2.mask) and
                       fm.close(r.values, r2.values, 1e-6, 1e-6*max(
                           1, np.nanmax(np.abs(r.values)))),
                       "not invariant by translation")
                return round(w, 6)
            ck.case(name + "|" + gn, (gn, units, c), one)


def masked(ck):
    ax, ay = [0., 1., 2., 3.], [0., 1., 2.]
    for c in ((2., -3., 3., -2.), (.5, -2., 2., -.5)):
        full = flow(ax, ay, c)
        d = definitions(c)
        for mask in fm.masks((4, 3), "all" if ck.thorough else "more"):
            if np.sum(~mask) < 3:
                continue
            m = flow(ax, ay, c, mask=mask)
            for name, (w, p) in d.items():
                def one():
                    f = m.real()
                    s0 = fm.snap(f)
                    r = crit(name)(f)
                    expect(fm.snap(f) == s0, "field modified")
                    if name in FILLING:
                        # the field is filled first
                        g = f.fill(inplace=False)
                        r2 = crit(name)(g)
                        expect(fm.close(r.values, r2.values), "filling")
                        o = same_grid(r, m)
                        ok = ~neigh(mask)
                        expect(not o.mask.any(), "masked")
                        expect(fm.close(o.comps[0][ok], np.zeros(
                            int(ok.sum())) + w, 1e-6), name)
                        return
                    unit = (m.uv/m.ux)**p if p else U("")
                    value(r, w, unit, m, name, rtol=1e-6, atol=1e-6)
                ck.case("masked " + name, (c, fm.mdesc(mask)), one)

            def given():
                # points the user does not want
                for name in ("q_criterion", "Nk_criterion",
                             "delta_criterion", "lambda2"):
                    r = crit(name)(full.real(), mask=mask.copy())
                    expect(np.array_equal(np.array(r.mask, bool), mask),
                           "given mask: " + name,
                           lambda: r.mask.astype(int).tolist())
            ck.case("given mask", (c, fm.mdesc(mask)), given)


def stokes(ck):
    from IMTreatment import vortex_criterions as vc
    for (gn, ax, ay), units, c, w in itertools.product(
            GRIDS, UNITS, itertools.product(COEF, repeat=4), (2, 3)):
        m = flow(ax, ay, c, units=units)
        k = fm.ratio(m.ux, m.uy)

        def one():
            r = vc.get_stokes_vorticity(m.real(), window_size=w)
            want = fm.M([np.mean(ax[i:i + w]) for i in
                         range(len(ax) - w + 1)],
                        [np.mean(ay[i:i + w]) for i in
                         range(len(ay) - w + 1)],
                        [np.zeros((len(ax) - w + 1, len(ay) - w + 1)) +
                         c[2] - c[1]*k], None, units[0], units[1])
            value(r, want.comps[0], m.uv/m.ux, want, "circulation/area")
        ck.case("stokes vorticity|" + gn, (gn, units, c, w), one)
    ax, ay = GRIDS[1][1:]
    alone = []
    for p in itertools.product(range(5), repeat=2):
        alone.append(np.zeros((5, 5), bool))
        alone[-1][p] = True
    for mask in alone + list(fm.masks((5, 5), "more" if ck.thorough
                                      else "few")):
        m = flow(ax, ay, (1., 2., -3., 0.), mask=mask)
        for w in (2, 3, 4):
            def hole():
                r = vc.get_stokes_vorticity(m.real(), window_size=w)
                o = fm.wellformed(r)
                n = 5 - w + 1
                for i, j in itertools.product(range(n), repeat=2):
                    bad = mask[i:i + w, j:j + w].any()
                    expect(o.mask[i, j] == bad, "mask",
                           lambda: o.mask.astype(int).tolist())
                    if not bad:
                        expect(abs(o.comps[0][i, j] + 5) < 1e-9, "value")
            ck.case("stokes vorticity|masked", (w, fm.mdesc(mask)), hole)


def around(ck):
    """points in a circle"""
    for gn, ax, ay in GRIDS + [("flat", [0., 3., 6., 9.], [0., 1., 2., 3.])]:
        f = flow(ax, ay, (1., 0., 0., 1.)).real()
        for i, j, r in itertools.product(range(len(ax)), range(len(ay)),
                                         (.4, 1., 1.1, 1.5, 2.5, 3.2)):
            def pts():
                for ind in (True, False):
                    cx, cy = (i, j) if ind else (ax[i], ay[j])
                    got = f.get_points_around([cx, cy], r, ind=ind)
                    X = range(len(ax)) if ind else ax
                    Y = range(len(ay)) if ind else ay
                    want = {(p, q) for p in range(len(ax))
                            for q in range(len(ay))
                            if (X[p] - cx)**2 + (Y[q] - cy)**2 <=
                            r*r + 1e-12}
                    g = [tuple(int(v) for v in p) for p in got]
                    expect(len(set(g)) == len(g), "point given twice")
                    expect(set(g) == want, "points around",
                           lambda: (ind, sorted(g), sorted(want)))
            ck.case("points around|" + gn, (gn, i, j, r), pts)


def ring(ax, ay, i, j, r, ind, k=1.):
    """neighbours of (i, j), None when the circle leaves the field"""
    dx, dy = (1., 1.) if ind else (ax[1] - ax[0], (ay[1] - ay[0])*k)
    res = []
    nx, ny = int(r/dx + 1e-9), int(r/dy + 1e-9)
    for p in range(-nx, nx + 1):
        for q in range(-ny, ny + 1):
            if (p or q) and (p*dx)**2 + (q*dy)**2 <= r*r + 1e-12:
                res.append((p, q))
    mx = max([abs(p) for p, q in res])
    my = max([abs(q) for p, q in res])
    if i < mx or j < my or i > len(ax) - 1 - mx or j > len(ay) - 1 - my:
        return None
    return [(i + p, j + q) for p, q in res]


def wrap(a):
    return math.atan2(a[1], a[0]) % (2*math.pi)


def dev(vs, order):
    th = sorted(wrap(v) for v in vs)
    n = len(th)
    d = [b - a for a, b in zip(th, th[1:])] + [th[0] + 2*math.pi - th[-1]]
    b = 2*math.pi/n
    e = sum(abs(x - b)**order for x in d)**(1./order)
    worst = ((n - 1)*b**order + (2*math.pi - b)**order)**(1./order)
    return 1 - e/worst


def ref(crit_, V, i, j, nb, ax, ay, k, **kw):
    """direct evaluation of the definitions"""
    kind = crit_
    vs = [V[p] for p in nb]
    mean = np.mean(vs, axis=0)
    if kind.startswith(("gamma", "kappa")):
        tot = 0.
        rel = mean if kind in ("gamma2", "gamma2b", "kappa2") else (0., 0.)
        for p, v in zip(nb, vs):
            v = v - rel
            r = np.array([ax[p[0]] - ax[i], (ay[p[1]] - ay[j])*k])
            n = math.hypot(*v)*math.hypot(*r)
            if n < 1e-12:
                continue
            tot += (r[0]*v[1] - r[1]*v[0] if kind[0] == "g" else
                    r[0]*v[0] + r[1]*v[1])/n
        tot /= len(nb)
        if kind == "gamma1b":
            tot *= math.hypot(*mean)
        if kind == "gamma2b":
            fl = math.sqrt(np.sum(np.mean((np.array(vs) - mean)**2, axis=0)))
            me = math.hypot(*mean)
            if me > fl:
                tot *= fl/me
        return tot
    if kind == "angle_deviation":
        lt = kw.get("local_treatment", "none")
        if lt == "galilean_inv":
            vs = [v - mean for v in vs]
        elif lt == "local":
            vs = [v - V[i, j] for v in vs]
        if any(math.hypot(*v) < 1e-12 for v in vs):
            return None
        return dev(vs, kw.get("order", 1))


def calls():
    for kind in ("gamma1", "gamma2", "gamma1b", "gamma2b"):
        yield kind, "gamma", {"kind": kind}
    for kind in ("kappa1", "kappa2"):
        yield kind, "kappa", {"kind": kind}
    for lt in ("none", "galilean_inv", "local"):
        for order in (1, 2):
            yield "angle_deviation", "angle_deviation", {
                "local_treatment": lt, "order": order}


def nonlocal_(ck):
    ngrids = [("square", [-2., -1., 0., 1., 2.], [-2., -1., 0., 1., 2.]),
              ("flat", [0., 1., 2., 3., 4., 5.], [0., 2., 4., 6., 8.]),
              ("fine", [0., .5, 1., 1.5, 2.], [1., 3., 5.])]
    radii = [(None, False), (1., True), (1.9, True), (2., True), (1.2, False),
             (2.1, False)]
    flows = [(0., -1., 1., 0.), (1., -2., .5, -1.), (2., 0., 0., 1.),
             (0., 1., 1., 0.), (0., 0., 0., 0.), (.5, 2., -3., -.5)]
    offs = [(0., 0.), (1., .5)]
    for (gn, ax, ay), (r, ind), c, (u0, v0) in itertools.product(
            ngrids, radii, flows, offs):
        for units in (UNITS[0], ("m", "cm", "m/s")):
            k = 1. if units[1] == "m" else .01
            if k != 1. and (c != flows[0] or (r, ind) != radii[0]):
                continue
            for mask in [np.zeros((len(ax), len(ay)), bool)] + (
                    list(fm.masks((len(ax), len(ay)), "few"))
                    if c == flows[1] and u0 and ck.thorough or
                    (c == flows[1] and u0 and gn == "square" and
                     r in (None, 1.)) else []):
                neighbourhood(ck, gn, ax, ay, r, ind, c, u0, v0, units, k,
                              mask)


def neighbourhood(ck, gn, ax, ay, r, ind, c, u0, v0, units, k, mask):
    m = flow(ax, ay, c, u0, v0, units, mask)
    base = flow(ax, ay, c, u0, v0, units)
    V = np.stack(base.comps, axis=-1)
    rr, ii = (1.9, True) if r is None else (r, ind)
    desc = (gn, r, ind, c, u0, units, fm.mdesc(mask))
    nbs = {(i, j): ring(ax, ay, i, j, rr, ii, k)
           for i in range(len(ax)) for j in range(len(ay))}

    def results(got, fn, unit, label):
        o = same_grid(got, m)
        rat = fm.ratio(o.uv, unit)
        for (i, j), nb in nbs.items():
            bad = nb is None or mask[i, j] or any(mask[p] for p in nb)
            if bad:
                expect(o.mask[i, j], "value given without all its data: " +
                       label, lambda: (i, j))
                continue
            w = fn(i, j, nb)
            if w is None:
                continue
            expect(not o.mask[i, j], "no value: " + label, lambda: (i, j))
            expect(abs(o.comps[0][i, j]*rat - w) < 1e-7*max(1, abs(w)),
                   label, lambda: ((i, j), o.comps[0][i, j]*rat, w))

    for kind, fname, kw in calls():
        def one():
            f = m.real()
            s0 = fm.snap(f)
            got = crit(fname)(f, radius=r, ind=ind, **kw)
            expect(fm.snap(f) == s0, "field modified")
            results(got, lambda i, j, nb: ref(kind, V, i, j, nb, ax, ay, k,
                                              **kw),
                    U(""), fname)
            raw = crit(fname)(f, radius=r, ind=ind, raw=True, **kw)
            raw = np.ma.filled(np.ma.masked_array(raw, dtype=float), np.nan)
            sel = ~np.isnan(raw)
            expect(np.array_equal(np.isnan(raw), got.mask) and
                   fm.close(raw[sel], got.values[sel]), "raw " + fname)
        ck.case("{}|{}".format(kind, gn), (desc, sorted(kw.items())), one)

    om = (c[2] - c[1]/k)/2
    if not mask.any():
        def enst():
            f = m.real()
            dv = (ax[1] - ax[0])*(ay[1] - ay[0])*k
            results(crit("enstrophy")(f, radius=r, ind=ind),
                    lambda i, j, nb: om*om*dv*(len(nb) + 1),
                    (m.uv/m.ux)**2*m.ux**2, "enstrophy")
        ck.case("enstrophy|" + gn, desc, enst)

    def nlres():
        f = m.real()
        J = (c[0], c[1]/k, c[2], c[3]/k)
        w = definitions(J)["residual_vorticity"][0]
        results(crit("NL_residual_vorticity")(f, radius=r, ind=ind),
                lambda i, j, nb: w, m.uv/m.ux, "NL residual vorticity")
    # needs neighbours along both directions
    def both(nb):
        return len({p for p, q in nb}) > 1 and len({q for p, q in nb}) > 1
    if all(nb is None or both(nb) for nb in nbs.values()):
        ck.case("NL residual vorticity|" + gn, desc, nlres)

    def unwanted():
        # zone excluded by the user
        zone = np.zeros(m.shape, bool)
        zone[len(ax)//2, len(ay)//2] = True
        for fname in ("gamma", "kappa", "angle_deviation", "enstrophy",
                      "NL_residual_vorticity"):
            z = zone.copy()
            f = m.real()
            a = crit(fname)(f, radius=r, ind=ind, mask=z)
            expect(np.array_equal(z, zone), "given mask modified")
            b = crit(fname)(f, radius=r, ind=ind)
            expect(a.mask[len(ax)//2, len(ay)//2], "value in excluded zone")
            sel = ~np.array(a.mask, bool)
            expect(not np.any(b.mask[sel]), "mask of " + fname)
            expect(fm.close(a.values[sel], b.values[sel]),
                   "values of " + fname)
        z = zone.copy()
        a = crit("iota")(m.real(), mask=z)
        expect(a.mask[len(ax)//2, len(ay)//2], "iota in excluded zone")
    if c == (1., -2., .5, -1.) and not mask.any() and len(ax) > 4 and \
            all(nb is None or both(nb) for nb in nbs.values()):
        ck.case("excluded zone|" + gn, desc, unwanted)

    def iota():
        got = crit("iota")(m.real())
        same_grid(got, m)
        if c == (0., 0., 0., 0.) and (u0, v0) != (0., 0.):
            expect(fm.close(got.values, np.zeros(m.shape)),
                   "iota of a uniform flow")
        else:
            expect(np.all(got.mask[mask]), "iota in masked points")
            # unchanged by the scale of the velocity
            f2 = m.real()*3.
            g2 = crit("iota")(f2)
            expect(np.array_equal(got.mask, g2.mask) and
                   fm.close(got.values, g2.values), "iota depends on scale")
    if r is None:
        ck.case("iota|" + gn, desc, iota)


def series(ck):
    from IMTreatment import TemporalVectorFields
    ax, ay = GRIDS[1][1:]
    for order in itertools.permutations(range(3)):
        for name in ("vorticity", "divergence", "residual_vorticity",
                     "shear_vorticity", "gamma"):
            def tvf():
                ts = TemporalVectorFields()
                for q in order:
                    m = flow(ax, ay, (1., -1. - q, 2., -1.))
                    ts.add_field(m.real(), time=q*.5 - 1, unit_times="s")
                d = crit(name)(ts)
                expect(fm.close(d.times, [-1., -.5, 0.]), "times")
                expect(fm.same_unit(d.unit_times, U("s")), "unit of times")
                for q in range(3):
                    m = flow(ax, ay, (1., -1. - q, 2., -1.))
                    w = crit(name)(m.real())
                    expect(fm.snap(d.fields[q]) == fm.snap(w), "element")
            ck.case("series|" + name, order, tvf)


def optioned(ck):
    """options reach every field of a series"""
    from IMTreatment import TemporalVectorFields
    ax, ay = [-2., -1., 0., 1., 2., 3.], [-2., -1., 0., 1., 2.]
    zone = np.zeros((6, 5), bool)
    zone[2, 1] = zone[3, 3] = True
    for kind, (r, ind), z, dp in itertools.product(
            ("gamma1", "gamma2", "gamma1b", "gamma2b"),
            ((None, False), (1., True), (2., True), (1.2, False)),
            (None, zone), (False, True)):
        def tvf():
            kw = dict(kind=kind, radius=r, ind=ind, dev_pass=dp)
            fields = [flow(ax, ay, (1., -1. - q, 2. - 3*q, -1.), .5, 1. - q)
                      for q in range(3)]
            ts = TemporalVectorFields()
            for q, m in enumerate(fields):
                ts.add_field(m.real(), time=q*.5 - 1, unit_times="ms")
            d = crit("gamma")(ts, mask=None if z is None else z.copy(), **kw)
            expect(fm.close(d.times, [-1., -.5, 0.]), "times")
            expect(fm.same_unit(d.unit_times, U("ms")), "unit of times")
            for q, m in enumerate(fields):
                w = crit("gamma")(m.real(), mask=None if z is None
                                  else z.copy(), **kw)
                expect(fm.snap(d.fields[q]) == fm.snap(w), "element")
                if z is not None:
                    expect(np.array(w.mask, bool)[z].all(), "zone")
        ck.case("series of gamma|" + kind, (r, ind, z is None, dp), tvf)


def angles(ck):
    """iota: half the norm of the gradient of the angles, per grid step"""
    grids = [("square", [-2., -1., 0., 1., 2.], [-2., -1., 0., 1., 2.]),
             ("flat", [0., 1., 2., 3., 4., 5.], [0., 2., 4., 6., 8.])]
    for (gn, ax, ay), c, (u0, v0), mset in itertools.product(
            grids, itertools.product((-1., 0., 1.5), repeat=4),
            ((.3, .7), (-2., -1.1), (3.1, -.2)), (0, 1)):
        mask = np.zeros((len(ax), len(ay)), bool)
        if mset:
            mask[1, 2] = True
            if not ck.thorough and c[0]:
                continue
        m = flow(ax, ay, c, u0, v0, mask=mask)

        def want(Vx, Vy):
            th = np.arctan2(Vy, Vx)
            tot = 0.
            for axis in (0, 1):
                best = None
                for lim in (0., -np.pi):
                    g = np.gradient((th - lim) % (2*np.pi) + lim, axis=axis)
                    best = g if best is None else \
                        np.where(np.abs(g) < np.abs(best), g, best)
                tot = tot + best**2
            return .5*np.sqrt(tot)

        def iota():
            f = m.real()
            s0 = fm.snap(f)
            got = crit("iota")(f)
            expect(fm.snap(f) == s0, "field modified")
            o = same_grid(got, m)
            expect(fm.same_unit(o.uv, U("")), "unit")
            Vx, Vy = m.comps
            if np.any((np.abs(Vy) < 1e-9) | (np.hypot(Vx, Vy) < 1e-9)):
                return          # rounding decides of the angles
            w = want(Vx, Vy)
            ok = ~neigh(mask)
            expect(o.mask[mask].all(), "value in masked point")
            expect(not o.mask[ok].any(), "no value")
            expect(fm.close(o.comps[0][ok], w[ok], 1e-7, 1e-9), "iota",
                   lambda: (o.comps[0].tolist(), w.tolist()))
            raw = np.ma.masked_array(crit("iota")(f, raw=True))
            expect(np.array_equal(np.ma.getmaskarray(raw), o.mask) and
                   fm.close(raw.data[ok], w[ok], 1e-7, 1e-9), "raw iota")
            if mset:
                return
            for r in (.7, 1., 2.):
                for ind in (True, False):
                    step = 1. if ind else (ax[1] - ax[0] + ay[1] - ay[0])/2.
                    g = f.copy()
                    g.smooth(tos="gaussian", size=r/step, inplace=True)
                    a = crit("iota")(f, radius=r, ind=ind)
                    b = crit("iota")(g)
                    expect(np.array_equal(a.mask, b.mask) and
                           fm.close(a.values, b.values, 1e-6, 1e-8),
                           "smoothed iota", lambda: (r, ind))
            expect(fm.snap(f) == s0, "field modified by smoothing")
        ck.case("iota|" + gn, (gn, c, u0, v0, mset), iota)


def strong(ck):
    """nearly pure rotations, and directions that barely change"""
    ax, ay = [-2., -1., 0., 1., 2.], [-2., -1., 0., 1., 2.]
    for w, e in itertools.product((-300., -2., 2., 300.),
                                  (1e-3, 1e-2, .1, 1.)):
        def nk():
            for c in ((e, -w, w, -e), (0., -w + e, w, 0.)):
                m = flow(ax, ay, c, 1., 2.)
                v = definitions(c)["Nk_criterion"][0]
                value(crit("Nk_criterion")(m.real()), v, U(""), m,
                      "Nk_criterion", rtol=1e-5, atol=1e-6)
        ck.case("nearly pure rotation", (w, e), nk)
    for c, (u0, v0) in itertools.product(
            ((0., -1., 1., 0.), (1., 0., 0., 1.), (.1, -.2, .3, -.1),
             (1., -2., .5, -1.), (0., 2., -1., 0.)),
            ((0., 0.), (.5, 0.), (1., .5), (0., 6.))):
        for fname, kind in (("gamma", "gamma1"), ("gamma", "gamma1b"),
                            ("kappa", "kappa1")):
            def dp():
                f = flow(ax, ay, c, u0, v0).real()
                d = crit("angle_deviation")(f)
                a = crit(fname)(f, kind=kind)
                b = crit(fname)(f, kind=kind, dev_pass=True)
                expect(np.array_equal(a.mask, b.mask), "mask with dev_pass")
                for p in itertools.product(range(5), repeat=2):
                    if a.mask[p]:
                        continue
                    if d.mask[p] or abs(d.values[p] - .1) < 1e-6:
                        continue
                    w = 0. if d.values[p] < .1 else a.values[p]
                    expect(abs(b.values[p] - w) < 1e-9, "dev_pass",
                           lambda: (p, d.values[p], a.values[p],
                                    b.values[p]))
            ck.case("dev_pass|" + kind, (c, u0, v0), dp)
