"""C20: critical points of linear (and bilinear) flows with a known zero."""
import itertools

import numpy as np

from mc import fm
from mc.core import expect

TYPES = ("foc", "foc_c", "node_i", "node_o", "sadd")
GRIDS = [("square", np.arange(6.), np.arange(6.)),
         ("flat", 2. + .25*np.arange(6), -4. + 2.*np.arange(5)),
         ("uneven", np.array([0., 1., 1.5, 3., 4.]),
          np.array([-2., -1., .5, 1., 3., 3.5])),
         ("decimal", .1*np.arange(6) + .3, -.7 + .2*np.arange(6))]
# du/dx, du/dy, dv/dx, dv/dy
FLOWS = [("centre", (0., -1., 1., 0.)), ("centre-", (0., 2., -1., 0.)),
         ("spiral out", (.5, -1., 1., .5)), ("spiral in", (-.5, 1., -1., -.5)),
         ("star out", (1., 0., 0., 1.)), ("star in", (-1., 0., 0., -1.)),
         ("node out", (1., 0., 0., 2.)), ("node in", (-4., 0., 0., -1.)),
         ("sheared node", (1., .5, 0., 2.)), ("turned node", (2., 1., 1., 2.)),
         ("turning node", (1., .5, -.25, 3.)),
         ("flat focus", (1., 4., -1., 3.)),
         ("saddle", (1., 0., 0., -1.)), ("saddle-", (-2., 0., 0., 1.)),
         ("turned saddle", (0., 1., 1., 0.)),
         ("sheared saddle", (1., 2., 0., -1.))]


def kind_of(A):
    a, b, c, d = A
    if a*d - b*c < 0:
        return "sadd"
    if (a - d)**2 + 4*b*c < 0:
        return "foc" if c > 0 else "foc_c"
    return "node_o" if a + d > 0 else "node_i"


def degenerate(A):
    a, b, c, d = A
    return (a - d)**2 + 4*b*c == 0


def field(ax, ay, A, z, ux="m", uy="m", uv="m/s", bil=(0., 0.)):
    from IMTreatment import VectorField
    X, Y = np.meshgrid(ax, ay, indexing="ij")
    X, Y = X - z[0], Y - z[1]
    vf = VectorField()
    vf.import_from_arrays(ax, ay, A[0]*X + A[1]*Y + bil[0]*X*Y,
                          A[2]*X + A[3]*Y + bil[1]*X*Y,
                          unit_x=ux, unit_y=uy, unit_values=uv)
    return vf


def points(cp, i=0):
    """{type: positions} at the i-th time"""
    out = {}
    for t in TYPES:
        arr = getattr(cp, t)
        expect(len(arr) == len(cp.times), "collections and times differ",
               lambda: (t, len(arr), len(cp.times)))
        out[t] = np.array(arr[i].xy).reshape(-1, 2)
    return out


def only(pts, typ, z, tol):
    n = {t: len(p) for t, p in pts.items()}
    expect(sum(n.values()) > 0, "missed", lambda: (typ, z))
    expect(sum(n.values()) == 1, "number of points",
           lambda: {t: p.tolist() for t, p in pts.items()})
    expect(n[typ] == 1, "type", lambda: (n, typ))
    d = np.abs(pts[typ][0] - z)
    expect(np.all(d <= tol), "position",
           lambda: (pts[typ][0].tolist(), list(z), d.tolist()))


def zeros(ax, ay, cells, fr):
    for (i, j), a, b in itertools.product(cells, fr, fr):
        x = ax[i] + a*(ax[i+1] - ax[i])
        y = ay[j] + b*(ay[j+1] - ay[j])
        if ax[0] < x < ax[-1] and ay[0] < y < ay[-1]:
            yield (i, j), (x, y)


def cellsize(ax, ay, z):
    """largest cell around z along each axis"""
    def one(axe, v):
        k = [i for i in range(len(axe) - 1)
             if axe[i] - 1e-9 <= v <= axe[i+1] + 1e-9]
        return max(axe[i+1] - axe[i] for i in k)
    return np.array([one(ax, z[0]), one(ay, z[1])])


def run(ck):
    single(ck)
    matrices(ck)
    none(ck)
    bilinear(ck)
    others(ck)
    units(ck)
    series(ck)
    mirrored(ck)
    vortices(ck)
    refused(ck)


def single(ck):
    from IMTreatment.vortex_detection import get_critical_points
    for gname, ax, ay in GRIDS:
        cells = [(i, j) for i in range(len(ax) - 1)
                 for j in range(len(ay) - 1)]
        if not ck.thorough:
            cells = [(0, 0), (1, 2), (2, 1), (len(ax) - 2, len(ay) - 2)]
        fr = (0., .25, .5, .625) if not ck.thorough else (0., .125, .25, .5,
                                                          .625, .75)
        for (fname, A), (cell, z) in itertools.product(
                FLOWS, zeros(ax, ay, cells, fr)):
            if gname == "decimal" and degenerate(A):
                continue
            typ = kind_of(A)

            def fn():
                vf = field(ax, ay, A, z)
                snap = fm.snap(vf)
                cp = get_critical_points(vf, time=2., unit_time="s")
                expect(list(cp.times) == [2.]
                       and fm.same_unit(cp.unit_time, fm.U("s")), "time",
                       lambda: (cp.times, str(cp.unit_time)))
                only(points(cp), typ, z, 1e-6*np.array(
                    [ax[-1] - ax[0], ay[-1] - ay[0]]))
                p = getattr(cp, typ)[0]
                expect(list(p.v) == [2.], "time of the point",
                       lambda: p.v)
                expect(fm.same_unit(p.unit_x, fm.U("m"))
                       and fm.same_unit(p.unit_y, fm.U("m"))
                       and fm.same_unit(cp.unit_x, fm.U("m")), "units")
                if typ == "sadd":
                    oriented(p, A, ax, ay, z)
                expect(fm.snap(vf) == snap, "field modified")
            ck.case("pbi|%s|%s" % (gname, typ), "%s: %s around %s" % (
                gname, fname, z), fn, state=("pbi", gname, fname, z))

            def fn():
                vf = field(ax, ay, A, z)
                cp = get_critical_points(vf, kind="pbi_cell")
                only(points(cp), typ, z, cellsize(ax, ay, z)*.5 + 1e-9)
            ck.case("pbi_cell|%s|%s" % (gname, typ), "%s: %s around %s" % (
                gname, fname, z), fn, state=("cell", gname, fname, z))


def matrices(ck):
    """every integer gradient matrix that is not singular"""
    from IMTreatment.vortex_detection import get_critical_points
    v = (-2., -1., 0., 1., 2.) if not ck.thorough else (
        -3., -2., -1., -.5, 0., .5, 1., 2., 3.)
    for (gname, ax, ay), zi in itertools.product(GRIDS[:3],
                                                 ((1.5, 2.25), (2., 1.5))):
        i, j = int(zi[0]), int(zi[1])
        z = (ax[i] + zi[0] % 1*(ax[i+1] - ax[i]),
             ay[j] + zi[1] % 1*(ay[j+1] - ay[j]))
        for A in itertools.product(v, repeat=4):
            a, b, c, d = A
            if a*d == b*c:
                continue
            if degenerate(A) and (b or c):
                # between node and focus: rounding decides
                continue
            typ = kind_of(A)

            def fn():
                cp = get_critical_points(field(ax, ay, A, z))
                only(points(cp), typ, z, 1e-6*np.array(
                    [ax[-1] - ax[0], ay[-1] - ay[0]]))
                if typ == "sadd":
                    oriented(getattr(cp, typ)[0], A, ax, ay, z)
            ck.case("matrix|%s|%s" % (gname, typ), "%s: gradients %s around %s"
                    % (gname, A, z), fn, state=("mat", gname, A, z))


def oriented(p, A, ax, ay, z):
    """the orientations of a saddle are its principal directions"""
    J = np.array(A).reshape(2, 2)
    w, v = np.linalg.eig(J)
    o = np.asarray(p.orientations, float)
    expect(o.shape == (1, 2, 2), "orientations", lambda: o.shape)

    def inner(axe, q):
        return axe[1] + 1e-9 < q < axe[-2] - 1e-9

    if not o.any():
        expect(not (inner(ax, z[0]) and inner(ay, z[1])),
               "orientations missing", lambda: z)
        return
    for k, ev in zip((0, 1), (v[:, np.argmax(w)], v[:, np.argmin(w)])):
        c = o[0, k, 0]*ev[1] - o[0, k, 1]*ev[0]
        expect(abs(c) <= 1e-6*np.hypot(*o[0, k]) and o[0, k].any(),
               "direction of a saddle", lambda: (o[0].tolist(), v.tolist()))


def none(ck):
    """nothing is found in fields that vanish nowhere"""
    from IMTreatment.vortex_detection import get_critical_points
    for gname, ax, ay in GRIDS:
        lx, ly = ax[-1] - ax[0], ay[-1] - ay[0]
        outs = [(ax[0] - .3*lx, ay[0] + .4*ly), (ax[-1] + .1*lx, ay[1]),
                (ax[1], ay[-1] + .2*ly), (ax[0] - .01*lx, ay[0] - .01*ly),
                (ax[2], ay[0] - 2*ly)]
        for (fname, A), z in itertools.product(FLOWS, outs):
            for kind in ("pbi", "pbi_cell", "pbi_crit"):
                def fn():
                    cp = get_critical_points(field(ax, ay, A, z), kind=kind)
                    pts = points(cp)
                    expect(sum(map(len, pts.values())) == 0,
                           "point in a field without zero",
                           lambda: {t: p.tolist() for t, p in pts.items()})
                ck.case("none|%s|%s" % (gname, kind), "%s around %s" % (
                    fname, z), fn, state=("none", gname, fname, z, kind))
        for b in itertools.product((-1., 0., 2.), repeat=2):
            if b == (0., 0.):
                continue

            def fn():
                from IMTreatment import VectorField
                vf = VectorField()
                one = np.ones((len(ax), len(ay)))
                vf.import_from_arrays(ax, ay, b[0]*one, b[1]*one,
                                      unit_x="m", unit_y="m",
                                      unit_values="m/s")
                for kind in ("pbi", "pbi_cell"):
                    pts = points(get_critical_points(vf, kind=kind))
                    expect(sum(map(len, pts.values())) == 0,
                           "point in a uniform field",
                           lambda: {t: p.tolist() for t, p in pts.items()})
            ck.case("none|%s|uniform" % gname, "uniform %s" % (b,), fn,
                    state=("uniform", gname, b))


def bilinear(ck):
    from IMTreatment.vortex_detection import get_critical_points
    for gname, ax, ay in GRIDS[:3]:
        cells = [(1, 1), (2, 2)]
        for (fname, A), (cell, z), bil in itertools.product(
                FLOWS, zeros(ax, ay, cells, (0., .25, .5, .625)),
                [(.03125, 0.), (0., -.03125), (.0625, .03125),
                 (1e-9, -1e-9)]):
            a, b, c, d = A
            if fname in ("star out", "star in"):
                continue
            # is there another zero in the field?
            other = None
            for s in np.linspace(-1, 1, 5):
                pass

            def zero2():
                # on the line where A.p + bil*x*y vanishes: p != 0
                # A p = -bil*w, w = x*y -> p = -w*Ainv.bil =: -w*q
                q = np.linalg.solve(np.array(A).reshape(2, 2), bil)
                # w = x*y = w^2 q0 q1 -> w = 1/(q0 q1)
                if abs(q[0]*q[1]) < 1e-30:
                    return None
                w = 1/(q[0]*q[1])
                return z[0] - w*q[0], z[1] - w*q[1]
            o = zero2()
            lx, ly = ax[-1] - ax[0], ay[-1] - ay[0]
            if o is not None and (ax[0] - .1*lx <= o[0] <= ax[-1] + .1*lx
                                  and ay[0] - .1*ly <= o[1]
                                  <= ay[-1] + .1*ly):
                continue
            typ = kind_of(A)
            # the type is given by the mean gradient of the cell
            dx, dy = cellsize(ax, ay, z)
            e = np.abs(bil).max()*max(dx, dy)
            disc = (a - d)**2 + 4*b*c
            if abs(disc) < 8*e*np.abs(A).max() and typ != "sadd":
                continue

            def fn():
                vf = field(ax, ay, A, z, bil=bil)
                cp = get_critical_points(vf)
                only(points(cp), typ, z, 1e-5*np.array([lx, ly]))
            ck.case("bilinear|%s|%s" % (gname, typ),
                    "%s + %s xy around %s" % (fname, bil, z), fn,
                    state=("bil", gname, fname, z, bil))


def others(ck):
    """criteria-based detection: within a cell of the zero"""
    from IMTreatment.vortex_detection import get_critical_points
    ax, ay = np.arange(12.), 3. + np.arange(13.)
    pure = ["centre", "spiral out", "star out", "star in", "saddle",
            "turned saddle"]
    flows = [(n, A) for n, A in FLOWS if n in pure]
    flows.append(("centre cw", (0., 1., -1., 0.)))
    for (fname, A), (cell, z) in itertools.product(
            flows, zeros(ax, ay, [(4, 5), (6, 4), (5, 6), (0, 0), (3, 9)],
                         (0., .25, .5, .75))):
        typ = kind_of(A)

        def fn():
            vf = field(ax, ay, A, z)
            snap = fm.snap(vf)
            cp = get_critical_points(vf, kind="pbi_crit")
            only(points(cp), typ, z, np.array([1., 1.]))
            expect(fm.snap(vf) == snap, "field modified")
        ck.case("pbi_crit|%s" % typ, "%s around %s" % (fname, z), fn,
                state=("crit", fname, z))
        if fname in ("centre", "centre cw") and cell[0] not in (0, 3):
            for ws in (2, 3, 4):
                def fn():
                    vf = field(ax, ay, A, z)
                    cp = get_critical_points(vf, kind="gam_vort",
                                             window_size=ws)
                    only(points(cp), typ, z, np.array([1., 1.]))
                ck.case("gam_vort|%s" % typ, "%s around %s window %d" % (
                    fname, z, ws), fn, state=("gam", fname, z, ws))
        for size in (1, 2):
            def fn():
                vf = field(ax, ay, A, z)
                snap = fm.snap(vf)
                cp = get_critical_points(vf, smoothing_size=size)
                expect(fm.snap(vf) == snap, "smoothing modified the field")
                if 3 <= cell[0] <= 7 and 3 <= cell[1] <= 8:
                    pts = points(cp)
                    near = [p for p in pts[typ]
                            if np.all(np.abs(p - z) <= 1.)]
                    expect(len(near) == 1, "smoothed field",
                           lambda: {t: p.tolist() for t, p in pts.items()})
            if z[0] % 1 == .25:
                ck.case("smoothing|%s" % typ, "%s around %s size %d" % (
                    fname, z, size), fn, state=("smooth", fname, z, size))


def units(ck):
    """same points whatever the units"""
    from IMTreatment.vortex_detection import get_critical_points
    gname, ax, ay = GRIDS[0]
    for (fname, A), (ux, uy, uv) in itertools.product(
            FLOWS, itertools.product(("", "mm", "m"), ("", "m", "km"),
                                     ("", "mm/s"))):
        def fn():
            z = (2.25, 3.5)
            cp = get_critical_points(field(ax, ay, A, z, ux, uy, uv),
                                     time=.5, unit_time="ms")
            only(points(cp), kind_of(A), z, 1e-6)
            p = getattr(cp, kind_of(A))[0]
            for o in (p, cp):
                expect(fm.same_unit(o.unit_x, fm.U(ux))
                       and fm.same_unit(o.unit_y, fm.U(uy)), "axis units",
                       lambda: (str(o.unit_x), str(o.unit_y)))
            expect(fm.same_unit(p.unit_v, fm.U("ms"))
                   and fm.same_unit(cp.unit_time, fm.U("ms")), "time unit",
                   lambda: (str(p.unit_v), str(cp.unit_time)))
        ck.case("units", "%s in %s %s %s" % (fname, ux, uy, uv), fn,
                state=("units", fname, ux, uy, uv))


def series(ck):
    """a temporal series: each time has its own points"""
    from IMTreatment import TemporalVectorFields
    from IMTreatment.vortex_detection import get_critical_points
    gname, ax, ay = GRIDS[0]
    zs = [(1.5, 2.25), (2.75, 3.), (3., 1.25)]
    picks = [FLOWS[k] for k in (0, 1, 5, 12, 6)]
    for combo in itertools.product(picks, repeat=3):
        for thread in (1, 2):
            if thread == 2 and (combo[0] != combo[1]
                                and not ck.thorough
                                or len(set(combo)) == 1):
                continue
            if thread == 2 and picks.index(combo[0]) % 2:
                continue

            def fn():
                tvf = TemporalVectorFields()
                times = [1., 2., 4.]
                for (n, A), z, t in zip(combo, zs, times):
                    tvf.add_field(field(ax, ay, A, z), time=t, unit_times="s")
                cp = get_critical_points(tvf, thread=thread)
                expect(list(cp.times) == times
                       and fm.same_unit(cp.unit_time, fm.U("s")), "times",
                       lambda: cp.times)
                for i, ((n, A), z) in enumerate(zip(combo, zs)):
                    only(points(cp, i), kind_of(A), z, 1e-6)
            ck.case("series|%d" % thread, "%s thread=%d" % (
                [n for n, A in combo], thread), fn,
                state=("series", tuple(n for n, A in combo), thread))


def mirrored(ck):
    """walls: the points of the field are still found, once"""
    from IMTreatment.vortex_detection import get_critical_points
    gname, ax, ay = GRIDS[0]
    walls = [["x", -.5], ["x", -1.], ["x", 5.5], ["y", -.5], ["y", 6.]]
    for (fname, A), z, wall in itertools.product(
            FLOWS, [(1.5, 2.25), (2.75, 3.25), (3.5, 1.125)], walls):
        for kind in ("pbi", "pbi_cell"):
            def fn():
                vf = field(ax, ay, A, z)
                snap = fm.snap(vf)
                cp = get_critical_points(vf, kind=kind, mirroring=[wall])
                pts = points(cp)
                typ = kind_of(A)
                tol = 1e-6 if kind == "pbi" else .5 + 1e-9
                k = 0 if wall[0] == "x" else 1
                here = [p for p in pts[typ]
                        if np.all(np.abs(p - z) <= tol)]
                expect(len(here) == 1, "point of the field lost",
                       lambda: {t: p.tolist() for t, p in pts.items()})
                for t in TYPES:
                    for p in pts[t]:
                        expect(t == typ and np.all(np.abs(p - z) <= tol)
                               or abs(p[k] - wall[1]) <= 2.,
                               "point from nowhere",
                               lambda: (t, p.tolist()))
                expect(fm.snap(vf) == snap, "field modified")
            ck.case("mirroring|%s" % kind, "%s around %s wall %s" % (
                fname, z, wall), fn, state=("mirror", fname, z, str(wall),
                                            kind))


def vortices(ck):
    """vortex position from a criterion"""
    from IMTreatment import VectorField
    from IMTreatment.vortex_detection import get_vortex_position
    from IMTreatment.vortex_criterions import get_vorticity
    ax, ay = np.arange(13.), np.arange(11.)
    X, Y = np.meshgrid(ax, ay, indexing="ij")
    for sg, (cx, cy), crit in itertools.product(
            (1., -1.), itertools.product((4., 5.5, 6.25), (4., 5.25, 6.5)),
            ("residual", "vorticity")):
        kw = {} if crit == "residual" else {"criterion": get_vorticity}

        def vf():
            r2 = (X - cx)**2 + (Y - cy)**2
            f = VectorField()
            f.import_from_arrays(ax, ay, -sg*(Y - cy)*np.exp(-r2/6),
                                 sg*(X - cx)*np.exp(-r2/6), unit_x="m",
                                 unit_y="m", unit_values="m/s")
            return f

        def fn():
            cp = get_vortex_position(vf(), **kw)
            pts = points(cp)
            al = np.concatenate([pts[t] for t in TYPES])
            expect(len(al) == 1, "number of vortices",
                   lambda: {t: p.tolist() for t, p in pts.items()})
            expect(np.all(np.abs(al[0] - (cx, cy)) <= .5), "position",
                   lambda: (al[0].tolist(), (cx, cy)))
            n = {t: len(p) for t, p in pts.items()}
            expect(n["foc"] + n["foc_c"] == 1, "not a focus", lambda: n)
        ck.case("vortex position|" + crit, "vortex %+d at %s" % (
            sg, (cx, cy)), fn, state=("vortex", sg, cx, cy, crit))

        def fn():
            n = {t: len(p) for t, p in
                 points(get_vortex_position(vf(), **kw)).items()}
            want = "foc" if sg > 0 else "foc_c"
            expect(n[want] == 1, "sense opposite to get_critical_points",
                   lambda: (n, want))
        ck.case("vortex sense", "vortex %+d at %s, %s" % (
            sg, (cx, cy), crit), fn, state=("sense", sg, cx, cy, crit))


def refused(ck):
    from IMTreatment.vortex_detection import get_critical_points
    gname, ax, ay = GRIDS[0]
    for fname, A in FLOWS:
        def fn():
            vf = field(ax, ay, A, (2.5, 2.5))
            m = np.zeros(vf.shape, bool)
            m[1, 2] = True
            vf.mask = m
            snap = fm.snap(vf)
            try:
                get_critical_points(vf)
            except Exception:
                expect(fm.snap(vf) == snap, "field modified")
            else:
                expect(False, "masked field accepted")
        ck.case("refused", fname, fn, state=("refused", fname))
