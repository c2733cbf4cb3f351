"""C16: derivatives of fields that are polynomials of the coordinates."""
import itertools

import numpy as np

from mc import fm
from mc.core import expect
from mc.fm import U

GRIDS = [("even", [0., 1., 2., 3.], [0., .5, 1., 1.5, 2.]),
         ("offset", [-2., 0., 2.], [10., 11., 12., 13.]),
         ("tiny", [0., 1.], [3., 5.]),
         ("uneven", [0., 1., 3., 3.5], [-1., 0., .5, 2.]),
         ("uneven y", [1., 2., 3.], [0., .25, 2., 2.5, 4.])]
UNITS = [("m", "m", "m/s"), ("mm", "mm", "m/s"), ("m", "mm", "m/s"),
         ("", "", ""), ("km", "m", "mm/s"), ("m", "m", "kg"),
         ("s", "m", "m")]
COEF = (-1., 0., 2.)


def affine(ax, ay, c):
    X, Y = np.meshgrid(ax, ay, indexing="ij")
    return c[0] + c[1]*X + c[2]*Y


def neigh(mask):
    """points whose own value or a direct neighbour's is missing"""
    m = mask.copy()
    m[1:] |= mask[:-1]
    m[:-1] |= mask[1:]
    m[:, 1:] |= mask[:, :-1]
    m[:, :-1] |= mask[:, 1:]
    return m


def same_grid(sf, m):
    o = fm.wellformed(sf)
    expect(fm.close(o.ax, m.ax) and fm.close(o.ay, m.ay), "grid",
           lambda: (o.ax.tolist(), o.ay.tolist()))
    expect(fm.same_unit(o.ux, m.ux) and fm.same_unit(o.uy, m.uy),
           "axes units", lambda: (str(o.ux), str(o.uy)))
    return o


def value(got, want, unit, m, label, where=None, comp=0, chkunit=True,
          rtol=1e-8, atol=1e-9):
    """`got` holds the quantity want*unit wherever it is not masked, and is
    not masked where all the needed data exist"""
    o = same_grid(got, m)
    if chkunit:
        try:
            r = fm.ratio(o.uv, unit)
        except Exception:
            expect(False, "unit of " + label, lambda: (str(o.uv), str(unit)))
    else:
        r = 1.
    want = np.zeros(m.shape) + want
    lost = o.mask & ~neigh(m.mask)
    if where is not None:
        lost &= where
    expect(not lost.any(), "lost points of " + label,
           lambda: o.mask.astype(int).tolist())
    sel = ~o.mask
    if where is not None:
        sel &= where
    expect(fm.close(o.comps[comp][sel]*r, want[sel], rtol=rtol,
                    atol=atol*max(1., np.max(np.abs(want)))), label,
           lambda: (np.array(o.comps[comp]*r).tolist(), want.tolist(),
                    str(o.uv)))
    return o


def run(ck):
    scalar(ck)
    vector(ck)
    masked(ck)
    general(ck)
    profiles(ck)
    reconstruct(ck)
    temporal(ck)


def scalar(ck):
    from IMTreatment import field_treatment as ft
    for (gn, ax, ay), (ux, uy, uv), c in itertools.product(
            GRIDS, UNITS, itertools.product((0., 3.), COEF, COEF)):
        def sf():
            m = fm.M(ax, ay, [affine(ax, ay, c)], None, ux, uy, uv)
            f = m.real()
            s0 = fm.snap(f)
            gx, gy = ft.get_gradients(f)
            value(gx, c[1], m.uv/m.ux, m, "x derivative")
            value(gy, c[2], m.uv/m.uy, m, "y derivative")
            rx, ry = ft.get_gradients(f, raw=True)
            expect(fm.close(np.ma.filled(rx, np.nan), 0*rx.data + c[1]) and
                   fm.close(np.ma.filled(ry, np.nan), 0*rx.data + c[2]),
                   "raw derivatives")
            expect(fm.snap(f) == s0, "field modified")
            return gn, ux, uy, uv, c
        ck.case("scalar|" + gn, (gn, ux, uy, uv, c), sf)


def eig(J):
    t, d = J[0] + J[3], J[0]*J[3] - J[1]*J[2]
    disc = t*t/4 - d
    if disc >= 0:
        return (t/2 + disc**.5, 0.), (t/2 - disc**.5, 0.)
    return (t/2, (-disc)**.5), (t/2, -(-disc)**.5)


def vector(ck):
    from IMTreatment import field_treatment as ft
    from IMTreatment import vortex_criterions as vc
    for (gn, ax, ay), (ux, uy, uv), c in itertools.product(
            GRIDS, UNITS, itertools.product(COEF, repeat=4)):
        if not ck.thorough and (ux, uy) != ("m", "m") and \
                c[0]*c[3] == 0 and c[1] == c[2]:
            continue
        m = fm.M(ax, ay, [affine(ax, ay, (3., c[0], c[1])),
                          affine(ax, ay, (-1., c[2], c[3]))], None,
                 ux, uy, uv)
        desc = (gn, ux, uy, uv, c)

        def grads():
            f = m.real()
            s0 = fm.snap(f)
            g = ft.get_gradients(f)
            for q, (n, u) in enumerate((("du/dx", m.ux), ("du/dy", m.uy),
                                        ("dv/dx", m.ux), ("dv/dy", m.uy))):
                value(g[q], c[q], m.uv/u, m, n)
            raw = ft.get_gradients(f, raw=True)
            for q in range(4):
                expect(fm.close(np.ma.filled(raw[q], np.nan),
                                np.zeros(m.shape) + c[q]),
                       "raw derivatives", lambda: q)
            expect(fm.snap(f) == s0, "field modified")
            return desc
        ck.case("vector|" + gn, desc, grads)

        def track():
            f = m.real()
            fm.compare(ft.get_track_field(f), fm.M(
                ax, ay, [-m.comps[1], m.comps[0]], None, ux, uy, uv))
        ck.case("track field", desc, track)

        def gradf():
            f = m.real()
            s0 = fm.snap(f)
            for q, d in enumerate("xy"):
                g = ft.get_grad_field(f, d)
                value(g, c[2*q], None, m, "x derivative", chkunit=False)
                if m.ux is m.uy or ux == uy:
                    # the unit is that of the values (pinned by a test)
                    k = 1./(fm.ratio(m.uv/m.ux, ft.get_gradients(f)[0]
                                     .unit_values))
                    value(g, c[2*q]/k, None, m, "x derivative",
                          chkunit=False)
                    value(g, c[2*q + 1]/k, None, m, "y derivative", comp=1,
                          chkunit=False)
            expect(fm.snap(f) == s0, "field modified")
        if m.uv is not None and (ux, uy) in (("m", "m"), ("", "")):
            ck.case("gradient field|" + gn, desc, gradf)

        def gradu():
            g = ft.get_grad_field(m.real(), "x")
            expect(not fm.same_unit(g.unit_values, m.uv),
                   "unit of the field kept")
            value(g, c[0], m.uv/m.ux, m, "gradient field")
        if (ux, uy, uv) == ("m", "m", "m/s"):
            ck.case("gradient field unit", desc, gradu)

        def shear():
            f = m.real()
            g = ft.get_shear_stress(f)
            value(g, c[2], None, m, "dv/dx", chkunit=False)
            value(g, c[1], None, m, "du/dy", comp=1, chkunit=False)
            raw = ft.get_shear_stress(f, raw=True)
            for q in (2, 1):
                expect(fm.close(raw[2 - q], np.zeros(m.shape) + c[q]),
                       "raw shear", lambda: q)
        ck.case("shear stress|" + gn, desc, shear)

        def shearu():
            g = ft.get_shear_stress(m.real())
            expect(not fm.same_unit(g.unit_values, m.uv),
                   "unit of the field kept")
            value(g, c[2], m.uv/m.ux, m, "shear")
        if (ux, uy, uv) == ("m", "m", "m/s"):
            ck.case("shear stress unit", desc, shearu)
        try:
            k = fm.ratio(m.ux, m.uy)
        except Exception:
            continue
        # derivatives along y per unit of x
        J = (c[0], c[1]*k, c[2], c[3]*k)

        def div():
            f = m.real()
            for mod in (ft, vc):
                value(mod.get_divergence(f), J[0] + J[3], m.uv/m.ux, m,
                      "divergence")
            return J[0] + J[3]
        ck.case("divergence|" + gn, desc, div)

        def eigen():
            f = m.real()
            r = ft.get_jacobian_eigenproperties(f)
            e1, e2 = eig(J)
            # (numpy orders complex eigenvalues by real, then imaginary part)
            for q, (n, w) in enumerate((("real part 1", e1[0]),
                                        ("imaginary part 1", e1[1]),
                                        ("real part 2", e2[0]),
                                        ("imaginary part 2", e2[1]))):
                value(r[q], w, m.uv/m.ux, m, n, rtol=1e-6,
                      atol=1e-6)
            if e1[1] == 0 and e1[0] - e2[0] > .1:
                for v, e in ((r[4], e1[0]), (r[5], e2[0])):
                    o = same_grid(v, m)
                    vx, vy = o.comps
                    expect(fm.close(J[0]*vx + J[1]*vy, e*vx, atol=1e-6) and
                           fm.close(J[2]*vx + J[3]*vy, e*vy, atol=1e-6),
                           "eigenvectors", lambda: (vx.tolist(),
                                                    vy.tolist(), e))
                    expect(fm.close(vx**2 + vy**2, 1 + 0*vx), "vector norm")
                k1, k2 = ft.get_Kenwright_field(f)
                for kf, v in ((k1, r[4]), (k2, r[5])):
                    w = v.comp_x*f.comp_y - v.comp_y*f.comp_x
                    value(kf, w, m.uv, m, "Kenwright field")
            vals = ft.get_jacobian_eigenproperties(f, eig_vect=False)
            expect(len(vals) == 4, "number of results")
            vects = ft.get_jacobian_eigenproperties(f, eig_val=False)
            expect(len(vects) == 2, "number of results")
            for a, b in zip(list(vals) + list(vects), r):
                expect(fm.snap(a) == fm.snap(b), "results differ")
            return desc
        if gn == "uneven" or (gn == "even" and (
                ck.thorough or (ux, uy) in (("m", "m"), ("m", "mm")))):
            ck.case("jacobian|" + gn, desc, eigen)


def masked(ck):
    from IMTreatment import field_treatment as ft
    shapes = [([0., 1., 2.], [0., .5, 1.])]
    if ck.thorough:
        shapes += [([0., 1., 2., 3.], [0., .5, 1.]),
                   ([0., 1., 3., 4.], [0., .5, 2.])]
    else:
        shapes += [([0., 1., 3.], [0., .5, 2.])]
    for (ax, ay), c in itertools.product(
            shapes, ((2., -1., 3., .5),)):
        for mask in fm.masks((len(ax), len(ay)), "all"):
            m = fm.M(ax, ay, [affine(ax, ay, (3., c[0], c[1])),
                              affine(ax, ay, (-1., c[2], c[3]))], mask,
                     "m", "m", "m/s")
            ms = fm.M(ax, ay, m.comps[:1], mask, "m", "m", "m/s")
            desc = (len(ax), ax[2], fm.mdesc(mask))

            def sf():
                f = ms.real()
                s0 = fm.snap(f)
                for q, g in enumerate(ft.get_gradients(f)):
                    value(g, c[q], ms.uv/ms.ux, ms, "derivative")
                for q, g in enumerate(ft.get_gradients(f, raw=True)):
                    g = np.ma.filled(g, np.nan)
                    expect(np.all(np.isnan(g) | (np.abs(g - c[q]) < 1e-9)),
                           "raw derivative")
                expect(fm.snap(f) == s0, "field modified")
            ck.case("masked scalar", desc, sf)

            def vf():
                f = m.real()
                s0 = fm.snap(f)
                for q, g in enumerate(ft.get_gradients(f)):
                    value(g, c[q], m.uv/m.ux, m, "derivative")
                value(ft.get_divergence(f), c[0] + c[3], m.uv/m.ux, m,
                      "divergence")
                for q, d in enumerate("xy"):
                    g = ft.get_grad_field(f, d)
                    value(g, c[2*q], None, m, "gradient field",
                          chkunit=False)
                    value(g, c[2*q + 1], None, m, "gradient field", comp=1,
                          chkunit=False)
                o = fm.obs(ft.get_track_field(f))
                expect(np.array_equal(o.mask, mask), "mask of track field")
                e = eig(c)
                r = ft.get_jacobian_eigenproperties(f)
                for q, w in enumerate((e[0][0], e[0][1], e[1][0], e[1][1])):
                    value(r[q], w, m.uv/m.ux, m, "eigenvalue")
                for a in ft.get_Kenwright_field(f):
                    same_grid(a, m)
                    expect(np.all(a.mask[mask]), "mask of Kenwright field")
                expect(fm.snap(f) == s0, "field modified")
            ck.case("masked vector", desc, vf)


def general(ck):
    """linearity, exactness on quadratic fields inside"""
    from IMTreatment import field_treatment as ft
    for gn, ax, ay in GRIDS:
        X, Y = np.meshgrid(ax, ay, indexing="ij")
        inside = np.zeros(X.shape, bool)
        inside[1:-1, 1:-1] = True
        for c in itertools.product((0., 1., -2.), repeat=3):
            def quad():
                V = c[0]*X*X + c[1]*X*Y + c[2]*Y*Y + X
                m = fm.M(ax, ay, [V], None, "m", "m", "m/s")
                gx, gy = ft.get_gradients(m.real())
                value(gx, 2*c[0]*X + c[1]*Y + 1, m.uv/m.ux, m,
                      "x derivative", inside)
                value(gy, c[1]*X + 2*c[2]*Y, m.uv/m.uy, m, "y derivative",
                      inside)
            if gn != "tiny":
                ck.case("quadratic|" + gn, (gn, c), quad)
        n = X.size
        # gradient of every unit impulse only involves the neighbours
        for p in range(n):
            def impulse():
                V = np.zeros(n)
                V[p] = 1.
                V = V.reshape(X.shape)
                m = fm.M(ax, ay, [V], None, "m", "m", "m/s")
                gx, gy = ft.get_gradients(m.real())
                i, j = np.unravel_index(p, X.shape)
                for g, nm in ((gx.values, 0), (gy.values, 1)):
                    for a, b in itertools.product(*map(range, X.shape)):
                        d = (abs(a - i), abs(b - j))
                        if d[1 - nm] != 0 or d[nm] > 2:
                            expect(g[a, b] == 0, "reach of derivative",
                                   lambda: (nm, (i, j), (a, b)))
                # linearity and uniform shift
                W = fm.vals(X.shape, 1)
                mw = fm.M(ax, ay, [W], None, "m", "m", "m/s")
                ms = fm.M(ax, ay, [2*V - 3*W + 5], None, "m", "m", "m/s")
                wx, wy = ft.get_gradients(mw.real())
                sx, sy = ft.get_gradients(ms.real())
                expect(fm.close(sx.values, 2*gx.values - 3*wx.values,
                                atol=1e-8) and
                       fm.close(sy.values, 2*gy.values - 3*wy.values,
                                atol=1e-8), "linearity")
            ck.case("impulse|" + gn, (gn, p), impulse)


def profiles(ck):
    from IMTreatment import Profile
    from IMTreatment import field_treatment as ft
    for dx, x0, a, b, n in itertools.product((1., .5, 2.), (0., -3.),
                                             (0., 2.), COEF, (4, 6)):
        def prof():
            x = x0 + dx*np.arange(n)
            p = Profile(x, a + b*x, unit_x="s", unit_y="m")
            s0 = fm.snap(p)
            g = ft.get_gradients(p)
            expect(fm.close(g.x, x), "positions")
            r = fm.ratio(g.unit_y, U("m/s"))
            if b != 0 and dx != 1:
                expect(not fm.close(np.asarray(g.y, float)*r, b*dx + 0*x),
                       "not divided by the step", lambda: g.y)
            expect(fm.close(np.asarray(g.y, float)*r, b + 0*x, atol=1e-9),
                   "derivative", lambda: g.y)
            expect(fm.snap(p) == s0, "profile modified")
        ck.case("profile|" + ("step 1" if dx == 1 else "other step"),
                (dx, x0, a, b, n), prof)


def reconstruct(ck):
    from IMTreatment import field_treatment as ft
    for (gn, ax, ay), (ux, uy, uv), c in itertools.product(
            GRIDS, UNITS, itertools.product(COEF, COEF)):
        def rec():
            V = affine(ax, ay, (1., c[0], c[1]))
            m = fm.M(ax, ay, [V], None, ux, uy, uv)
            f = m.real()
            r = ft.reconstruct_from_gradients(*ft.get_gradients(f))
            value(r, V - V.mean(), m.uv, m, "reconstructed field")
        ck.case("reconstruction|" + gn, (gn, ux, uy, uv, c), rec)

        def rec2():
            V = affine(ax, ay, (1., c[0], c[1]))
            W = affine(ax, ay, (2., c[1], -c[0]))
            m = fm.M(ax, ay, [V, W], None, ux, uy, uv)
            f = m.real()
            r = ft.reconstruct_from_gradients(*ft.get_gradients(f))
            value(r, V - V.mean(), m.uv, m, "reconstructed field")
            value(r, W - W.mean(), m.uv, m, "reconstructed field", comp=1)
        ck.case("reconstruction v|" + gn, (gn, ux, uy, uv, c), rec2)


def temporal(ck):
    from IMTreatment import TemporalVectorFields
    from IMTreatment import field_treatment as ft
    from IMTreatment import vortex_criterions as vc
    ax, ay = GRIDS[0][1:]
    for order in itertools.permutations(range(3)):
        def div():
            ts = TemporalVectorFields()
            for q in order:
                m = fm.M(ax, ay, [affine(ax, ay, (0., q, 1.)),
                                  affine(ax, ay, (0., 1., 2.*q))], None,
                         "m", "m", "m/s")
                ts.add_field(m.real(), time=q*.5 - 1, unit_times="s")
            for mod in (ft, vc):
                d = mod.get_divergence(ts)
                expect(fm.close(d.times, [-1., -.5, 0.]), "times")
                expect(fm.same_unit(d.unit_times, U("s")), "unit of times")
                for q in range(3):
                    value(d.fields[q], 3.*q, m.uv/m.ux, m, "divergence")
        ck.case("series", order, div)
