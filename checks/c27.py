"""C27: boundary layer quantities of profiles and fields, and model layers."""
import contextlib
import io
import itertools
import os

import numpy as np

from mc import fm
from mc.core import expect

XS = [np.arange(5.), np.array([.5, 1., 2., 4., 4.5]),
      np.array([0., .1, .2, .5, 1.])]


def crossing(x, y, v):
    """first position where the joined points take the value v"""
    for k in range(len(x)):
        if y[k] == v:
            return x[k]
        if k + 1 < len(x) and (y[k] - v)*(y[k + 1] - v) < 0:
            return x[k] + (v - y[k])/(y[k + 1] - y[k])*(x[k + 1] - x[k])
    return None


def thick(x, y, perc=.95):
    return crossing(x, y, np.max(y)*perc)


def layer(x, y):
    d = thick(x, y)
    k = x <= d
    x, y = x[k], y[k]
    if len(x) and x[0] != 0:
        x, y = np.append(0., x), np.append(0., y)
    return x, y


def displ(x, y):
    if thick(x, y) == 0:
        return 0.
    a, b = layer(x, y)
    return np.trapz(1 - b/np.max(b), a) if len(a) else 0.


def mom(x, y):
    if thick(x, y) == 0:
        return 0.
    a, b = layer(x, y)
    b = b/np.max(b) if len(b) else b
    return np.trapz(b*(1 - b), a)


def ambiguous(x, y, perc):
    """values so near the limit that rounding decides"""
    v = np.max(y)*perc
    return np.any((np.abs(y - v) < 1e-9) & (y != v))


@contextlib.contextmanager
def quiet():
    """the solvers print at C level"""
    so, se = os.dup(1), os.dup(2)
    nul = os.open(os.devnull, os.O_WRONLY)
    try:
        os.dup2(nul, 1)
        os.dup2(nul, 2)
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        os.dup2(so, 1)
        os.dup2(se, 2)
        for f in (so, se, nul):
            os.close(f)


def run(ck):
    profiles(ck)
    stress(ck)
    fields(ck)
    separation(ck)
    two_zeros(ck)
    models(ck)


def prof(x, y, mask=None, ux="m", uy="m/s"):
    from IMTreatment import Profile
    return Profile(x, y, mask=False if mask is None else mask, unit_x=ux,
                   unit_y=uy)


def profiles(ck):
    import IMTreatment.boundary_layer as bl
    lev = (0., 1., 2., 3., 4.) if ck.thorough else (0., 1., 3., 4.)
    for n, x in enumerate(XS):
        for y in itertools.product(lev, repeat=5):
            if max(y) == 0:
                continue
            y = np.array(y)

            def fn():
                p = prof(x, y)
                b = fm.snap(p)
                out = []
                for perc in (.95, .5, .99):
                    if ambiguous(x, y, perc):
                        continue
                    w = thick(x, y, perc)
                    if w is None:
                        continue        # never takes the value
                    r = bl.get_bl_thickness(p) if perc == .95 else \
                        bl.get_bl_thickness(p, perc=perc)
                    expect(fm.close(r, w), "thickness", lambda: (perc, r, w))
                    out.append(round(w, 6))
                d = thick(x, y)
                if d is not None and len(layer(x, y)[0]) and \
                        np.max(layer(x, y)[1]) > 0 and d > 0:
                    r, w = bl.get_displ_thickness(p), displ(x, y)
                    expect(fm.close(r, w), "displacement thickness",
                           lambda: (r, w))
                    r2, w2 = bl.get_momentum_thickness(p), mom(x, y)
                    expect(fm.close(r2, w2), "momentum thickness",
                           lambda: (r2, w2))
                    if w2 > 0:
                        r3 = bl.get_shape_factor(p)
                        expect(fm.close(r3, w/w2), "shape factor",
                               lambda: (r3, w/w2))
                    for tau in (.25, 4.):
                        r4 = bl.get_clauser_thickness(p, tau=tau, rho=100.)
                        w4 = w*y[-1]/np.sqrt(tau/100.)
                        expect(fm.close(r4, w4), "Clauser thickness",
                               lambda: (r4, w4))
                expect(fm.snap(p) == b, "profile modified")
                return out
            ck.case("profile", "x %s y %s" % (x.tolist(), y.tolist()), fn,
                    state=("prof", n, tuple(y)))


def stress(ck):
    import IMTreatment.boundary_layer as bl
    from IMTreatment import make_unit
    x = np.array([0., 1., 2., 3.])*.5
    for y in itertools.product((0., 1., -2., 4.), repeat=4):
        y = np.array(y)
        for ux, uy, (nu, rho) in (("m", "m/s", (1e-6, 1000.)),
                                  ("mm", "cm/s", (.5, 2.))):
            def fn():
                p = prof(x, y, ux=ux, uy=uy)
                b = fm.snap(p)
                k = {} if ux == "m" else {"nu": nu, "rho": rho}
                t = bl.get_shear_stress(p, **k)
                unit = make_unit(uy)/make_unit(ux)*make_unit("kg/m/s")
                f = fm.ratio(t.unit_y, unit)
                g = np.gradient(y, .5)*nu*rho
                expect(fm.close(t.x, x) and fm.close(t.y*f, g, atol=1e-12),
                       "shear stress", lambda: (t.y.tolist(), f, g.tolist()))
                t2 = bl.get_shear_stress(p, respace=True, **k)
                expect(fm.close(t2.y*fm.ratio(t2.unit_y, unit), g,
                                atol=1e-12), "respaced",
                       lambda: (t2.y.tolist(), g.tolist()))
                t = bl.get_shear_stress(p, method="wall_law_lin", **k)
                f = fm.ratio(t.unit_y, unit)
                expect(fm.close(t.x, x[1:]) and
                       fm.close(t.y*f, y[1:]/x[1:]*nu*rho, atol=1e-12),
                       "shear stress from the linear law",
                       lambda: t.y.tolist())
                # missing values stay missing
                for hole in range(4):
                    mask = np.arange(4) == hole
                    q = prof(x, y, mask, ux, uy)
                    t = bl.get_shear_stress(q, method="wall_law_lin", **k)
                    want = np.where(mask, np.nan, y)[1:]/x[1:]*nu*rho
                    expect(fm.close(t.x, x[1:]) and
                           np.array_equal(np.array(t.mask, bool), mask[1:]),
                           "mask", lambda: (hole, t.mask))
                    expect(fm.close(np.where(t.mask, np.nan, t.y) *
                                    fm.ratio(t.unit_y, unit), want,
                                    atol=1e-12), "linear law of a profile "
                           "with missing values")
                # stress at the wall
                if g[0] > 0 and ux == "m" and thick(x, y):
                    d = displ(x, y)*y[-1]/np.sqrt(g[0]/rho)
                    for kw in ({}, {"rho": rho*2, "nu": nu*3}):
                        d2 = d if not kw else d/np.sqrt(3)
                        r = bl.get_clauser_thickness(p, **kw)
                        expect(fm.close(r, d2), "Clauser thickness",
                               lambda: (r, d2))
                expect(fm.snap(p) == b, "profile modified")
            ck.case("stress", "y %s in %s of %s" % (y.tolist(), uy, ux), fn,
                    state=("stress", tuple(y), ux))

        def uneven():
            # respaced: straight lines between the points
            X = np.array([0., .5, 2., 3.])
            p = prof(X, y)
            b = fm.snap(p)
            t = bl.get_shear_stress(p, respace=True, nu=.5, rho=2.)
            h = np.diff(t.x)
            expect(np.allclose(h, h[0]) and t.x[0] == 0. and
                   abs(t.x[-1] - 3.) < 1e-9, "evenly spaced",
                   lambda: t.x.tolist())
            w = np.gradient(np.interp(t.x, X, y), h[0])
            expect(fm.close(t.y*fm.ratio(t.unit_y, make_unit("kg/m/s**2")),
                            w, atol=1e-9), "respaced",
                   lambda: (t.y.tolist(), w.tolist()))
            expect(fm.snap(p) == b, "profile modified")
        ck.case("stress|respace", "y %s" % y.tolist(), uneven,
                state=("resp", tuple(y)))
    # log law: a profile made from a known friction velocity
    for us, nu, rho in itertools.product((.01, .05, .2), (1e-6, 1e-5),
                                         (1000., 800.)):
        def fn():
            y = np.array([.01, .02, .05])
            u = us*(1/.41*np.log(y*us/nu) + 5.1)
            t = bl.get_shear_stress(prof(y, u), method="wall_law_log", nu=nu,
                                    **({} if rho == 1000. else
                                       {"rho": rho}))
            expect(fm.close(t.y, rho*us**2*np.ones(3), rtol=1e-4),
                   "shear stress from the logarithmic law",
                   lambda: (t.y.tolist(), rho*us**2))
        ck.case("stress|log law", "u* %s nu %s rho %s" % (us, nu, rho), fn,
                state=("log", us, nu, rho))


def fields(ck):
    """a field gives the profile of what its own profiles give"""
    import IMTreatment.boundary_layer as bl
    from IMTreatment import ScalarField, make_unit
    lines = [(0., 1., 2., 3., 4.), (0., 3., 4., 4., 4.), (1., 2., 4., 3., 3.),
             (0., .5, .5, 3., 8.), (0., 2., 1., 4., 4.)]
    wall = XS[0]
    pos = np.array([-1., 0., 2.])
    funcs = [("get_bl_thickness", lambda x, y: thick(x, y), {}, "len"),
             ("get_bl_thickness", lambda x, y: thick(x, y, .5),
              {"perc": .5}, "len"),
             ("get_displ_thickness", displ, {}, "len"),
             ("get_momentum_thickness", mom, {}, "len"),
             ("get_shape_factor", lambda x, y: displ(x, y)/mom(x, y)
              if mom(x, y) > 0 else np.nan, {},
              "")]
    for sel in itertools.permutations(range(5), 3):
        for direction, (ux, uy) in itertools.product(
                (1, 2), (("m", "m"), ("m", "mm"))):
            sf = ScalarField()
            val = np.array([lines[k] for k in sel])
            if direction == 1:
                sf.import_from_arrays(pos, wall, val, unit_x=ux, unit_y=uy,
                                      unit_values="m/s")
            else:
                sf.import_from_arrays(wall, pos, val.T, unit_x=ux, unit_y=uy,
                                      unit_values="m/s")
            up, uw = (ux, uy) if direction == 1 else (uy, ux)
            for name, ref, kw, kind in funcs:
                def fn():
                    b = fm.snap(sf)
                    r = getattr(bl, name)(sf, direction=direction, **kw)
                    w = [ref(wall, v) for v in val]
                    expect(fm.close(r.x, pos), "positions", lambda: r.x)
                    expect(fm.close(r.y, w), "values",
                           lambda: (r.y.tolist(), w))
                    expect(fm.same_unit(r.unit_x, fm.U(up)),
                           "unit of the positions", lambda: str(r.unit_x))
                    expect(fm.same_unit(r.unit_y, fm.U(uw if kind else "")),
                           "unit of the values", lambda: str(r.unit_y))
                    expect(fm.snap(sf) == b, "field modified")
                ck.case("field|" + name, "lines %s direction %d in %s, %s%s"
                        % (sel, direction, ux, uy, kw or ""), fn,
                        state=("field", sel, direction, ux, uy, name,
                               str(kw)))

            def fn():
                r = bl.get_shear_stress(sf, direction=direction, nu=.5,
                                        rho=2.)
                w = np.array([np.gradient(v, 1.) for v in val])
                if direction == 2:
                    w = w.T
                unit = make_unit("m/s")/make_unit(uw)*make_unit("kg/m/s")
                f = fm.ratio(r.unit_values, unit)
                expect(r.shape == w.shape and fm.close(r.values*f, w),
                       "values", lambda: (r.values.tolist(), f, w.tolist()))
                expect(fm.close(r.axe_x, sf.axe_x) and
                       fm.close(r.axe_y, sf.axe_y), "axes")
                expect(fm.same_unit(r.unit_x, fm.U(ux)) and
                       fm.same_unit(r.unit_y, fm.U(uy)), "units of the axes",
                       lambda: (str(r.unit_x), str(r.unit_y)))
                expect(not np.any(r.mask), "mask")
            ck.case("field|get_shear_stress", "lines %s direction %d in %s, "
                    "%s" % (sel, direction, ux, uy), fn,
                    state=("fstress", sel, direction, ux, uy))

            def fn():
                r = bl.get_clauser_thickness(sf, direction=direction,
                                             tau=.25, rho=100.)
                w = [displ(wall, v)*v[-1]/np.sqrt(.25/100.) for v in val]
                expect(fm.close(r.x, pos) and fm.close(r.y, w), "values",
                       lambda: (r.y.tolist(), w))
            ck.case("field|get_clauser_thickness", "lines %s direction %d "
                    "in %s, %s" % (sel, direction, ux, uy), fn,
                    state=("fcl", sel, direction, ux, uy))


def separation(ck):
    """zero of the streamwise speed, linear towards the wall"""
    from IMTreatment.boundary_layer.boundary_layer import \
        get_separation_position
    from IMTreatment import VectorField, ScalarField, TemporalVectorFields
    ax, ay = np.linspace(-3., 3., 13), 1. + np.linspace(0., 2., 9)
    for a, b in itertools.product((-.6, .1, .37), (-.5, 0., .4)):
        for wd, wp, n in itertools.product(
                (1, 2), (.5, 1., 1.1, 1.6, 2., 2.9, 3., 3.2), (2, 4)):
            def make(cls, c=0.):
                X, Y = np.meshgrid(ax, ay, indexing="ij")
                v = X - (a + c) - b*Y
                f = cls()
                z = np.zeros(v.shape)
                if wd == 2:
                    args = (ax, ay, v) + (() if cls is ScalarField else (z,))
                else:
                    args = (ay, ax, v.T) if cls is ScalarField else \
                        (ay, ax, z.T, v.T)
                f.import_from_arrays(*args, unit_x="m", unit_y="m",
                                     unit_values="m/s")
                return f

            def fn():
                want = a + b*wp
                for cls in (VectorField, ScalarField):
                    f = make(cls)
                    s = fm.snap(f)
                    r = get_separation_position(f, wd, wp, nmb_lines=n)
                    expect(fm.close(r, want, atol=1e-6), "separation",
                           lambda: (cls.__name__, r, want))
                    r = get_separation_position(f, wd, wp, [-2.9, 2.9],
                                                nmb_lines=n)
                    expect(fm.close(r, want, atol=1e-6), "interval",
                           lambda: (cls.__name__, r, want))
                    expect(fm.snap(f) == s, "field modified")
                if n == 4:
                    t = TemporalVectorFields()
                    for k in range(3):
                        t.add_field(make(VectorField, .3*k), time=2.*k,
                                    unit_times="s")
                    p = get_separation_position(t, wd, wp)
                    expect(fm.close(p.x, [0., 2., 4.]) and
                           fm.close(p.y, [want, want + .3, want + .6],
                                    atol=1e-6), "separation in time",
                           lambda: (p.y, want))
                    expect(fm.same_unit(p.unit_x, fm.U("s")) and
                           fm.same_unit(p.unit_y, fm.U("m")),
                           "units in time")
            ck.case("separation", "position %s + %s*wall, wall direction %d "
                    "at %s, %d lines" % (a, b, wd, wp, n), fn,
                    state=("sep", a, b, wd, wp, n))


# -- model layers -------------------------------------------------------------

def models(ck):
    blasius(ck)
    confined(ck)
    falknerskan(ck)
    thwaites(ck)
    walllaw(ck)


def blasius(ck):
    from IMTreatment.boundary_layer import BlasiusBL
    # the similarity solution by Runge-Kutta
    N, h = 10000, 1e-3
    f = np.zeros((N + 1, 3))
    f[0] = 0, 0, .332057336

    def d(F):
        return np.array([F[1], F[2], -.5*F[0]*F[2]])
    for k in range(N):
        a = d(f[k])
        b = d(f[k] + h/2*a)
        c = d(f[k] + h/2*b)
        e = d(f[k] + h*c)
        f[k + 1] = f[k] + h/6*(a + 2*b + 2*c + e)
    eta = h*np.arange(N + 1)
    for U, nu, rho in itertools.product((.1, 1., 5.), (1e-6, 1e-4),
                                        (1000., 1.2)):
        B = BlasiusBL(U, nu, rho)

        def props(x, turb):
            with quiet():
                r = B.get_BL_properties(x, allTurbulent=turb)
            expect(all(len(v) == len(x) for v in r), "lengths")
            for k, xx in enumerate(x):
                dl, d2, ds, H, Cf, Re, tau = [v[k] for v in r]
                if xx == 0:
                    expect(dl == d2 == ds == Cf == Re == tau == 0.,
                           "leading edge")
                    continue
                R = U*xx/nu
                expect(fm.close(Re, R), "Reynolds number")
                expect(fm.close(tau, Cf*.5*rho*U**2), "wall stress")
                if R < 5e5 and not turb:
                    s = xx/np.sqrt(R)
                    # against the similarity solution
                    expect(abs(dl/s - np.interp(.99, f[:, 1], eta)) < .02,
                           "thickness", lambda: dl/s)
                    expect(abs(d2/s - .6641) < 1e-3, "momentum thickness",
                           lambda: d2/s)
                    expect(abs(ds/s - 1.7208) < 3e-3, "displacement",
                           lambda: ds/s)
                    expect(abs(Cf*np.sqrt(R) - .6641) < 1e-3, "friction")
                    expect(abs(H - ds/d2) < 1e-9, "shape factor")
                    with quiet():
                        r95 = B.get_BL_properties(np.array([xx]),
                                                  bl_perc="95")[0][0]
                    expect(abs(r95/s - np.interp(.95, f[:, 1], eta)) < .02,
                           "thickness at 95%", lambda: r95/s)
                else:
                    expect(fm.close(dl, .3806*xx/R**.2), "thickness")
                    expect(fm.close(Cf, .0592/R**.2), "friction")
                with quiet():
                    back = B.get_x_from_delta(dl, allTurbulent=turb)
                expect(fm.close(back, xx, rtol=1e-6), "position from the "
                       "thickness", lambda: (back, xx))
        for x in (np.array([.1]), np.array([0., .01, .5, 2.]),
                  np.array([4., 1e-3, 0.])):
            for turb in (False, True):
                ck.case("blasius|properties", "U %s nu %s rho %s at %s "
                        "turbulent %s" % (U, nu, rho, x.tolist(), turb),
                        lambda: props(x, turb),
                        state=("blas", U, nu, rho, tuple(x), turb))

        def profile(x, e0, turb):
            s = np.sqrt(x*nu/U)
            with quiet():
                if turb:
                    s = .3806*x/(U*x/nu)**.2
                if e0 is None:
                    p = B.get_profile(x, allTurbulent=turb)
                else:
                    p = B.get_profile(x, y=e0*s, allTurbulent=turb)
                    expect(fm.close(p.x, e0*s), "positions",
                           lambda: (p.x, e0*s))
            q = np.asarray(p.x)/s
            w = np.interp(q, eta, f[:, 1]) if not turb else \
                np.where(q > 1, 1., np.power(np.minimum(q, 1.), 1/7.))
            expect(np.all(np.abs(np.asarray(p.y)/U - w) < 1e-3), "profile",
                   lambda: (q.tolist(), (p.y/U).tolist(), w.tolist()))
            expect(fm.same_unit(p.unit_x, fm.U("m")) and
                   fm.same_unit(p.unit_y, fm.U("m/s")), "unit")
        for x, e0, turb in itertools.product(
                (.05, .8), (None, np.array([0., 1., 4.]),
                            np.array([.5, 1., 4.9]), np.array([2., 7.]),
                            np.array([3.])),
                (False, True)):
            ck.case("blasius|profile", "U %s nu %s at %s, y %s turbulent %s"
                    % (U, nu, x, e0, turb), lambda: profile(x, e0, turb),
                    state=("blasp", U, nu, rho, x, str(e0), turb))


def thwaites(ck):
    from IMTreatment.boundary_layer import ThwaitesBL
    for c, m, nu in itertools.product((1., 3.), (0., .3, 1., -.05),
                                      (1e-6, 1e-4)):
        for h, uneven in itertools.product((.01, .5, 1.), (False, True)):
            def fn():
                T = ThwaitesBL(lambda x: c*x**m, nu=nu)
                x = h*np.arange(1, 9)
                if uneven:
                    x = h*np.array([.5, 1., 1.5, 3., 3.5, 5., 6., 8.])
                I = c**4.68*x**(4.68*m + 1)/(4.68*m + 1)
                d2 = np.sqrt(.441*nu/(c*x**m)**5.68*I)
                r = T.get_momentum_thikness(x)
                expect(fm.close(r, d2, rtol=1e-5), "momentum thickness",
                       lambda: (r, d2))
                expect(fm.close(float(T.get_momentum_thikness(x[3])), d2[3],
                                rtol=1e-5), "single position")
                la, r2, ds, H = T.get_BL_properties(x)
                grad = np.gradient(c*x**m, x)
                lw = d2**2/nu*grad
                expect(fm.close(r2, d2, rtol=1e-5), "momentum thickness")
                expect(fm.close(la, lw, rtol=1e-4, atol=1e-9),
                       "pressure gradient", lambda: (la, lw))
                for l, k in zip(lw, range(8)):
                    w = 2.61 - 3.75*l + 5.24*l**2 if 0 <= l < .1 else \
                        2.088 + .0731/(l + .14) if -.1 < l < 0 else np.nan
                    expect(fm.close(H[k], w, rtol=1e-4), "shape factor",
                           lambda: (l, H[k], w))
                    expect(fm.close(ds[k], w*d2[k], rtol=1e-4),
                           "displacement thickness")
            ck.case("thwaites", "u = %s*x**%s, nu %s, step %s%s" % (
                c, m, nu, h, " uneven" if uneven else ""), fn,
                state=("thw", c, m, nu, h, uneven))


def walllaw(ck):
    from IMTreatment.boundary_layer import WallLaw, WakeLaw
    for tau, delta, rho, nu in itertools.product(
            (.01, .5), (.03, .08), (1000., 800.), (1e-6, 2e-6)):
        h = .1

        def fn(cls):
            W = cls(h, tau, delta, visc_c=nu, rho=rho)
            us = np.sqrt(tau/rho)
            if delta*us/nu < 500:
                return
            y = np.concatenate([np.linspace(0., 14., 8)*nu/us,
                                np.linspace(.005, h, 12)])
            p = W.get_profile(y)

            def plus(yy):
                k = np.log(yy*us/nu)/.4 + 5.1
                if cls is WakeLaw:
                    k += 2*.55/.4*np.sin(np.pi*yy/(2*delta))**2
                return k
            w = np.array([0. if v == 0 else v*us/nu*us
                          if v*us/nu <= 11.63 else plus(min(v, delta))*us
                          for v in y])
            expect(fm.close(p.x, y), "positions")
            expect(fm.close(p.y, w, rtol=1e-9), "profile",
                   lambda: (p.y.tolist(), w.tolist()))
            expect(fm.same_unit(p.unit_x, fm.U("m")) and
                   fm.same_unit(p.unit_y, fm.U("m/s")), "unit")
            expect(not np.any(p.mask), "mask")
        for cls in (WallLaw, WakeLaw):
            ck.case("wall laws", "%s tau %s delta %s rho %s nu %s" % (
                cls.__name__, tau, delta, rho, nu), lambda: fn(cls),
                state=("law", cls.__name__, tau, delta, rho, nu))


def confined(ck):
    from IMTreatment.boundary_layer import BlasiusBL
    for U, nu, turb in itertools.product((.1, 1.), (1e-6, 1e-4),
                                         (False, True)):
        B = BlasiusBL(U, nu, 1000.)
        X = np.array([.01, .05, .2])

        def fn():
            with quiet():
                free = B.get_BL_properties(X, allTurbulent=turb)[0]
            for h in (.1, 1., np.array([.5, .2, 2.])):
                w = free*(1 - .26547*free/h)
                with quiet():
                    d = B.get_thickness_with_confinement(X, h,
                                                         allTurbulent=turb)
                expect(fm.close(d.x, X) and fm.close(d.y, w), "thickness",
                       lambda: (d.y.tolist(), w.tolist()))
                expect(fm.same_unit(d.unit_x, fm.U("m")) and
                       fm.same_unit(d.unit_y, fm.U("m")), "unit")
                if not isinstance(h, float):
                    continue
                for k, x in enumerate(X):
                    if w[k] <= 0:
                        continue
                    with quiet():
                        d1 = B.get_thickness_with_confinement(
                            x, h, allTurbulent=turb)
                        p = B.get_profile_with_confinement(
                            x, h, allTurbulent=turb)
                        y = np.array([.2, .5, 2.])*w[k]
                        q = B.get_profile_with_confinement(
                            x, h, y=y, allTurbulent=turb)
                    expect(fm.close(d1.y, w[k:k + 1]), "one position")
                    # the thickness of the profile is the confined one
                    f = .99 if not turb else .5**(1/7.)
                    at = np.interp(f*U, p.y, p.x) if not turb else \
                        np.interp(f*U, p.y, p.x)*2
                    expect(abs(at/w[k] - 1) < (.02 if not turb else .1),
                           "thickness of the profile",
                           lambda: (x, h, at, w[k]))
                    expect(fm.close(q.x, y), "positions")
                    if turb:
                        expect(fm.close(q.y, U*np.minimum(
                            1., (y/w[k])**(1/7.))), "profile",
                            lambda: (q.y.tolist()))
                    else:
                        expect(np.all(np.abs(q.y - np.interp(y, p.x, p.y)) <
                                      2e-3*U), "profile",
                               lambda: (q.y.tolist()))
        ck.case("blasius|confined", "U %s nu %s turbulent %s" % (U, nu,
                                                                 turb), fn,
                state=("conf", U, nu, turb))


def falknerskan(ck):
    import warnings
    from IMTreatment.boundary_layer.boundary_layer import FalknerSkanBL
    for m, nu, (c0, L), x in itertools.product(
            (0, -.05, .1, 1/3., .5, 1.), (1e-6, 1e-4),
            ((1., 1.), (.5, 2.)), (.1, .5, 3.)):
        B = FalknerSkanBL(nu, m, c0, L)
        ue = c0*(x/L)**m

        def fn():
            expect(fm.close(B.get_u_e(x), ue), "external velocity")
            for y in (0., 1e-3, .2):
                w = y*np.sqrt((m + 1)/2.*ue/(nu*x))
                r = B.get_mu(x, y)
                expect(fm.close(r, w), "similarity variable",
                       lambda: (r, w))
            s = list(warnings.filters)
            with quiet():
                y, v = B.get_profile(x)
            expect(list(warnings.filters) == s, "warnings' filters changed")
            h = y/np.sqrt(nu*x/ue)
            u = v/ue
            expect(abs(u[0]) < 1e-9 and abs(u[-1] - 1) < 1e-3, "boundaries")
            expect(np.all(np.diff(u) > -1e-4), "increasing")
            # balance of momentum across the layer
            a = u[1]/h[1] + m*h[1]/2
            b = (m + 1)/2.*np.trapz(u*(1 - u), h) + \
                m*np.trapz(1 - u*u, h)
            expect(abs(a - b) < 5e-3, "momentum balance", lambda: (a, b))
            known = {0: .33206, 1.: 1.23259, 1/3.: .75745}.get(m)
            if known:
                expect(abs(a - known) < 2e-3, "slope at the wall",
                       lambda: (a, known))
        ck.case("falkner-skan", "m %s nu %s c0 %s L %s at %s" % (
            m, nu, c0, L, x), fn, state=("fs", m, nu, c0, L, x))


def two_zeros(ck):
    """only the zeros inside the interval count"""
    from IMTreatment.boundary_layer.boundary_layer import \
        get_separation_position
    from IMTreatment import VectorField, TemporalVectorFields
    ax, ay = np.linspace(-3., 3., 13), 1. + np.linspace(0., 2., 9)
    for (z1, z2), wd, (lo, hi), n in itertools.product(
            itertools.combinations((-2.1, -.6, .3, 1.9), 2), (1, 2),
            ((-3., -1.), (-1., 0.), (0., 1.), (-1., 1.), (1., 3.),
             (-3., 3.)), (2, 4)):
        def make(c):
            X, Y = np.meshgrid(ax, ay, indexing="ij")
            v = np.where(X < (z1 + z2)/2, X - z1, z2 - X) + 0*Y
            v = v*(1 + c) + 0*Y
            z = 0*v
            f = VectorField()
            f.import_from_arrays(*((ax, ay, v, z) if wd == 2 else
                                   (ay, ax, z.T, v.T)), unit_x="m",
                                 unit_y="m", unit_values="m/s")
            return f

        def fn():
            ins = [z for z in (z1, z2) if lo < z < hi]
            f = make(0.)
            # zeros of the broken lines of the grid
            P = f.comp_x[:, 0] if wd == 2 else f.comp_y[0, :]
            zs = [ax[k] + P[k]/(P[k] - P[k + 1])*.5 for k in range(12)
                  if P[k]*P[k + 1] < 0]
            ins = [z for z in zs if lo < z < hi]
            if not ins:
                return
            r = get_separation_position(f, wd, 1.5, [lo, hi], nmb_lines=n)
            expect(fm.close(r, np.mean(ins), atol=1e-6), "interval",
                   lambda: (r, zs))
            t = TemporalVectorFields()
            for k in range(2):
                t.add_field(make(.5*k), time=2.*k, unit_times="s")
            p = get_separation_position(t, wd, 1.5, [lo, hi], nmb_lines=n)
            expect(fm.close(p.y, [np.mean(ins)]*2, atol=1e-6),
                   "interval in time", lambda: (p.y, zs))
        ck.case("separation|interval", "zeros %s %s direction %d in %s to %s"
                " with %d lines" % (z1, z2, wd, lo, hi, n), fn,
                state=("zeros", z1, z2, wd, lo, hi, n))
    # curved separation line: the number of lines matters
    for q, wp, wd, n in itertools.product((.1, -.2), (1.1, 1.6, 2.), (1, 2),
                                          (2, 4)):
        def lines():
            X, Y = np.meshgrid(ax, ay, indexing="ij")
            v = X - q*(Y - 1.)**2
            z = 0*v
            f = VectorField()
            f.import_from_arrays(*((ax, ay, v, z) if wd == 2 else
                                   (ay, ax, z.T, v.T)), unit_x="m",
                                 unit_y="m", unit_values="m/s")
            t = TemporalVectorFields()
            t.add_field(f, time=0., unit_times="s")
            t.add_field(f, time=1., unit_times="s")
            a = get_separation_position(f, wd, wp, nmb_lines=n)
            b = get_separation_position(t, wd, wp, nmb_lines=n)
            expect(fm.close(b.y, [a, a], atol=1e-9), "lines used in time",
                   lambda: (a, b.y))
        ck.case("separation|lines", "curve %s wall %s direction %d, %d "
                "lines" % (q, wp, wd, n), lines,
                state=("lines", q, wp, wd, n))
