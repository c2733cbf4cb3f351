"""Objects of every class in a few states, and the operations on them:
 - reads(cls): (label, arguments builder, function(object, *arguments)),
   none of which may alter anything;
 - variants(cls): (label, arguments, method name) of the operations that work
   in place or on a copy."""
import copy
import operator

import numpy as np
import unum

from mc import fm
from mc.fm import U, NAN
from mc.series import S

CLASSES = ["scalar field", "vector field", "profile", "points",
           "oriented points", "series s", "series v", "series of points"]
AXX, AXY = [-1., 0., 1., 2.], [0., .5, 1., 1.5, 2.]
UAX = [-1., 0., 2., 2.5]


def _mask(kind, shape):
    m = np.zeros(shape, bool)
    if kind == "hole":
        m[1, 2] = True
    elif kind == "border":
        m[0, :] = True
        m[:, -1] = True
        m[2, 1] = True
    elif kind == "corner":
        m[0, 0] = m[-1, -1] = True
    return m


def _vals(shape, k=0):
    return np.array([[((5*i + 3*j + 7*k + i*j) % 11)*.5 - 1.25
                      for j in range(shape[1])] for i in range(shape[0])])


def field(kind, mk="none", k=0, axx=None, uv="m/s", ux="m", uy="mm"):
    axx = AXX if axx is None else axx
    shape = (len(axx), len(AXY))
    return fm.M(axx, AXY, [_vals(shape, k + 3*c) for c in
                           range(1 if kind == "s" else 2)],
                _mask(mk, shape), ux, uy, uv).real()


def profile(mk="none", k=0, uneven=False):
    from IMTreatment import Profile
    x = np.array([0., 1., 2., 4., 7.] if uneven else
                 [0., 1., 2., 3., 4., 5.])
    y = np.array([((3*i*i + 2*k) % 7)*.5 - .75 for i in range(len(x))])
    m = np.zeros(len(x), bool)
    if mk == "hole":
        m[2] = True
    elif mk == "border":
        m[0] = m[-1] = m[3] = True
    return Profile(x, y, mask=m, unit_x="s", unit_y="m/s")


XY = [(0., 0.), (1., -2.), (-1.5, .5), (1., 3.), (2.5, -2.), (.5, 1.)]


def points(v=True, ori=False, n=6, doubl=False):
    from IMTreatment import Points, OrientedPoints
    xy = np.array(XY[:n], float)
    if doubl:
        xy[1] = xy[0]
    val = np.array([3., 1., 2., .5, 4., -1.][:n]) if v else []
    if ori:
        o = np.array([[[1., i], [-.5*i, 1.]] for i in range(n)])
        return OrientedPoints(xy, o, val, unit_x="m", unit_y="mm",
                              unit_v="s")
    return Points(xy, val, unit_x="m", unit_y="mm", unit_v="s", name="pts")


def series(kind, mk="none", n=3, times=(-1., .5, 2., 3.)):
    from IMTreatment import TemporalScalarFields, TemporalVectorFields
    ts = TemporalScalarFields() if kind == "s" else TemporalVectorFields()
    for q in range(n):
        ts.add_field(field(kind, mk if q != 1 or mk == "border" else "none",
                           q), time=times[q], unit_times="s")
    return ts


def tpoints(v=True):
    from IMTreatment.core.temporalpoints import TemporalPoints
    tp = TemporalPoints()
    for q, t in enumerate((1., -1., 3.)):
        p = points(v, n=6 - q)
        tp.add_pts(p, time=t, unit_times="s")
    return tp


def states(cls):
    if cls in ("scalar field", "vector field"):
        k = cls[0]
        for mk in ("none", "hole", "border", "corner"):
            yield mk, (lambda mk=mk: field(k, mk))
        yield "uneven", lambda: field(k, "hole", axx=UAX)
        if k == "s":
            def ints():
                from IMTreatment import ScalarField
                f = ScalarField()
                f.import_from_arrays(AXX, AXY, (4*_vals((4, 5))).astype(int),
                                     mask=False, unit_x="m", unit_y="mm",
                                     unit_values="m/s")
                return f
            yield "integers", ints
    elif cls == "profile":
        for mk in ("none", "hole", "border"):
            yield mk, (lambda mk=mk: profile(mk))
        yield "uneven", lambda: profile("hole", uneven=True)
    elif cls == "points":
        yield "values", lambda: points()
        yield "no values", lambda: points(False)
        yield "doubled", lambda: points(doubl=True)
    elif cls == "oriented points":
        yield "values", lambda: points(ori=True)
        yield "no values", lambda: points(False, ori=True)
    elif cls.startswith("series ") and cls[-2] == " ":
        k = cls[-1]
        for mk in ("none", "hole", "border"):
            yield mk, (lambda mk=mk: series(k, mk))
        yield "long", lambda: series(k, "hole", 4)
    else:
        yield "values", lambda: tpoints()
        yield "no values", lambda: tpoints(False)


def none():
    return ()


def _arith(k):
    """operators on fields and series"""
    res = [("neg", none, operator.neg)]
    num = [("number", lambda: (2.5,)), ("integer", lambda: (3,))]
    qty = [("quantity", lambda: (2.*U("m/s"),))]
    arr = [("array", lambda: (_vals((4, 5), 9) + 10,))]
    for nm, op in (("add", operator.add), ("sub", operator.sub),
                   ("mul", operator.mul), ("div", operator.truediv)):
        for an, ab in num + qty + (arr if k == "s" else []):
            res.append(("{} {}".format(nm, an), ab, op))
    for nm, op in (("add", operator.add), ("sub", operator.sub),
                   ("mul", operator.mul), ("div", operator.truediv)):
        if k == "v" and nm in ("mul", "div"):
            other = lambda: (field("s", "corner", 5),)
        else:
            other = lambda: (field(k, "corner", 5),)
        res.append(("{} field".format(nm), other, op))
    res.append(("number mul", lambda: (2.5,), lambda o, n: n*o))
    res.append(("number add", lambda: (2.5,), lambda o, n: n + o))
    res.append(("pow 2", none, lambda o: o**2))
    res.append(("equal", lambda: (field(k, "corner", 5),), operator.eq))
    return res


def _pts():
    from IMTreatment import Points
    return (Points([(0., .5), (1.5, 1.)], unit_x="m", unit_y="mm"),)


def reads(cls):
    """operations without inplace parameter"""
    r = []

    def q(label, fn, args=none):
        r.append((label, args, fn))

    def prop(*names):
        for n in names:
            q(n, lambda o, n=n: getattr(o, n))
    if cls in ("scalar field", "vector field"):
        k = cls[0]
        r.extend(_arith(k))
        prop("min", "max", "mask_as_sf", "shape", "dx", "dy")
        q("copy", lambda o: o.copy())
        q("iteration", lambda o: list(o))
        q("get_props", lambda o: o.get_props())
        q("indice", lambda o: o.get_indice_on_axe(1, .25))
        q("indice nearest", lambda o: o.get_indice_on_axe(2, .3, "nearest"))
        q("points around", lambda o: o.get_points_around([.3, .7], 1.1))
        for x, y in ((-1., 0.), (.25, .6), (2., 2.)):
            q("get_value", lambda o, x=x, y=y: o.get_value(x, y))
        q("get_value ind", lambda o: o.get_value(2, 1, ind=True))
        q("get_value unit", lambda o: o.get_value(0., .5, unit=True))
        q("get_norm", lambda o: o.get_norm())
        q("get_norm inf", lambda o: o.get_norm(norm=np.inf)
          if False else o.get_norm(norm=1))
        if k == "s":
            prop("mean", "median")
            q("abs", abs)
            for d, p in (("x", 0.), ("y", .5), ("x", .5)):
                q("profile", lambda o, d=d, p=p: o.get_profile(d, p))
            q("profile ind", lambda o: o.get_profile("y", 1, ind=True))
            q("profile interval",
              lambda o, iv: o.get_profile("x", iv), lambda: ([0., 1.],))
            for kd in ("extremum", "center", "ponderated"):
                q("zones " + kd, lambda o, b, kd=kd: o.get_zones_centers(
                    bornes=b, rel=True, kind=kd), lambda: ([.5, 1.],))
            q("zones negative", lambda o, b: o.get_zones_centers(
                bornes=b, rel=True), lambda: ([-1., -.5],))
            q("extrema", lambda o, p: o.get_nearest_extrema(p),
              lambda: (np.array([[0., .5], [1.5, 1.]]),))
            q("histogram", lambda o: o.get_histogram())
            q("autocorrelation",
              lambda o: o.get_spatial_autocorrelation("x"))
            q("spectrum x", lambda o: o.get_spatial_spectrum("x"))
            q("spectrum y", lambda o: o.get_spatial_spectrum(
                "y", intervx=[0., 2.], fill=0.))
            q("integral line x", lambda o, i: o.integrate_over_line(
                "x", i), lambda: ([-.5, 1.],))
            q("integral surface", lambda o: o.integrate_over_surface())
            q("integral surface part", lambda o, i: o.integrate_over_surface(
                i, i), lambda: ([0., 1.],))
            q("scatter", lambda o: o.export_to_scatter())
            q("interpolator", lambda o: o.get_interpolator()(.25, .6))
        else:
            prop("comp_x_as_sf", "comp_y_as_sf", "magnitude",
                 "magnitude_as_sf", "theta", "theta_as_sf")
            for c in ("vx", "vy"):
                q("profile " + c, lambda o, c=c: o.get_profile(c, "x", .5))
    elif cls == "profile":
        other = lambda: (profile("hole", 2),)
        prop("min", "max", "mean")
        q("copy", lambda o: o.copy())
        q("len", len)
        q("get_props", lambda o: o.get_props())
        for nm, op in (("add", operator.add), ("sub", operator.sub),
                       ("mul", operator.mul), ("div", operator.truediv)):
            q(nm + " number", op, lambda: (2.5,))
            q(nm + " profile", op, other)
        q("mul quantity", operator.mul, lambda: (2.*U("m/s"),))
        q("neg", operator.neg)
        q("pow", lambda o: o**2)
        q("abs", abs)
        q("equal", operator.eq, other)
        q("interpolated x", lambda o: o.get_interpolated_values(x=2.5))
        q("interpolated xs", lambda o, a: o.get_interpolated_values(x=a),
          lambda: ([.5, 2.5],))
        q("interpolated y", lambda o: o.get_interpolated_values(y=.3))
        q("interpolator", lambda o: o.get_interpolator()(1.))
        q("value position", lambda o: o.get_value_position(.3))
        q("integral", lambda o: o.get_integral())
        q("gradient", lambda o: o.get_gradient())
        q("gradient at", lambda o: o.get_gradient(position=2.))
        q("spectrum", lambda o: o.get_spectrum())
        q("spectrum fill", lambda o: o.get_spectrum(fill=0.,
                                                    detrend="linear"))
        q("pdf", lambda o: o.get_pdf(resolution=10))
        q("auto correlation", lambda o: o.get_auto_correlation(2))
        q("distribution", lambda o: o.get_distribution(resolution=5))
        q("extrema", lambda o: o.get_extrema_position())
        q("extrema smoothed", lambda o: o.get_extrema_position(smoothing=1))
        q("convolution", lambda o, p: o.get_convolution(p), other)
        q("dephasage", lambda o, p: o.get_dephasage(p), other)
        q("convolution of difference",
          lambda o, p: o.get_convolution_of_difference(p), other)
        q("filtering", lambda o: o.spectral_filtering(.1, .3))
        q("fitting", lambda o: o.get_fitting(lambda x, a, b: a*x + b,
                                             p0=[1., 0.]))
    elif cls in ("points", "oriented points"):
        ori = cls[0] == "o"
        q("copy", lambda o: o.copy())
        q("len", len)
        q("iteration", lambda o: copy.deepcopy(list(o)))
        q("add", operator.add, lambda: (points(ori=ori, n=3),))
        q("equal", operator.eq, lambda: (points(ori=ori, n=3),))
        q("first", lambda o: o[0])
        q("decompose", lambda o: o.decompose())
        q("reverse", lambda o: o.reverse())
        if not ori:
            q("cut", lambda o, a: o.cut(intervx=a), lambda: ([0., 1.],))
            q("density", lambda o: o.get_points_density(resolution=6))
            q("density2", lambda o: o.get_points_density2(4))
            q("clusters", lambda o: o.get_clusters(1.5, 2))
            q("velocity", lambda o: o.get_velocity())
            q("fit", lambda o: o.fit())
            q("profile", lambda o: o.export_to_profile("x", "y"))
            q("evolution", lambda o, f: o.get_evolution_on_sf(f),
              lambda: (fm.M([-2., 0., 3.], [-3., 0., 4.],
                            [_vals((3, 3))], None, "m", "mm", "").real(),))
    elif cls.startswith("series ") and cls[-2] == " ":
        k = cls[-1]
        for lab, ab, fn in _arith(k):
            if "array" in lab or lab in ("number add", "equal", "mul field"):
                continue
            if k == "v" and lab == "div field":
                continue
            r.append((lab, ab, fn))
        q("add series", operator.add, lambda: (series(k, "corner", 3),))
        q("sub series", operator.sub, lambda: (series(k, "corner", 3),))
        q("join series", operator.add,
          lambda: (series(k, "corner", 2, (7., 8.)),))
        if k == "s":
            q("mul series", operator.mul, lambda: (series(k, "corner", 3),))
            q("div series", operator.truediv,
              lambda: (series(k, "corner", 3),))
        q("copy", lambda o: o.copy())
        q("len", len)
        q("times of iteration", lambda o: [t for t, _ in o])
        prop("mask", "mask_cum", "mask_cum_as_sf", "dt", "mask_as_sf")
        q("mean", lambda o: o.get_mean_field())
        q("mean 2", lambda o: o.get_mean_field(nmb_min=2))
        q("interpolated", lambda o: o.get_interpolated_field(0.))
        q("interpolated at", lambda o: o.get_interpolated_field(.5))
        q("fluctuant", lambda o: o.get_fluctuant_fields())
        c = "values" if k == "s" else "comp_x"
        q("time profile", lambda o: o.get_time_profile(c, [0., .5]))
        q("time profile ind",
          lambda o: o.get_time_profile(c, [1, 1], ind=True))
        q("time spectrum", lambda o: o.get_temporal_spectrum(
            c, [3, 1], ind=True))
        q("recurrence", lambda o: o.get_recurrence_map())
        q("spatial spectrum", lambda o: o.get_spatial_spectrum(
            c, "x"))
        if k == "s":
            prop("values")
            q("min field", lambda o: o.get_min_field())
            q("max field", lambda o: o.get_max_field())
            q("background", lambda o: o.get_background())
            q("substract background", lambda o, b: o.substract_background(
                b, noise_level=1), lambda: (field("s", "none", 5),))
        else:
            prop("Vx", "Vy", "magnitude", "theta", "Vx_as_sf", "Vy_as_sf",
                 "magnitude_as_sf", "theta_as_sf")
            q("tke", lambda o: o.get_tke())
            q("mean tke", lambda o: o.get_mean_tke())
            q("mean ke", lambda o: o.get_mean_kinetic_energy())
            q("intensity", lambda o: o.get_turbulent_intensity())
            q("reynolds", lambda o: o.get_reynolds_stress())
            q("correlation", lambda o: o.get_time_auto_correlation())
    else:
        q("copy", lambda o: o.copy())
        q("len", len)
        q("times of iteration", lambda o: [t for t, _ in o])
        prop("dt")
    return r


def variants(cls):
    """(label, method, keyword arguments builder)"""
    v = []

    def a(method, label="", **kw):
        v.append((method + (" " + label if label else ""), method, kw))
    fieldlike = cls in ("scalar field", "vector field") or \
        (cls.startswith("series ") and cls[-2] == " ")
    if fieldlike:
        vec = cls in ("vector field", "series v")
        ser = cls.startswith("series")
        a("crop", "x", intervx=[0., 1.])
        a("crop", "xy", intervx=[-1., 1.], intervy=[.5, 2.])
        a("crop", "all", intervx=[-5., 9.])
        a("crop", "ind", intervx=[1, 2], intervy=[0, 3], ind=True)
        a("crop", "nothing")
        a("extend", "", nmb_left=1, nmb_up=2)
        a("extend", "nothing")
        a("scale", "number", scalex=2., scaley=.5)
        a("scale", "negative", scalex=-1., scalev=3.)
        a("scale", "quantity", scalex=2.*U("s"), scalev=2.*U("s"))
        a("scale", "nothing")
        for ang in (0, 90, 180, -90, 360):
            a("rotate", str(ang), angle=ang)
        a("crop_masked_border")
        a("crop_masked_border", "hard", hard=True)
        a("mirroring", "x", direction="x", position=-1.)
        a("mirroring", "y", direction="y", position=2., mir_coef=-1.)
        a("smooth", "uniform", tos="uniform", size=2)
        a("smooth", "gaussian", tos="gaussian", size=1)
        val = [1., 2.] if vec else 1.
        a("fill", "value", kind="value", value=val)
        a("fill", "nearest", kind="nearest")
        a("fill", "linear", kind="linear")
        a("fill", "value crop", kind="value", value=val, crop=True)
        for f in (1, 2, 3):
            a("reduce_spatial_resolution", str(f), fact=f)
        if ser:
            a("crop", "time", intervt=[0., 2.])
            a("crop", "time and x", intervt=[-1., .5], intervx=[0., 1.])
            a("scale", "time", scalet=2.)
            a("scale", "reversed time", scalet=-2.)
            a("reduce_temporal_resolution", "2", nmb_in_interval=2)
            a("reduce_temporal_resolution", "1", nmb_in_interval=1)
            a("reduce_temporal_resolution", "2 taken", nmb_in_interval=2,
              mean=False)
            a("augment_temporal_resolution", "", fact=2)
            a("augment_temporal_resolution", "1", fact=1)
            a("fill", "temporal", tof="temporal", kind="linear")
    elif cls == "profile":
        a("crop", "x", intervx=[1., 3.])
        a("crop", "y", intervy=[0., 2.])
        a("crop", "ind", intervx=[1, 3], ind=True)
        a("scale", "numbers", scalex=2., scaley=-1.)
        a("scale", "negative", scalex=-2.)
        a("scale", "quantity", scaley=2.*U("s"))
        for ang in (90, 180, 270):
            a("rotate", str(ang), angle=ang)
        a("crop_masked_border")
        for k in ("linear", "nearest", "value"):
            a("fill", k, kind=k)
        a("fill", "crop", kind="linear", crop=True)
        a("augment_resolution", "", fact=2)
        a("augment_resolution", "1", fact=1)
        a("evenly_space")
        a("evenly_space", "dx", dx=.5)
        a("smooth", "uniform", tos="uniform", size=2)
        a("smooth", "gaussian", tos="gaussian", size=1)
        a("remove_doublons")
        a("remove_nans")
        a("remove_marginal_values", "", fact=1)
        a("remove_local_marginal_values", "", fact=1, neighb=2)
    elif cls in ("points", "oriented points"):
        a("crop", "x", intervx=[0., 1.])
        a("crop", "xy", intervx=[-2., 1.], intervy=[-2., 1.])
        a("crop", "v", intervv=[1., 3.])
        a("crop", "nothing")
        a("scale", "numbers", scalex=2., scaley=-1., scalev=3.)
        a("scale", "quantity", scalex=2.*U("s"))
        for ang in (90, 180, 30.):
            a("rotate", str(ang), angle=ang)
        a("sort", "x", ref="x")
        a("sort", "y", ref="y")
        a("sort", "v", ref="v")
        a("remove_doublons")
        a("remove_nans")
        if cls[0] == "p":
            a("augment_resolution", "", fact=2)
            a("augment_resolution", "1", fact=1)
            a("smooth", "gaussian", tos="gaussian", size=1)
            a("smooth", "uniform", tos="uniform", size=2)
    else:
        a("crop", "x", intervx=[0., 1.])
        a("crop", "time", intervt=[-1., 1.])
        a("crop", "v", intervv=[1., 3.])
        a("scale", "x", scalex=2.)
        a("scale", "quantity", scaley=2.*U("s"))
        a("scale", "time", scalet=-2.)
        a("smooth", "", tos="gaussian", size=1)
    return v


def critpoints(traj=False, n=3):
    """foci and saddles at some times"""
    from IMTreatment import Points
    from IMTreatment.vortex_detection import CritPoints
    cp = CritPoints(unit_time="s")
    for q in range(n):
        kw = {}
        for k, name in enumerate(("foc", "foc_c", "node_i", "node_o",
                                  "sadd")):
            xy = [(k + .25*q + 3*i, k - .5*q + i)
                  for i in range((k + q) % 3 + 1)]
            if (k + q) % 4 == 3:
                continue
            kw[name] = Points(xy, [q*1.]*len(xy), unit_x="m", unit_y="mm",
                              unit_v="s")
        cp.add_point(time=q*1., **kw)
    if traj:
        cp.compute_traj(epsilon=2.)
    return cp


def vortices():
    from IMTreatment.vortex_creation import (
        VortexSystem, SolidVortex, FreeVortex, LambOseenVortex, Wall)
    vs = VortexSystem()
    vs.add_vortex(FreeVortex(1., 2., 3.))
    vs.add_vortex(LambOseenVortex(-1., .5, 2.))
    vs.add_wall(Wall(y=0.))
    return vs


def spatial(kind):
    from IMTreatment.core import SpatialScalarFields, SpatialVectorFields
    sf = SpatialScalarFields() if kind == "s" else SpatialVectorFields()
    sf.add_field(field(kind, "hole"))
    sf.add_field(field(kind, "none", 1, axx=[2., 3., 4., 5.]))
    return sf


def everything():
    """(class, state, builder) of every kind of object a user may save"""
    for cls in CLASSES:
        for st, b in states(cls):
            yield cls, st, b
    yield "critical points", "no trajectories", critpoints
    yield "critical points", "trajectories", lambda: critpoints(True)
    yield "critical points", "empty", lambda: critpoints(n=0)
    yield "vortex system", "wall", vortices
    yield "spatial s", "two", lambda: spatial("s")
    yield "spatial v", "two", lambda: spatial("v")
    yield "plain", "dict", lambda: {"a": [1, 2.5, "x"], "b": None,
                                    "c": np.arange(3.)}
    yield "plain", "list of fields", lambda: [field("s"), field("v", "hole")]
    yield "plain", "empty points", lambda: points(n=0)
