"""Reference model of fields: plain numpy data, no library code involved."""
import copy
import itertools

import numpy as np
import unum

from mc.core import Mismatch, expect

RTOL = 1e-8
NAN = float("nan")


def U(s):
    """unit from string, through the library's own parser (decided apart)"""
    from IMTreatment.utils import make_unit
    return make_unit(s)


class M(object):
    """model of a field: axes, 1 or 2 components (NaN when masked), mask,
    units"""
    dtype = None   # of the real values; floating point when None

    def __init__(self, ax, ay, comps, mask=None, ux="", uy="", uv=""):
        self.ax = np.array(ax, dtype=float)
        self.ay = np.array(ay, dtype=float)
        self.comps = [np.array(c, dtype=float) for c in comps]
        shape = (len(self.ax), len(self.ay))
        if mask is None:
            mask = np.zeros(shape, dtype=bool)
        self.mask = np.array(mask, dtype=bool)
        for c in self.comps:
            assert c.shape == shape, (c.shape, shape)
            self.mask = self.mask | np.isnan(c)
        for c in self.comps:
            c[self.mask] = np.nan
        self.ux = U(ux) if isinstance(ux, str) else ux
        self.uy = U(uy) if isinstance(uy, str) else uy
        self.uv = U(uv) if isinstance(uv, str) else uv

    @property
    def shape(self):
        return (len(self.ax), len(self.ay))

    def copy(self):
        return copy.deepcopy(self)

    def real(self):
        from IMTreatment import ScalarField, VectorField
        if len(self.comps) == 1:
            f = ScalarField()
            v = self.comps[0].copy()
            if self.dtype is not None:
                v[self.mask] = 0
                v = v.astype(self.dtype)
            f.import_from_arrays(self.ax.copy(), self.ay.copy(),
                                 v, mask=self.mask.copy(),
                                 unit_x=self.ux, unit_y=self.uy,
                                 unit_values=self.uv,
                                 **({} if self.dtype is None else
                                    {"dtype": self.dtype}))
        else:
            f = VectorField()
            f.import_from_arrays(self.ax.copy(), self.ay.copy(),
                                 self.comps[0].copy(), self.comps[1].copy(),
                                 mask=self.mask.copy(), unit_x=self.ux,
                                 unit_y=self.uy, unit_values=self.uv)
        return f

    def __repr__(self):
        return "M(ax={}, ay={}, comps={}, mask={}, u=({},{},{}))".format(
            self.ax.tolist(), self.ay.tolist(),
            [np.round(c, 4).tolist() for c in self.comps],
            self.mask.astype(int).tolist(), ustr(self.ux), ustr(self.uy),
            ustr(self.uv))

    def key(self):
        return (tuple(np.round(self.ax, 9)), tuple(np.round(self.ay, 9)),
                tuple(tuple(np.round(np.nan_to_num(c, nan=9e9), 6).ravel())
                      for c in self.comps),
                tuple(self.mask.ravel()), ustr(self.ux), ustr(self.uy),
                ustr(self.uv))


def ustr(u):
    try:
        return u.strUnit()
    except Exception:
        return repr(u)


_RATIO = {}


def ratio(u1, u2):
    """u1/u2 as a number; raises when dimensions differ"""
    k = (str(u1), str(u2))
    if k[0] == k[1]:
        return 1.
    if k not in _RATIO:
        n2 = u2.asNumber()
        if n2 != 1:
            return ratio(u1, u2/n2)/n2
        q = u1.asUnit(u2)
        r = q/u2
        if not isinstance(r, unum.Unum):
            _RATIO[k] = float(r)
        else:
            r = r.copy(True)
            r.checkNoUnit()
            _RATIO[k] = float(r.asNumber())
    return _RATIO[k]


def same_unit(u1, u2):
    if not isinstance(u1, unum.Unum) or not isinstance(u2, unum.Unum):
        return False
    try:
        return abs(ratio(u1, u2) - 1) < 1e-9
    except Exception:
        return False


def obs(f):
    """observation of a real field through its public attributes"""
    from IMTreatment import ScalarField
    m = M.__new__(M)
    m.ax = np.array(f.axe_x, dtype=float)
    m.ay = np.array(f.axe_y, dtype=float)
    m.mask = np.array(f.mask)
    if isinstance(f, ScalarField):
        m.comps = [np.array(f.values)]
    else:
        m.comps = [np.array(f.comp_x), np.array(f.comp_y)]
    m.ux, m.uy, m.uv = f.unit_x, f.unit_y, f.unit_values
    return m


def close(a, b, rtol=RTOL, atol=None):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        return False
    a, b = a[~na], b[~nb]
    if a.size == 0:
        return True
    ia, ib = np.isinf(a), np.isinf(b)
    if not np.array_equal(ia, ib) or not np.array_equal(a[ia], b[ib]):
        return False
    a, b = a[~ia], b[~ib]
    if a.size == 0:
        return True
    scale = max(np.max(np.abs(a)), np.max(np.abs(b)))
    if atol is None:
        atol = 1e-9*max(scale, 1e-3)
    return bool(np.all(np.abs(a - b) <= atol + rtol*np.abs(b)))


def wellformed(f, cls=None):
    """structural invariant of any field object"""
    o = obs(f)
    expect(isinstance(f.axe_x, np.ndarray) and isinstance(f.axe_y, np.ndarray),
           "axes are not arrays")
    expect(o.ax.ndim == 1 and o.ay.ndim == 1, "axes not 1D")
    expect(np.all(np.diff(o.ax) > 0), "x axis not increasing",
           lambda: o.ax.tolist())
    expect(np.all(np.diff(o.ay) > 0), "y axis not increasing",
           lambda: o.ay.tolist())
    shape = (len(o.ax), len(o.ay))
    expect(tuple(f.shape) == shape, "shape attribute wrong")
    expect(o.mask.shape == shape, "mask shape", lambda: (o.mask.shape, shape))
    expect(o.mask.dtype == bool, "mask dtype", lambda: str(o.mask.dtype))
    for c in o.comps:
        expect(c.shape == shape, "values shape", lambda: (c.shape, shape))
        if np.issubdtype(c.dtype, np.floating):
            expect(not np.any(np.isnan(c[~o.mask])), "unmasked NaN",
                   lambda: (c.tolist(), o.mask.astype(int).tolist()))
            expect(np.all(np.isnan(c[o.mask])), "masked point not NaN",
                   lambda: (c.tolist(), o.mask.astype(int).tolist()))
    for u in (o.ux, o.uy, o.uv):
        expect(isinstance(u, unum.Unum), "unit is not a unit")
        expect(abs(u.asNumber() - 1) < 1e-6, "unit carries a factor",
               lambda: str(u))
    return o


def compare(f, model, rtol=RTOL, units=True, what=""):
    """the real field f is exactly the model field"""
    from IMTreatment import ScalarField, VectorField
    if len(model.comps) == 1:
        expect(isinstance(f, ScalarField), "not a scalar field" + what,
               lambda: repr(type(f)))
    else:
        expect(isinstance(f, VectorField), "not a vector field" + what,
               lambda: repr(type(f)))
    o = obs(f)
    expect(o.ax.shape == model.ax.shape and o.ay.shape == model.ay.shape,
           "axis length" + what,
           lambda: (o.ax.tolist(), o.ay.tolist(), repr(model)))
    expect(close(o.ax, model.ax, rtol), "x axis" + what,
           lambda: (o.ax.tolist(), model.ax.tolist()))
    expect(close(o.ay, model.ay, rtol), "y axis" + what,
           lambda: (o.ay.tolist(), model.ay.tolist()))
    expect(o.mask.shape == model.mask.shape and
           np.array_equal(o.mask.astype(bool), model.mask), "mask" + what,
           lambda: (o.mask.astype(int).tolist(),
                    model.mask.astype(int).tolist()))
    for i, (c, mc) in enumerate(zip(o.comps, model.comps)):
        expect(c.shape == mc.shape, "values shape" + what)
        cc = np.array(c, dtype=float)
        cc[model.mask] = np.nan
        expect(close(cc, mc, rtol), "values" + what,
               lambda: (i, cc.tolist(), mc.tolist()))
    if units:
        expect(same_unit(o.ux, model.ux), "x unit" + what,
               lambda: (str(o.ux), str(model.ux)))
        expect(same_unit(o.uy, model.uy), "y unit" + what,
               lambda: (str(o.uy), str(model.uy)))
        expect(same_unit(o.uv, model.uv), "values unit" + what,
               lambda: (str(o.uv), str(model.uv)))
    return o.key()


M.key_of = staticmethod(lambda f: obs(f).key())


def snap(x):
    """deep snapshot of anything (fields, arrays, points, profiles, lists):
    used to detect any change of an operand"""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("objarr", x.shape, tuple(snap(i) for i in x.ravel()))
        return ("arr", x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(i) for i in x))
    if isinstance(x, dict):
        return ("dict", tuple(sorted((str(k), snap(v))
                                     for k, v in x.items())))
    if isinstance(x, unum.Unum):
        return ("unit", str(x))
    if isinstance(x, (str, bytes, int, float, bool, type(None), np.generic)):
        return ("v", repr(x))
    if callable(x) and not hasattr(x, "__dict__"):
        return ("callable",)
    if hasattr(x, "__dict__"):
        if type(x).__module__.startswith("IMTreatment"):
            return (type(x).__name__, snap(pubdict(x)))
        return ("obj", type(x).__name__)
    return ("other", type(x).__name__)


PUBLIC = {
    "ScalarField": ("axe_x", "axe_y", "unit_x", "unit_y", "unit_values",
                    "mask", "xy_scale"),
    "VectorField": ("axe_x", "axe_y", "unit_x", "unit_y", "unit_values",
                    "mask", "xy_scale"),
    "Profile": ("x", "y", "mask", "unit_x", "unit_y", "name"),
    "Points": ("xy", "v", "unit_x", "unit_y", "unit_v", "name"),
    "OrientedPoints": ("xy", "v", "unit_x", "unit_y", "unit_v", "name",
                       "orientations"),
    "TemporalScalarFields": ("fields", "times", "unit_times", "axe_x",
                             "axe_y", "unit_x", "unit_y", "field_type"),
    "TemporalVectorFields": ("fields", "times", "unit_times", "axe_x",
                             "axe_y", "unit_x", "unit_y", "field_type"),
    "TemporalPoints": ("point_sets", "times", "unit_times", "unit_x",
                       "unit_y"),
    "CritPoints": ("foc", "foc_c", "node_i", "node_o", "sadd", "foc_traj",
                   "foc_c_traj", "node_i_traj", "node_o_traj", "sadd_traj",
                   "times", "unit_time", "unit_x", "unit_y", "cp_types",
                   "current_epsilon"),
}


def pubdict(x):
    """public data of a library object.  The content of masked places is not
    part of it."""
    n = type(x).__name__
    if n not in PUBLIC:
        return dict(x.__dict__)
    d = {}
    for k in PUBLIC[n]:
        if hasattr(x, k):
            v = getattr(x, k)
            d[k] = list(v) if k in ("fields", "point_sets") else \
                v.__name__ if isinstance(v, type) else v
    for k in {"ScalarField": ["values"],
              "VectorField": ["comp_x", "comp_y"]}.get(n, ()):
        v = np.array(getattr(x, k))
        m = np.array(x.mask, dtype=bool)
        if m.shape == v.shape:
            v[m] = 0
        d[k] = v
    return d


def shares_memory(a, b):
    """True when any array reachable from a overlaps an array of b"""
    A, B = [], []
    _arrays(a, A, set())
    _arrays(b, B, set())
    for x in A:
        for y in B:
            if x.size and y.size and np.shares_memory(x, y):
                return True
    return False


def _arrays(x, acc, seen):
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for i in x.ravel():
                _arrays(i, acc, seen)
        else:
            acc.append(x)
    elif isinstance(x, (list, tuple)):
        for i in x:
            _arrays(i, acc, seen)
    elif isinstance(x, dict):
        for i in x.values():
            _arrays(i, acc, seen)
    elif isinstance(x, unum.Unum):
        return
    elif hasattr(x, "__dict__") and \
            type(x).__module__.startswith("IMTreatment"):
        for i in x.__dict__.values():
            _arrays(i, acc, seen)


# ---------------------------------------------------------------------------
# finite domains
# ---------------------------------------------------------------------------
AXES = {
    "a2": [0., 1.], "b2": [-1., 2.],
    "a3": [0., 1., 2.], "b3": [-1., 0., 1.], "c3": [2., 2.5, 3.],
    "n3": [-3., -2., -1.],
    "u3": [0., 1., 3.], "v3": [-2., -1.5, 0.],
    "a4": [0., 1., 2., 3.], "b4": [-1.5, -.5, .5, 1.5],
    "u4": [0., .5, 1.5, 4.], "a5": [0., 1., 2., 3., 4.],
    "d5": [-.2, -.1, 0., .1, .2],
    "a6": [0., 1., 2., 3., 4., 5.],
    # other magnitudes: tiny steps, far from the origin, huge, longer
    "t4": [k*2.**-16 for k in range(-1, 3)],
    "f4": [512. + k*2.**-6 for k in range(4)],
    "g3": [-2.**14, 0., 2.**14],
    "l11": [.25*k - 1 for k in range(11)],
}


def vals(shape, k=0):
    """distinct, sign-changing, generic values (no accidental equalities)"""
    n = shape[0]*shape[1]
    i = np.arange(n)
    v = ((i*7 + 3*k + 2) % 11 - 4.5)*(1.25 + .5*k) + 0.01*i*i
    return v.reshape(shape)


def masks(shape, tier="few"):
    """'all': every mask pattern leaving at least one valid point;
    'few': none, each single point, each full row/column"""
    n = shape[0]*shape[1]
    if tier == "all":
        for bits in itertools.product([False, True], repeat=n):
            if all(bits):
                continue
            yield np.array(bits, dtype=bool).reshape(shape)
        return
    yield np.zeros(shape, dtype=bool)
    if tier == "none":
        return
    if tier == "some":
        for sl in ((1, 1), (shape[0] - 2, shape[1] - 1), (0, slice(None)),
                   (slice(None), -1)):
            m = np.zeros(shape, dtype=bool)
            m[sl] = True
            yield m
        return
    for k in range(n):
        m = np.zeros(n, dtype=bool)
        m[k] = True
        yield m.reshape(shape)
    if tier == "single":
        return
    for i in range(shape[0]):
        m = np.zeros(shape, dtype=bool)
        m[i, :] = True
        if not m.all():
            yield m
    for j in range(shape[1]):
        m = np.zeros(shape, dtype=bool)
        m[:, j] = True
        if not m.all():
            yield m
    if tier == "more":
        for a, b in itertools.combinations(range(n), 2):
            m = np.zeros(n, dtype=bool)
            m[[a, b]] = True
            yield m.reshape(shape)


def mk(kind, axx, axy, mask=None, ux="m", uy="mm", uv="m/s", k=0):
    """model field: kind 's' or 'v'"""
    ax, ay = AXES[axx] if isinstance(axx, str) else axx, \
        AXES[axy] if isinstance(axy, str) else axy
    shape = (len(ax), len(ay))
    comps = [vals(shape, k)] if kind == "s" else [vals(shape, k),
                                                  vals(shape, k + 1)]
    return M(ax, ay, comps, mask, ux, uy, uv)


def mcls(mask):
    n = int(np.sum(mask))
    return "nomask" if n == 0 else "masked"


def mdesc(mask):
    return "".join("1" if b else "0" for b in np.asarray(mask).ravel())
