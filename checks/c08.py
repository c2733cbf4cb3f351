"""C08: filling and smoothing."""
import itertools
import math

import numpy as np

from mc.core import expect
from mc import fm

KINDS = ("value", "nearest", "linear", "cubic")


def run(ck):
    fields(ck)
    profiles(ck)
    ck.assumptions += [
        "grids up to 3x4 (quick) / 4x4 (thorough); all mask patterns on 2x3 "
        "and 3x3 grids, single/row/column/pair patterns on the larger ones",
        "cubic filling is only required to be complete, local and exact on "
        "affine data (no range bound)"]


# -- reference helpers --------------------------------------------------------
def affine(m, k):
    a, b, c = ((1.5, -.5, 2.), (-1., .25, 0.))[k]
    return a*m.ax[:, None] + b*m.ay[None, :] + c


def between(valid, i, j):
    """a valid point on both sides on the same row or column"""
    return (valid[:i, j].any() and valid[i + 1:, j].any()) or \
        (valid[i, :j].any() and valid[i, j + 1:].any())


def collinear(pts):
    pts = np.array(pts, dtype=float)
    return len(pts) < 3 or np.linalg.matrix_rank(pts - pts[0], 1e-9) < 2


def in_hull(p, pts):
    """p strictly or not inside the convex hull of pts (exact enough: dyadic
    coordinates)"""
    best = False
    for tri in itertools.combinations(pts, 3):
        (x1, y1), (x2, y2), (x3, y3) = tri
        det = (y2 - y3)*(x1 - x3) + (x3 - x2)*(y1 - y3)
        if abs(det) < 1e-12:
            continue
        l1 = ((y2 - y3)*(p[0] - x3) + (x3 - x2)*(p[1] - y3))/det
        l2 = ((y3 - y1)*(p[0] - x3) + (x1 - x3)*(p[1] - y3))/det
        if min(l1, l2, 1 - l1 - l2) >= -1e-12:
            best = True
            break
    return best


def nearest_vals(m, c, i, j):
    d = {}
    for a, b in np.argwhere(~m.mask):
        q = (m.ax[a] - m.ax[i])**2 + (m.ay[b] - m.ay[j])**2
        d.setdefault(round(q, 9), []).append(c[a, b])
    return d[min(d)]


def check_fill(m, r, kind, value, lin):
    """r: model/observation of the filled field"""
    expect(not r.mask.any(), "still masked", lambda: r.mask.tolist())
    valid = ~m.mask
    pts = [(m.ax[a], m.ay[b]) for a, b in np.argwhere(valid)]
    for k, (c, g) in enumerate(zip(m.comps, r.comps)):
        expect(not np.isnan(g).any(), "missing values", lambda: g.tolist())
        expect(np.array_equal(c[valid], g[valid]), "valid data changed",
               lambda: (c.tolist(), g.tolist()))
        lo, hi = np.min(c[valid]), np.max(c[valid])
        eps = 1e-9*max(1, abs(lo), abs(hi))
        for i, j in np.argwhere(m.mask):
            v = g[i, j]
            if kind == "value":
                expect(v == value[k], "constant", (v, value[k]))
                continue
            near = nearest_vals(m, c, i, j)
            isnear = any(abs(v - n) <= eps for n in near)
            if kind == "nearest":
                expect(isnear, "not a nearest value", (i, j, v, near))
                continue
            if kind == "linear":
                expect(lo - eps <= v <= hi + eps, "out of the data range",
                       (i, j, v, lo, hi))
            p = (m.ax[i], m.ay[j])
            if not in_hull(p, pts):
                expect(isnear, "outside the data: not nearest",
                       (i, j, v, near))
            elif lin and between(valid, i, j) and not collinear(pts):
                e = affine(m, k)[i, j]
                expect(abs(v - e) < 1e-5*max(1, abs(e)),
                       "affine data not reproduced", (i, j, v, e))
    return np.round(r.comps[0], 6).tolist()


# -- fields -------------------------------------------------------------------
def fields(ck):
    grids = [("a2", "a3", "all"), ("b3", "u3", "all"), ("u4", "a3", "more"),
             ("l11", "t4", "some"), ("f4", "g3", "some")]
    if ck.thorough:
        grids += [("a3", "u4", "all"), ("b4", "u4", "more"),
                  ("a5", "v3", "more")]
    for axx, axy, mt in grids:
        shape = (len(fm.AXES[axx]), len(fm.AXES[axy]))
        for kind2 in "sv":
            for mask in fm.masks(shape, mt):
                base = fm.mk(kind2, axx, axy, mask)
                lin = base.copy()
                lin.comps = [np.where(mask, np.nan, affine(base, k))
                             for k in range(len(base.comps))]
                desc = (axx, axy, fm.mdesc(mask))
                cls = kind2 + "|" + fm.mcls(mask)
                for kind in KINDS:
                    for tri in (True, False):
                        for m, nm in ((base, "generic"), (lin, "affine")):
                            def fn():
                                return fill_case(m, kind, tri, nm)
                            ck.case("fill|{}|{}|{}".format(
                                kind, "reduced" if tri else "full", cls),
                                desc + (nm,), fn, state=m.key())
                for kind in ("value", "linear"):
                    ck.case("fill crop|{}|{}".format(kind, cls), desc,
                            lambda: crop_case(base, kind), state=base.key())
                for tos in ("uniform", "gaussian"):
                    for size in (None, 2):
                        ck.case("smooth|{}|{}".format(tos, cls),
                                desc + (size,), lambda: smooth_case(
                                    base, tos, size), state=base.key())


def scribble(f, m):
    """put garbage in the storage of the masked points through the public
    interface (import with a mask)"""
    from IMTreatment import ScalarField, VectorField
    comps = [np.where(m.mask, 1e6, c) for c in m.comps]
    if len(comps) == 1:
        g = ScalarField()
    else:
        g = VectorField()
    g.import_from_arrays(m.ax, m.ay, *comps, mask=m.mask, unit_x=m.ux,
                         unit_y=m.uy, unit_values=m.uv)
    return g


def same_grid(r, m):
    expect(fm.close(r.ax, m.ax) and fm.close(r.ay, m.ay), "axes")
    expect(fm.same_unit(r.ux, m.ux) and fm.same_unit(r.uy, m.uy) and
           fm.same_unit(r.uv, m.uv), "units")


def fill_case(m, kind, tri, nm):
    value = [3.25, -1.5]
    arg = value[0] if len(m.comps) == 1 else list(value)
    f = m.real()
    r = f.fill(kind=kind, value=arg, reduce_tri=tri)
    o = fm.wellformed(r)
    same_grid(o, m)
    out = check_fill(m, o, kind, value, nm == "affine")
    fm.compare(f, m, what=" of the original")
    g = scribble(None, m)
    g.fill(kind=kind, value=arg, reduce_tri=tri, inplace=True)
    o2 = fm.wellformed(g)
    same_grid(o2, m)
    check_fill(m, o2, kind, value, nm == "affine")
    for a, b in zip(o.comps, o2.comps):
        expect(fm.close(a, b), "hidden data contribute")
    return out


def crop_case(m, kind):
    """fill(crop=True) is cropping the masked borders, then filling"""
    f = m.real()
    c = f.crop_masked_border(hard=False, inplace=False)
    ref = c.fill(kind=kind)
    for inplace in (False, True):
        g = m.real()
        r = g.fill(kind=kind, crop=True, inplace=inplace)
        if inplace:
            r = g
        else:
            fm.compare(g, m, what=" of the original")
        fm.wellformed(r)
        o = fm.obs(ref)
        fm.compare(r, fm.M(o.ax, o.ay, o.comps, o.mask, o.ux, o.uy, o.uv))
    return o.key()


def ref_smooth(c, tos, size, mode="reflect"):
    if tos == "uniform":
        size = 3 if size is None else size
        offs = range(-(size//2), size - size//2)
        w = {k: 1./size for k in offs}
    else:
        s = 1. if size is None else size
        r = int(4*s + .5)
        w = {k: math.exp(-.5*k*k/s/s) for k in range(-r, r + 1)}
        t = sum(w.values())
        w = {k: v/t for k, v in w.items()}

    def refl(i, n):
        if mode == "nearest":
            return min(max(i, 0), n - 1)
        i %= 2*n
        return i if i < n else 2*n - 1 - i
    nx, ny = c.shape
    t = np.zeros(c.shape)
    for i in range(nx):
        for k, v in w.items():
            t[i] += v*c[refl(i + k, nx)]
    r = np.zeros(c.shape)
    for j in range(ny):
        for k, v in w.items():
            r[:, j] += v*t[:, refl(j + k, ny)]
    return r


def smooth_case(m, tos, size):
    f = m.real()
    filled = f.fill()
    r = f.smooth(tos=tos, size=size)
    o = fm.wellformed(r)
    same_grid(o, m)
    fm.compare(f, m, what=" of the original")
    of = fm.obs(filled)
    for c, g, src in zip(of.comps, o.comps, m.comps):
        e = ref_smooth(c, tos, size)
        expect(fm.close(g, e, 1e-7, 1e-7), "smoothed values",
               lambda: (g.tolist(), e.tolist()))
        v = src[~m.mask]
        expect(g.min() >= v.min() - 1e-7 and g.max() <= v.max() + 1e-7,
               "out of the data range")
    g = scribble(None, m)
    g.smooth(tos=tos, size=size, inplace=True)
    o2 = fm.wellformed(g)
    for a, b in zip(o.comps, o2.comps):
        expect(fm.close(a, b), "in place differs")
    cst = m.copy()
    for k, c in enumerate(cst.comps):
        c[~m.mask] = 2. - k
    rc = fm.wellformed(cst.real().smooth(tos=tos, size=size))
    for k, c in enumerate(rc.comps):
        expect(np.all(np.abs(c - (2. - k)) < 1e-9), "constant not kept")
    return np.round(o.comps[0], 6).tolist()


# -- profiles -----------------------------------------------------------------
PX = {"e5": [0., 1., 2., 3., 4.], "u5": [-1., 0., 2., 2.5, 5.],
      "e6": [0., .5, 1., 1.5, 2., 2.5]}


def profiles(ck):
    for nm in (("e5", "u5") if not ck.thorough else ("e5", "u5", "e6")):
        x = np.array(PX[nm])
        n = len(x)
        for bits in itertools.product([False, True], repeat=n):
            if all(bits):
                continue
            mask = np.array(bits)
            nv = n - mask.sum()
            for kind in ("value", "linear", "slinear", "nearest"):
                if kind != "value" and nv < 2:
                    continue
                for crop in (False, True):
                    ck.case("profile fill|{}|{}|{}".format(
                        kind, "crop" if crop else "keep",
                        fm.mcls(mask)), (nm, fm.mdesc(mask)),
                        lambda: prof_fill(x, mask, kind, crop))
            for tos in ("uniform", "gaussian"):
                if nv < 2:
                    continue
                ck.case("profile smooth|{}|{}".format(tos, fm.mcls(mask)),
                        (nm, fm.mdesc(mask)),
                        lambda: prof_smooth(x, mask, tos))


def mkprof(x, mask, hidden=1e6, aff=False, cst=None):
    from IMTreatment import Profile
    y = 2*x - 1 if aff else fm.vals((1, len(x)))[0]
    if cst is not None:
        y = np.full(len(x), float(cst))
    yy = np.where(mask, hidden, y)
    return Profile(x.copy(), yy, mask=mask.copy(), unit_x="s", unit_y="m"), y


def prof_fill(x, mask, kind, crop):
    out = []
    for aff in (False, True):
        for inplace in (False, True):
            p, y = mkprof(x, mask, aff=aff)
            s = fm.snap(p)
            r = p.fill(kind=kind, fill_value=7.25, inplace=inplace,
                       crop=crop)
            if inplace:
                r = p
            else:
                expect(fm.snap(p) == s, "original modified")
            ok = np.where(~mask)[0]
            sel = np.arange(len(x))
            if crop:
                sel = np.arange(ok[0], ok[-1] + 1)
            expect(fm.close(r.x, x[sel]), "x", lambda: r.x.tolist())
            expect(not np.any(r.mask), "still masked")
            g = np.array(r.y)
            expect(not np.isnan(g).any(), "missing values")
            expect(fm.same_unit(r.unit_x, fm.U("s")) and
                   fm.same_unit(r.unit_y, fm.U("m")), "units")
            for q, i in enumerate(sel):
                v = g[q]
                if not mask[i]:
                    expect(v == y[i], "valid data changed", (i, v, y[i]))
                elif kind == "value":
                    expect(v == 7.25, "constant", (i, v))
                else:
                    lo, hi = ok[ok < i], ok[ok > i]
                    if not len(lo):
                        e = [y[hi[0]]]
                    elif not len(hi):
                        e = [y[lo[-1]]]
                    else:
                        a, b = lo[-1], hi[0]
                        if kind == "nearest":
                            da, db = x[i] - x[a], x[b] - x[i]
                            e = [y[a]]*(da <= db) + [y[b]]*(db <= da)
                        else:
                            t = (x[i] - x[a])/(x[b] - x[a])
                            e = [y[a] + t*(y[b] - y[a])]
                    expect(any(abs(v - k) < 1e-9 for k in e), "filled value",
                           (i, v, e))
            out.append(np.round(g, 6).tolist())
    return out


def prof_smooth(x, mask, tos):
    p, y = mkprof(x, mask)
    s = fm.snap(p)
    r = p.smooth(tos=tos)
    expect(fm.snap(p) == s, "original modified")
    filled = p.fill(kind="slinear")
    e = ref_smooth(np.array(filled.y).reshape(-1, 1), tos, None,
                   "nearest")[:, 0]
    expect(fm.close(r.x, x), "x")
    expect(not np.any(r.mask) and fm.close(r.y, e, 1e-7, 1e-7),
           "smoothed values", lambda: (r.y.tolist(), e.tolist()))
    expect(fm.same_unit(r.unit_x, fm.U("s")) and
           fm.same_unit(r.unit_y, fm.U("m")), "units")
    p2, _ = mkprof(x, mask)
    p2.smooth(tos=tos, inplace=True)
    expect(fm.close(p2.y, e, 1e-7, 1e-7) and fm.close(p2.x, x) and
           not np.any(p2.mask), "in place differs")
    p3, _ = mkprof(x, mask, cst=2.5)
    expect(np.all(np.abs(p3.smooth(tos=tos).y - 2.5) < 1e-9),
           "constant not kept")
    return np.round(e, 6).tolist()
