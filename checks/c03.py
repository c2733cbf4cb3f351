"""C03  geometric transformations move every (coordinate, value, mask) triple
exactly as the plane transformation does: single operations on a wide input
space, then every sequence of operations up to a depth."""
import itertools

import numpy as np

from mc.core import Mismatch, expect
from mc import fm, geo, ops

GRIDS = [("a2", "a3", "all"), ("b3", "a4", "few"), ("u4", "v3", "few"),
         ("a5", "a4", "single"), ("l11", "t4", "some"), ("f4", "g3", "some")]
THOROUGH = [("a3", "a3", "all"), ("a4", "a6", "single"), ("d5", "c3", "few"),
            ("a6", "a5", "few"), ("n3", "b2", "all")]


def check_op(ck, m, op, desc, modes=(False, True)):
    exp = op.apply_model(m)
    if exp is None:
        return None
    kind = "s" if len(m.comps) == 1 else "v"
    for inplace in modes:
        if op.inplace == "always" and not inplace:
            continue

        def fn():
            f = m.real()
            before = fm.snap(f)
            r = op.apply(f, inplace)
            expect(r is not None, "returned nothing")
            if not inplace:
                expect(fm.snap(f) == before, "source modified")
            if min(exp.shape) > 1 or True:
                fm.wellformed(r)
            return fm.compare(r, exp)
        ck.case("{}|{}|{}|{}".format(op.label, kind, fm.mcls(m.mask),
                                     "inplace" if inplace else "copy"),
                (desc, repr(op)), fn, state=(kind, desc, repr(op), inplace))
    return exp


def run(ck):
    grids = GRIDS + (THOROUGH if ck.thorough else [])
    for kind in "sv":
        for axx, axy, mt in grids:
            shape = (len(fm.AXES[axx]), len(fm.AXES[axy]))
            for n, mask in enumerate(fm.masks(shape, mt)):
                m = fm.mk(kind, axx, axy, mask)
                for fam, gen in ops.FAMILIES.items():
                    full = n == 0 and (ck.thorough or shape == (2, 3))
                    lst = [o for o in gen(m, full) if kind in o.kinds]
                    stride = 1
                    if n > 0 and not ck.thorough:
                        # masked variants: thin the widest families, keeping
                        # the phase moving so that all members are used
                        stride = max(1, len(lst)//8)
                    for op in lst[n % stride::stride] if stride > 1 else lst:
                        check_op(ck, m, op, (kind, axx, axy, fm.mdesc(mask)))
    integers(ck)
    decimal(ck)
    evenly(ck)
    mirror_gap(ck)
    sequences(ck)


def integers(ck):
    """fields of integers (images, counts): masked values have no marker in
    the values themselves"""
    for dt in (int, "uint8", "int16"):
        for axx, axy, mt in (("a2", "a3", "all"), ("a4", "b3", "few"),
                             ("u4", "v3", "some")):
            shape = (len(fm.AXES[axx]), len(fm.AXES[axy]))
            for n, mask in enumerate(fm.masks(shape, mt)):
                m = fm.mk("s", axx, axy, mask)
                m.comps = [np.where(m.mask, np.nan, np.abs(np.round(
                    fm.vals(shape, 0)*4)) + 1)]
                m.dtype = dt
                for fam, gen in ops.FAMILIES.items():
                    if fam == "reduce" or dt != int and fam in ("scale",
                                                                "unit"):
                        # averages of integers are integers
                        continue
                    lst = [o for o in gen(m, False) if "s" in o.kinds]
                    stride = 1 if ck.thorough else max(1, len(lst)//8)
                    for op in lst[n % stride::stride]:
                        check_op(ck, m, op, (str(dt), axx, axy,
                                             fm.mdesc(mask)))


def decimal(ck):
    """axes whose steps are not binary fractions: every operation on each
    (step, offset), the coordinates being subject to rounding"""
    offs = range(-12, 13) if ck.thorough else range(-10, 11, 2)
    for st in (.1, .3, .7, 1./3) if ck.thorough else (.1, 1./3):
        for o in offs:
            ax = np.arange(4)*st + o*st
            ay = np.arange(3)*st - o*st
            for kind in "sv":
                mask = np.zeros((4, 3), bool)
                mask[1, 1] = True
                m = fm.M(ax, ay, [fm.vals((4, 3), k) for k in
                                  range(1 if kind == "s" else 2)], mask, "m",
                         "mm", "m/s")
                lst = []
                for n in range(1, 5):
                    lst += [ops.Op("extend", {"nmb_" + s: n}, geo.extend)
                            for s in ("left", "right", "up", "down")]
                lst += [ops.Op("crop", {"intervx": [ax[i], ax[j]]}, geo.crop)
                        for i in range(4) for j in range(i, 4)]
                lst += [ops.Op("crop", {"intervy": [ay[i], ay[j]]}, geo.crop)
                        for i in range(3) for j in range(i, 3)]
                lst += [ops.Op("set_origin", {"x": ax[i], "y": ay[i]},
                               geo.set_origin, inplace="always")
                        for i in range(3)]
                lst += ops.rotate_ops(m, False)[:5]
                lst += ops.reduce_ops(m, False)[1:3]
                for op in lst:
                    check_op(ck, m, op, (kind, "decimal", st, o),
                             modes=(op.inplace == "always",))


def evenly(ck):
    """resampling on an even grid keeps the domain, the units, and is exact on
    fields that are linear along each axis"""
    from IMTreatment import ScalarField, VectorField
    axs = ["a3", "u3", "u4", "a4", "b4", "d5", "v3"]
    for axx, axy in itertools.product(axs, axs):
        for kind in "sv":
            for res in (1, 2, 3):
                ax, ay = np.array(fm.AXES[axx]), np.array(fm.AXES[axy])
                X, Y = np.meshgrid(ax, ay, indexing="ij")
                fs = [lambda x, y: 1 + 2*x - 3*y + .5*x*y,
                      lambda x, y: -2 + x + y - x*y]

                def fn():
                    comps = [fs[k](X, Y) for k in range(1 if kind == "s"
                                                        else 2)]
                    f = fm.M(ax, ay, comps, None, "m", "mm", "m/s").real()
                    f.make_evenly_spaced(res=res)
                    o = fm.wellformed(f)
                    for a, n in ((ax, o.ax), (ay, o.ay)):
                        expect(len(n) >= 1 and abs(n[0] - a[0]) < 1e-9,
                               "first coordinate")
                        if len(n) > 1:
                            expect(abs(n[-1] - a[-1]) < 1e-9,
                                   "last coordinate", n.tolist())
                            d = np.diff(n)
                            expect(fm.close(d, d[0] + 0*d), "not even")
                    NX, NY = np.meshgrid(o.ax, o.ay, indexing="ij")
                    for k, c in enumerate(o.comps):
                        expect(fm.close(c, fs[k](NX, NY), 1e-6), "values",
                               lambda: (c.tolist(), fs[k](NX, NY).tolist()))
                    expect(fm.same_unit(o.ux, fm.U("m")) and
                           fm.same_unit(o.uy, fm.U("mm")) and
                           fm.same_unit(o.uv, fm.U("m/s")), "units")
                    return o.key()
                if int((ax[-1] - ax[0])/np.diff(ax).min()*res) < 2 or \
                        int((ay[-1] - ay[0])/np.diff(ay).min()*res) < 2:
                    continue
                ck.case("make_evenly_spaced|" + kind, (axx, axy, res), fn)


def alphabet(m):
    g = geo
    O = ops.Op
    mx, my = m.ax[0], m.ay[0]
    return [O("rotate", {"angle": 90}, g.rotate),
            O("rotate", {"angle": 180}, g.rotate),
            O("crop", {"intervx": [0, 1], "ind": True}, g.crop),
            O("crop", {"intervy": [float(m.ay[min(1, len(m.ay) - 1)]),
                                   1e3]}, g.crop),
            O("extend", {"nmb_left": 1, "nmb_up": 1}, g.extend),
            O("scale", {"scalex": -2.}, g.scale),
            O("scale", {"scaley": (-4., "s")}, g.scale),
            O("scale", {"scalev": -2.}, g.scale),
            O("set_origin", {"x": float(mx) + .5, "y": -1.}, g.set_origin,
              inplace="always"),
            O("crop_masked_border", {"hard": False}, g.crop_masked_border),
            O("crop_masked_border", {"hard": True}, g.crop_masked_border),
            O("reduce_spatial_resolution", {"fact": 2},
              g.reduce_spatial_resolution),
            O("mirroring", {"direction": "x", "position": float(mx)},
              g.mirroring),
            O("mirroring", {"direction": "y", "position":
                            float(my - .5*(m.ay[1] - m.ay[0])
                                  if len(m.ay) > 1 else my)}, g.mirroring)]


def sequences(ck):
    """breadth-first search over reachable field states.  Each state is
    reached by running the real operations one after the other on one object
    (alternating in-place and copying calls); states with the same observable
    content are merged."""
    depth = 4 if ck.thorough else 3
    for kind in "sv":
        for axx, axy, pts in (("a3", "b2", ()), ("a3", "a4", ((0, 0),)),
                              ("a4", "a3", ((0, 0), (0, 1), (0, 2), (2, 1)))):
            shape = (len(fm.AXES[axx]), len(fm.AXES[axy]))
            mask = np.zeros(shape, bool)
            for p in pts:
                mask[p] = True
            m0 = fm.mk(kind, axx, axy, mask)
            frontier = [(m0, [])]
            seen = {m0.key()}
            for d in range(depth):
                nxt = []
                for m, hist in frontier:
                    for op in alphabet(m):
                        exp = op.apply_model(m)
                        if exp is None or exp.shape[0]*exp.shape[1] > 40:
                            continue
                        h = hist + [op]

                        def fn():
                            f = m0.real()
                            for k, o in enumerate(h):
                                g = o.apply(f, k % 2 == len(h) % 2)
                                expect(g is not None, "returned nothing")
                                f = g
                            fm.wellformed(f)
                            return fm.compare(f, exp, rtol=1e-7)
                        ck.case("sequence|{}|{}".format(kind, op.label),
                                (kind, axx, axy, pts, h), fn,
                                state=("seq", kind, exp.key()))
                        k = exp.key()
                        if k not in seen:
                            seen.add(k)
                            nxt.append((exp, h))
                frontier = nxt


def mirror_gap(ck):
    """symmetry plane away from the field: the gap between the field and its
    image is filled on request, everything else is the plain mirror image"""
    for kind in "sv":
        for axx, axy in (("a3", "a4"), ("a4", "b3"), ("b4", "a3")):
            m = fm.mk(kind, axx, axy)
            for d, ax in (("x", m.ax), ("y", m.ay)):
                dx = ax[1] - ax[0]
                for p in (ax[0] - dx, ax[0] - 1.5*dx, ax[-1] + dx,
                          ax[-1] + 1.5*dx, ax[-1] + 2*dx):
                    for k in ("all", 1, 2):
                        for interp in ("value", "linear", "nearest"):
                            def fn():
                                return gap_case(m, d, float(p), k, interp)
                            ck.case("mirroring gap {}|{}|{}".format(
                                interp, kind, d),
                                (axx, axy, p, k, interp), fn)


def gap_case(m, d, p, k, interp):
    base = geo.mirroring(m, d, p, k)
    vals = 7. if len(m.comps) == 1 else [7., -3.]
    kw = {}
    if interp in ("value", "nearest"):
        kw["value"] = vals
    r = m.real().mirroring(d, p, inds_to_mirror=k, interp=interp,
                           inplace=False, **kw)
    o = fm.wellformed(r)
    expect(o.ax.shape == base.ax.shape and o.ay.shape == base.ay.shape,
           "axis length")
    expect(fm.close(o.ax, base.ax) and fm.close(o.ay, base.ay), "axes")
    expect(not o.mask.any(), "masked points left")
    cst = [vals] if len(m.comps) == 1 else vals
    for c, b, v in zip(o.comps, base.comps, cst):
        expect(fm.close(np.where(base.mask, 0, c),
                        np.where(base.mask, 0, b)), "values outside the gap",
               lambda: (c.tolist(), b.tolist()))
        e = np.array(b)
        if interp == "value":
            e[base.mask] = v
        elif interp == "linear":
            e = e if d == "x" else e.T
            mk = base.mask if d == "x" else base.mask.T
            for j in range(e.shape[1]):
                g = np.where(mk[:, j])[0]
                if len(g) == 0:
                    continue
                lo, hi = g[0] - 1, g[-1] + 1
                for i in g:
                    t = (i - lo)/float(hi - lo)
                    e[i, j] = e[lo, j]*(1 - t) + e[hi, j]*t
            e = e if d == "x" else e.T
        else:
            # each filled value is one of the available data
            pool = list(b[~base.mask]) + [v]
            for w in c[base.mask]:
                expect(min(abs(w - q) for q in pool) < 1e-9,
                       "gap value from nowhere")
            continue
        expect(fm.close(c, e), "values in the gap",
               lambda: (c.tolist(), e.tolist()))
    return o.key()
