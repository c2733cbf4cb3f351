"""Alphabet of field transformations with their reference semantics."""
import itertools

import numpy as np

from mc import geo
from mc.fm import U


class Op(object):
    def __init__(self, name, kw, model, inplace="both", kinds="sv",
                 label=None):
        self.name, self.kw, self.model = name, kw, model
        self.inplace, self.kinds = inplace, kinds
        self.label = label or name

    def real_kw(self):
        kw = {}
        for k, v in self.kw.items():
            if k.startswith("scale") and isinstance(v, tuple):
                v = v[0]*U(v[1])
            elif isinstance(v, list):
                v = list(v)
            kw[k] = v
        return kw

    def apply_model(self, m):
        return self.model(m, **self.kw)

    def apply(self, f, inplace):
        """run the real operation; returns the transformed object"""
        kw = self.real_kw()
        if self.name == "change_unit":
            kw["new_unit"] = kw.pop("unit")
        if self.inplace == "always":
            getattr(f, self.name)(**kw)
            return f
        if inplace:
            r = getattr(f, self.name)(inplace=True, **kw)
            if r is not None:
                from mc.core import Mismatch
                raise Mismatch("in-place call returned something", repr(r))
            return f
        return getattr(f, self.name)(inplace=False, **kw)

    def __repr__(self):
        return "{}({})".format(self.name, ", ".join(
            "{}={}".format(k, v) for k, v in sorted(self.kw.items())))


def crops(m):
    """all coordinate crops whose bounds are nodes, mid-cells or outside; and
    all index crops"""
    def bounds(ax):
        b = [ax[0] - 1.] + list(ax) + [ax[-1] + 1.] + \
            [(ax[i] + ax[i + 1])/2. for i in range(len(ax) - 1)]
        return sorted(b)
    bx, by = bounds(m.ax), bounds(m.ay)
    ivx = [None] + [[a, b] for a in bx for b in bx if a <= b]
    ivy = [None] + [[a, b] for a in by for b in by if a <= b]
    return ivx, ivy


def crop_ops(m, full):
    ivx, ivy = crops(m)
    res = []
    if full:
        prod = itertools.product(ivx, ivy)
    else:
        prod = [(a, None) for a in ivx] + [(None, b) for b in ivy] + \
            [(a, b) for a in ivx[1::5] for b in ivy[1::4]]
    for a, b in prod:
        kw = {}
        if a is not None:
            kw["intervx"] = a
        if b is not None:
            kw["intervy"] = b
        res.append(Op("crop", kw, geo.crop))
    nx, ny = m.shape
    for a in [None] + [[i, j] for i in range(nx) for j in range(max(i, 1),
                                                               nx)]:
        for b in [None] + [[i, j] for i in range(ny) for j in range(max(i, 1),
                                                                   ny)]:
            kw = {"ind": True}
            if a is not None:
                kw["intervx"] = a
            if b is not None:
                kw["intervy"] = b
            res.append(Op("crop", kw, geo.crop, label="crop ind"))
    return res


def extend_ops(m, full):
    res = []
    rng = range(3) if full else range(2)
    for l, r, u, d in itertools.product(rng, rng, rng, rng):
        kw = dict(nmb_left=l, nmb_right=r, nmb_up=u, nmb_down=d)
        res.append(Op("extend", kw, geo.extend))
        if (l, r, u, d) in ((1, 0, 0, 1), (0, 1, 1, 0), (1, 1, 1, 1)):
            for v in (2.5, 0, 0., -1):
                res.append(Op("extend", dict(kw, value=v), geo.extend,
                              kinds="s", label="extend value"))
    if min(m.shape) < 2:
        return res
    dx, dy = m.ax[1] - m.ax[0], m.ay[1] - m.ay[0]
    for a, b in ((0, 1), (1, 0), (.5, 1.5), (2, 2.25)):
        for x, y in (("left", "down"), ("right", "up")):
            res.append(Op("extend", {"nmb_" + x: a*dx, "nmb_" + y: b*dy,
                                     "ind": False}, geo.extend, kinds="s",
                          label="extend by lengths"))
    return res


def scale_ops(m, full):
    s = [None, 2., -1., -.5, 3, (2., "m"), (-.5, "1/s"), (500., "mm")]
    s = [x if not (isinstance(x, tuple) and x[1] == "1/s") else
         (-.5, "m") for x in s]
    res = []
    for a, b in itertools.product(s, s):
        res.append(Op("scale", {k: v for k, v in (("scalex", a),
                                                 ("scaley", b))
                                if v is not None}, geo.scale))
    for a, v in itertools.product([None, -1., (2., "m")],
                                  [2., -1., (.5, "s"), (-20., "mm/s"), 4]):
        kw = {"scalev": v}
        if a is not None:
            kw["scalex"] = a
        res.append(Op("scale", kw, geo.scale, label="scale values"))
    return res


def rotate_ops(m, full):
    return [Op("rotate", {"angle": a}, geo.rotate)
            for a in (0, 90, 180, 270, 360, -90, -180, -270, 450)]


def origin_ops(m, full):
    return [Op("set_origin", {k: v for k, v in (("x", x), ("y", y))
                              if v is not None}, geo.set_origin,
               inplace="always")
            for x in (None, 0, 1., -2.5) for y in (None, 0., 2, -1.5)]


def unit_ops(m, full):
    res = []
    import unum
    for axe, cur in (("x", m.ux), ("y", m.uy), ("values", m.uv)):
        for u in ("m", "mm", "cm", "m/s", "mm/s", "m/ms", "s", "ms"):
            try:
                geo.ratio(cur, U(u))
            except Exception:
                continue
            res.append(Op("change_unit", {"axe": axe, "unit": u},
                          geo.change_unit, inplace="always",
                          label="change_unit " + axe))
    return res


def border_ops(m, full):
    return [Op("crop_masked_border", {"hard": h}, geo.crop_masked_border,
               label="crop_masked_border hard={}".format(h))
            for h in (False, True)]


def reduce_ops(m, full):
    return [Op("reduce_spatial_resolution", {"fact": k},
               geo.reduce_spatial_resolution,
               label="reduce_spatial_resolution {}".format(
                   "odd" if k % 2 else "even")) for k in (1, 2, 3, 4)]


def mirror_ops(m, full):
    res = []
    for d, ax in (("x", m.ax), ("y", m.ay)):
        # the position of the plane is a multiple of half a step only for axes
        # without rounding errors
        if len(ax) < 2 or np.any(np.array(ax)*1024 % 1 != 0):
            continue
        dx = ax[1] - ax[0]
        pos = list(ax) + [v + dx/2. for v in ax] + [ax[0] - dx/2.,
                                                    ax[0] - dx,
                                                    ax[-1] + dx]
        for p in sorted(set(pos)):
            for k in ("all", 1, 2):
                for co in (1, -2.):
                    if co != 1 and k != "all":
                        continue
                    res.append(Op("mirroring", dict(
                        direction=d, position=float(p), inds_to_mirror=k,
                        mir_coef=co), geo.mirroring,
                        label="mirroring " + d))
            res.append(Op("mirroring", dict(
                direction=d, position=float(p), mir_coef=[3., -.5]),
                geo.mirroring, kinds="v", label="mirroring " + d))
    return res


FAMILIES = dict(crop=crop_ops, extend=extend_ops, scale=scale_ops,
                rotate=rotate_ops, origin=origin_ops, unit=unit_ops,
                border=border_ops, reduce=reduce_ops, mirror=mirror_ops)
