"""C01  construction of fields from arrays: fidelity, ordering, no aliasing"""
import itertools

import numpy as np

from mc.core import Mismatch, expect
from mc import fm


def build(kind, ax, ay, comps, mask, units, dtype=None):
    from IMTreatment import ScalarField, VectorField
    f = ScalarField() if kind == "s" else VectorField()
    kw = dict(unit_x=units[0], unit_y=units[1], unit_values=units[2])
    if mask is not Ellipsis:
        kw["mask"] = mask
    if dtype is not None:
        kw["dtype"] = dtype
    f.import_from_arrays(ax, ay, *comps, **kw)
    return f


def run(ck):
    pairs = [("a2", "a3"), ("a3", "a2"), ("b3", "a4"), ("u4", "v3"),
             ("c3", "n3"), ("l11", "t4"), ("f4", "g3")]
    if ck.thorough:
        pairs += [("a4", "b4"), ("u3", "u3"), ("d5", "b2"), ("b2", "b2")]
    for kind in "sv":
        for axn, ayn in pairs:
            ax0, ay0 = np.array(fm.AXES[axn]), np.array(fm.AXES[ayn])
            shape = (len(ax0), len(ay0))
            if shape[0]*shape[1] <= (9 if ck.thorough else 6):
                mlist = list(fm.masks(shape, "all"))
            else:
                mlist = list(fm.masks(shape, "some" if axn in ("l11", "f4")
                                      else "few"))
            for revx, revy, transp, axdim, via in itertools.product(
                    (0, 1), (0, 1), (0, 1), ("1d", "ij", "xy", "list"),
                    ("mask", "nan", "both")):
                if transp and shape[0] == shape[1]:
                    continue
                ml = mlist
                if (axdim, via) not in (("1d", "mask"), ("1d", "nan")) \
                        and not ck.thorough:
                    ml = mlist[:4]
                for mask in ml:
                    one(ck, kind, axn, ayn, ax0, ay0, mask, revx, revy,
                        transp, axdim, via)
    # scalar masks, defaults, integer storage
    for kind in "sv":
        for mask in (Ellipsis, None, False, True):
            if kind == "v" and mask is None:
                continue
            ck.case("import|{}|mask={}".format(kind, mask), "a3 x a4",
                    lambda: scalar_mask(kind, mask))
        for dtype in (float, np.float32, int, np.uint8):
            if kind == "v" and dtype in (int, np.uint8):
                continue
            for mask in fm.masks((2, 3), "all"):
                ck.case("import|{}|dtype={}".format(kind, dtype.__name__),
                        fm.mdesc(mask), lambda: typed(kind, dtype, mask))
    # units given as text or as unit objects, rejected when they carry a factor
    from IMTreatment.utils import make_unit
    for kind in "sv":
        for ux, uy, uv in itertools.product(("", "m", "mm"), ("", "s"),
                                            ("", "m/s", "kg*m/s**2")):
            for asobj in (False, True):
                def fn(ux=ux, uy=uy, uv=uv, asobj=asobj, kind=kind):
                    m = fm.mk(kind, "a2", "a3", None, ux, uy, uv)
                    us = [make_unit(u) if asobj else u for u in (ux, uy, uv)]
                    f = build(kind, m.ax, m.ay, m.comps, False, us)
                    return fm.compare(f, m)
                ck.case("import|{}|units".format(kind), (ux, uy, uv, asobj),
                        fn)
        for slot in range(3):
            def fn(slot=slot, kind=kind):
                us = [make_unit("m")]*3
                us[slot] = 2.*make_unit("m")
                m = fm.mk(kind, "a2", "a3")
                try:
                    build(kind, m.ax, m.ay, m.comps, False, us)
                except ValueError:
                    return "rejected"
                raise Mismatch("unit with a factor accepted")
            ck.case("import|{}|unit with factor".format(kind), slot, fn)
            def fn2(slot=slot, kind=kind):
                us = [make_unit("m")]*3
                us[slot] = .5*make_unit("m")
                m = fm.mk(kind, "a2", "a3")
                try:
                    build(kind, m.ax, m.ay, m.comps, False, us)
                except ValueError:
                    return "rejected"
                raise Mismatch("unit with a factor accepted")
            ck.case("import|{}|unit with factor<1".format(kind), slot, fn2)
    # re-import in a used object forgets the previous content
    for kind in "sv":
        for mask in fm.masks((2, 3), "few"):
            def fn(kind=kind, mask=mask):
                old = fm.mk(kind, "b3", "a4", np.eye(3, 4) > 0, "s", "s", "kg")
                new = fm.mk(kind, "a2", "a3", mask)
                f = old.real()
                f.import_from_arrays(new.ax, new.ay, *new.comps,
                                     mask=new.mask, unit_x=new.ux,
                                     unit_y=new.uy, unit_values=new.uv)
                fm.wellformed(f)
                return fm.compare(f, new)
            ck.case("reimport|{}".format(kind), fm.mdesc(mask), fn)
    # mesh helper functions: analytic fields
    from IMTreatment.field_treatment import field_treatment as ft  # noqa
    # attribute setters keep the field consistent
    for kind in "sv":
        for mask in fm.masks((2, 3), "all"):
            ck.case("setter|{}".format(kind), fm.mdesc(mask),
                    lambda: setters(kind, mask))


def one(ck, kind, axn, ayn, ax0, ay0, mask, revx, revy, transp, axdim, via):
    model = fm.mk(kind, axn, ayn, mask)
    # what the caller passes
    pure = [fm.vals(model.shape, k) for k in range(len(model.comps))]
    pmask = np.array(mask)
    ax, ay = ax0.copy(), ay0.copy()
    if via in ("nan", "both"):
        for k in range(len(pure)):
            # the NaN may be in only one component
            if kind == "s" or k == (int(mask.sum()) % 2):
                pure[k] = np.where(mask, np.nan, pure[k])
    if via == "nan":
        pmask = np.zeros(model.shape, dtype=bool)
    if via == "both" and mask.any():
        # half of the masked points come from the mask, half from NaN
        idx = np.argwhere(mask)
        for n, (i, j) in enumerate(idx):
            if n % 2:
                pmask[i, j] = False
            else:
                for c in pure:
                    c[i, j] = 77.
    if revx:
        ax = ax[::-1]
        pure = [c[::-1] for c in pure]
        pmask = pmask[::-1]
    if revy:
        ay = ay[::-1]
        pure = [c[:, ::-1] for c in pure]
        pmask = pmask[:, ::-1]
    if axdim in ("ij", "xy"):
        ax, ay = np.meshgrid(ax, ay, indexing=axdim)
    if transp:
        pure = [c.T for c in pure]
        pmask = pmask.T
    args = [np.array(ax), np.array(ay)] + [np.array(c) for c in pure]
    pm = np.array(pmask)
    if axdim == "list":
        args = [a.tolist() for a in args]
        pm = pm.tolist()

    def fn():
        before = fm.snap([args, pm])
        f = build(kind, args[0], args[1], args[2:], pm,
                  (model.ux, model.uy, model.uv))
        fm.wellformed(f)
        key = fm.compare(f, model)
        expect(fm.snap([args, pm]) == before, "caller arrays modified")
        expect(not fm.shares_memory(f, [args, pm]), "shares caller memory")
        return key
    rev = "reversed" if (revx or revy) else "ordered"
    ck.case("import|{}|{}|{}".format(kind, rev, fm.mcls(mask)),
            (axn, ayn, fm.mdesc(mask), revx, revy, transp, axdim, via), fn,
            state=(kind, axn, ayn, fm.mdesc(mask), revx, revy, transp, axdim,
                   via))


def scalar_mask(kind, mask):
    m = fm.mk(kind, "a3", "a4", np.full((3, 4), mask is True))
    f = build(kind, m.ax, m.ay, [fm.vals(m.shape, k)
                                 for k in range(len(m.comps))], mask,
              (m.ux, m.uy, m.uv))
    fm.wellformed(f)
    return fm.compare(f, m)


def typed(kind, dtype, mask):
    comps = [(np.arange(6).reshape(2, 3) + 3 + k).astype(dtype)
             for k in range(1 if kind == "s" else 2)]
    m = fm.M([0., 1.], [0., 1., 2.], comps, mask, "m", "m", "m/s")
    f = build(kind, m.ax, m.ay, comps, mask, ("m", "m", "m/s"), dtype)
    o = fm.obs(f)
    expect(o.mask.tolist() == m.mask.tolist(), "mask")
    for c, mcomp, raw in zip(o.comps, m.comps, comps):
        expect(c.dtype == np.dtype(dtype), "dtype", str(c.dtype))
        expect(np.array_equal(c[~mask], raw[~mask]), "values")
    expect(not fm.shares_memory(f, comps), "shares caller memory")
    return o.key()


def setters(kind, mask):
    m = fm.mk(kind, "a2", "a3")
    f = m.real()
    if kind == "s":
        new = np.where(mask, np.nan, fm.vals(m.shape, 2))
        f.values = new
        fm.wellformed(f)
        fm.compare(f, fm.M(m.ax, m.ay, [new], None, m.ux, m.uy, m.uv))
        # wrong shapes are refused and leave the field untouched
        before = fm.snap(f)
        for bad in (np.zeros((3, 2)), np.zeros((2, 2)), np.zeros(6)):
            try:
                f.values = bad
            except ValueError:
                pass
            else:
                raise Mismatch("wrong shape accepted")
            expect(fm.snap(f) == before, "modified by a refused assignment")
    # masking points through the mask attribute
    f = m.real()
    f.mask = np.array(mask)
    fm.wellformed(f)
    key = fm.compare(f, fm.M(m.ax, m.ay, m.comps, mask, m.ux, m.uy, m.uv))
    before = fm.snap(f)
    for bad in (np.zeros((3, 2), dtype=bool), np.zeros((2, 2), dtype=bool)):
        try:
            f.mask = bad
        except ValueError:
            pass
        else:
            raise Mismatch("wrong mask shape accepted")
        expect(fm.snap(f) == before, "modified by a refused assignment")
    return key
