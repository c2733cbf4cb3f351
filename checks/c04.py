"""C04: unit changes keep the physical quantities; unit expressions."""
import builtins
import itertools

import numpy as np
import unum

from mc.core import expect
from mc import fm

# exact factors, independent from the library: (factor, (m, s, kg) powers)
BASE = {"m": (1., (1, 0, 0)), "mm": (1e-3, (1, 0, 0)),
        "cm": (1e-2, (1, 0, 0)), "km": (1e3, (1, 0, 0)),
        "um": (1e-6, (1, 0, 0)),
        "s": (1., (0, 1, 0)), "ms": (1e-3, (0, 1, 0)),
        "h": (3600., (0, 1, 0)), "min": (60., (0, 1, 0)),
        "kg": (1., (0, 0, 1)), "g": (1e-3, (0, 0, 1)),
        "N": (1., (1, -2, 1)), "Pa": (1., (-1, -2, 1)),
        "Hz": (1., (0, -1, 0))}
LEN = ["m", "mm", "km", "cm"]
VEL = ["m/s", "mm/s", "km/h", "cm/ms"]
TIM = ["s", "ms", "h", "min"]
PRE = ["Pa", "N/m**2", "kg/m/s**2", "g/mm/ms**2"]
BAD = {"len": ["s", "m/s", "kg", "m**2", ""], "vel": ["m", "s/m", "Pa", ""],
       "tim": ["m", "Hz", "s**2", ""], "pre": ["N", "m/s", ""]}
ALPH = {"len": LEN, "vel": VEL, "tim": TIM, "pre": PRE}


def parse(txt):
    """factor and dimensions of a*b/c**n chains"""
    f, d = 1., (0, 0, 0)
    if txt == "":
        return f, d
    sign = 1
    for tok in txt.replace("**", "^").replace("*", " * ").replace(
            "/", " / ").split():
        if tok == "*":
            sign = 1
        elif tok == "/":
            sign = -1
        else:
            u, _, p = tok.partition("^")
            p = sign*int(p or 1)
            bf, bd = BASE[u]
            f *= bf**p
            d = tuple(a + p*b for a, b in zip(d, bd))
    return f, d


def decode(u):
    """factor and dimensions of a unum unit, from its own tables"""
    f, d = float(u._value), (0, 0, 0)
    for name, p in u._unit.items():
        bf, bd = BASE[name]
        f *= bf**p
        d = tuple(a + p*b for a, b in zip(d, bd))
    return f, d


def check_unit(u, txt, what):
    f, d = decode(u)
    ef, ed = parse(txt)
    expect(d == ed and abs(f/ef - 1) < 1e-9, what,
           lambda: (str(u), txt))


class Slot(object):
    """one convertible quantity of an object: name of the axis for
    change_unit, reader of its numbers, reader(s) of its unit"""

    def __init__(self, axe, fam, nums, units):
        self.axe, self.fam, self.nums, self.units = axe, fam, nums, units


def fslots(el, uv="vel"):
    """slots of a field"""
    sl = [Slot("x", "len", lambda o: o.axe_x, lambda o: [o.unit_x]),
          Slot("y", "len", lambda o: o.axe_y, lambda o: [o.unit_y])]
    if el == "s":
        sl.append(Slot("values", uv, lambda o: o.values,
                       lambda o: [o.unit_values]))
    else:
        sl.append(Slot("values", uv,
                       lambda o: np.array([o.comp_x, o.comp_y]),
                       lambda o: [o.unit_values]))
    return sl


def objects():
    """(name, builder, slots)"""
    from IMTreatment import (ScalarField, VectorField, Profile, Points,
                             OrientedPoints, TemporalScalarFields,
                             TemporalVectorFields)
    from IMTreatment.core.temporalpoints import TemporalPoints
    msk = np.array([[0, 1, 0], [0, 0, 0]], bool)
    v = np.array([[1.5, -2., 0.], [3., 4.25, -7.]])

    def sf(u, dtype=float, mask=True, ints=False):
        f = ScalarField()
        f.import_from_arrays(
            np.array([0, 2] if ints else [-1., 2.5]),
            np.array([1, 2, 4] if ints else [0., .5, 2.]),
            v.astype(dtype), mask=msk.copy() if mask else False,
            unit_x=u[0], unit_y=u[1], unit_values=u[2])
        return f

    def vf(u, mask=True, dtype=float):
        f = VectorField()
        f.import_from_arrays([-1., 2.5], [0., .5, 2.], v.astype(dtype),
                             (2*v + 1).astype(dtype),
                             mask=msk.copy() if mask else False, unit_x=u[0],
                             unit_y=u[1], unit_values=u[2])
        return f
    yield "scalar field", sf, fslots("s")
    yield "scalar field of pressure", sf, fslots("s", "pre")
    yield "integer scalar field", \
        lambda u: sf(u, int, False, True), fslots("s")
    yield "vector field", vf, fslots("v")
    yield "integer vector field", lambda u: vf(u, False, int), fslots("v")

    def prof(u, dtype=float, mask=True):
        return Profile(np.array([0, 1, 3], dtype), np.array([2, -1, 5],
                                                             dtype),
                       mask=[False, mask, False], unit_x=u[0], unit_y=u[1])
    psl = [Slot("x", "tim", lambda o: o.x, lambda o: [o.unit_x]),
           Slot("y", "vel", lambda o: o.y, lambda o: [o.unit_y])]
    yield "profile", prof, psl
    yield "integer profile", lambda u: prof(u, int, False), psl

    def pts(u, cls=Points, dtype=float, n=3, v=True):
        xy = np.array([[0, 1], [2, -3], [4, 4]], dtype)[:n].reshape(-1, 2)
        val = np.array([5, -1, 2], dtype)[:n] if v else []
        if cls is OrientedPoints:
            ori = np.array([[[1., 0.], [0., 1.]]]*n).reshape(-1, 2, 2) \
                if n else []
            return OrientedPoints(xy, ori, val, unit_x=u[0], unit_y=u[1],
                                  unit_v=u[2])
        return Points(xy, val, unit_x=u[0], unit_y=u[1], unit_v=u[2])
    ptsl = [Slot("x", "len", lambda o: o.xy[:, 0], lambda o: [o.unit_x]),
            Slot("y", "len", lambda o: o.xy[:, 1], lambda o: [o.unit_y]),
            Slot("v", "tim", lambda o: o.v, lambda o: [o.unit_v])]
    yield "points", pts, ptsl
    yield "integer points", lambda u: pts(u, dtype=int), ptsl
    yield "no points", lambda u: pts(u, n=0), ptsl
    yield "points without values", lambda u: pts(u, v=False), ptsl
    yield "oriented points", lambda u: pts(u, OrientedPoints), ptsl

    def tfs(u, kind):
        ts = TemporalScalarFields() if kind == "s" else TemporalVectorFields()
        for k, t in enumerate((2., -1., 3.5)):
            f = sf(u, mask=k == 1) if kind == "s" else vf(u, k == 1)
            ts.add_field(f*float(k + 1), time=t, unit_times=u[3])
        return ts

    def tsl(kind):
        def allv(o):
            if kind == "s":
                return np.array([f.values for f in o.fields])
            return np.array([[f.comp_x, f.comp_y] for f in o.fields])
        return [
            Slot("x", "len", lambda o: np.array(
                [o.axe_x] + [f.axe_x for f in o.fields]),
                lambda o: [o.unit_x] + [f.unit_x for f in o.fields]),
            Slot("y", "len", lambda o: np.array(
                [o.axe_y] + [f.axe_y for f in o.fields]),
                lambda o: [o.unit_y] + [f.unit_y for f in o.fields]),
            Slot("values", "vel", allv, lambda o: [o.unit_values] + [
                f.unit_values for f in o.fields]),
            Slot("time", "tim", lambda o: o.times,
                 lambda o: [o.unit_times])]
    for kind in "sv":
        yield "series " + kind, (lambda u, kind=kind: tfs(u, kind)), tsl(kind)

    def tpts(u):
        tp = TemporalPoints()
        for k, t in enumerate((2., -1.)):
            tp.add_pts(pts(u, n=3 - k), time=t, unit_times=u[3])
        return tp
    yield "series of points", tpts, [
        Slot("x", "len", lambda o: np.concatenate(
            [p.xy[:, 0] for p in o.point_sets]),
            lambda o: [o.unit_x] + [p.unit_x for p in o.point_sets]),
        Slot("y", "len", lambda o: np.concatenate(
            [p.xy[:, 1] for p in o.point_sets]),
            lambda o: [o.unit_y] + [p.unit_y for p in o.point_sets]),
        Slot("values", "tim", lambda o: np.concatenate(
            [p.v for p in o.point_sets]),
            lambda o: [p.unit_v for p in o.point_sets]),
        Slot("time", "tim", lambda o: o.times, lambda o: [o.unit_times])]


def phys(o, slots, units):
    """physical numbers (base units) according to the expected units"""
    res = []
    for sl, u in zip(slots, units):
        a = np.array(sl.nums(o), dtype=float)
        res.append(a*parse(u)[0])
    return res


def masks_of(o):
    if hasattr(o, "point_sets") or not hasattr(o, "mask"):
        return None
    return np.array(o.mask, bool)


def conversions(ck):
    depth = 4 if ck.thorough else 3
    for name, build, slots in objects():
        start = [ALPH[s.fam][0] for s in slots]
        chains = []
        for i, sl in enumerate(slots):
            al = ALPH[sl.fam]
            # every chain of conversions of one quantity
            for d in range(1, depth + 1):
                for ch in itertools.product(al, repeat=d):
                    if d > 2 and any(a == b for a, b in zip(ch, ch[1:])):
                        continue
                    chains.append([(i, u) for u in ch])
        # conversions of different quantities mixed
        for (i, a), (j, b) in itertools.permutations(enumerate(slots), 2):
            for ua, ub, uc in itertools.product(
                    ALPH[a.fam][1:3], ALPH[b.fam][1:3], ALPH[a.fam]):
                chains.append([(i, ua), (j, ub), (i, uc)])

        for ch in chains:
            for asobj in ((False, True) if len(ch) == 1 else (False,)):
                def conv():
                    o = build(start)
                    ref = phys(o, slots, start)
                    mref = masks_of(o)
                    units = list(start)
                    for i, u in ch:
                        o.change_unit(slots[i].axe,
                                      fm.U(u) if asobj else u)
                        units[i] = u
                        for sl, un in zip(slots, units):
                            for r in sl.units(o):
                                check_unit(r, un, "unit of " + sl.axe)
                        for sl, a, b in zip(slots, phys(o, slots, units),
                                            ref):
                            expect(fm.close(a, b, 1e-9),
                                   "physical " + sl.axe,
                                   lambda: (np.ravel(a)[:6].tolist(),
                                            np.ravel(b)[:6].tolist()))
                        if mref is not None:
                            expect(np.array_equal(masks_of(o), mref), "mask")
                    return (name, tuple(units))
                ck.case("conversion|{}|{}".format(name, slots[ch[-1][0]].axe),
                        (name, ch, asobj), conv)
        # refused conversions
        for i, sl in enumerate(slots):
            for bad in BAD[sl.fam]:
                def refuse():
                    o = build(start)
                    ref = fm.snap(o)
                    try:
                        o.change_unit(sl.axe, bad)
                    except Exception:
                        expect(fm.snap(o) == ref, "object changed")
                        return "refused"
                    expect(False, "not refused")
                ck.case("refused|{}|{}".format(name, sl.axe), (bad,), refuse)

        def badaxe():
            o = build(start)
            ref = fm.snap(o)
            for a in ("z", "", "X", "t", None, 1):
                try:
                    o.change_unit(a, "m")
                except Exception:
                    expect(fm.snap(o) == ref, "object changed", lambda: a)
                    continue
                expect(False, "unknown axis accepted", lambda: a)
        ck.case("unknown axis|" + name, (), badaxe)


# -- unit expressions --------------------------------------------------------
OPS = {"*": lambda a, b: (a[0]*b[0], tuple(x + y for x, y in zip(a[1],
                                                                b[1]))),
       "/": lambda a, b: (a[0]/b[0], tuple(x - y for x, y in zip(a[1],
                                                                b[1])))}


def trees(n, leaves):
    if n == 1:
        for u in leaves:
            yield u
        return
    for k in range(1, n):
        for a in trees(k, leaves):
            for b in trees(n - k, leaves):
                for op in "*/":
                    yield (op, a, b)


def value(t):
    if isinstance(t, str):
        u, _, p = t.partition("**")
        f, d = BASE[u]
        p = int(p) if p else 1
        return (f**p, tuple(p*x for x in d))
    return OPS[t[0]](value(t[1]), value(t[2]))


def show(t, hat, sp, full, top=True):
    if isinstance(t, str):
        return t.replace("**", "^") if hat else t
    a, b = [show(x, hat, sp, full, False) for x in t[1:]]
    if not isinstance(t[2], str):
        b = b if full else "({})".format(b)
    s = sp.join([a, t[0], b])
    return "({})".format(s) if full and not top else s


def expressions(ck):
    from IMTreatment.utils import make_unit
    leaves = ["m", "s", "kg", "mm", "m**2", "s**-1", "N"]
    few = ["m", "s", "mm**3"]
    todo = list(trees(1, sorted(BASE))) + list(trees(2, leaves)) + \
        list(trees(3, leaves if ck.thorough else few)) + \
        (list(trees(4, ["m", "s**2"])) if ck.thorough else
         list(trees(4, ["m", "s"])))
    for t in todo:
        f, d = value(t)
        for hat, sp, full in itertools.product((0, 1), ("", " "), (0, 1)):
            txt = show(t, hat, sp, full)

            def ev():
                u = make_unit(txt)
                expect(isinstance(u, unum.Unum), "not a unit")
                gf, gd = decode(u)
                expect(gd == d, "dimension", lambda: (str(u), txt))
                expect(abs(gf/f - 1) < 1e-9, "scale", lambda: (str(u), txt))
                return (d, round(f, 9))
            ck.case("expression", txt, ev)
    # every unit the library knows can be named alone
    import unum.units as uu
    for nm in sorted(n for n in dir(uu)
                     if isinstance(getattr(uu, n), unum.Unum)):
        def alone():
            u = make_unit(nm)
            expect(u == getattr(uu, nm), "another unit")
        ck.case("named unit", nm, alone)

    def empty():
        u = make_unit("")
        expect(u.asNumber() == 1 and not u._unit, "empty unit")
    ck.case("expression", "", empty)
    # nothing else is executed
    bad = ["canary()", "m*canary()", "canary()*m", "(canary(), m)[1]",
           "m if canary() else s", "[canary() for i in (1,)][0]*m",
           "(lambda: canary())()*m", "m*int(canary() is None)", "m or canary()",
           "m**canary()", "m*len([canary()])", "{canary(): m}",
           "(canary)()", " canary()", "m**(canary() or 2)",
           "not canary()", "m*canary ()", "canary\t()", "-canary()"]
    for txt in bad:
        def nope():
            seen = []

            def canary():
                seen.append(1)
                return 1
            builtins.canary = canary
            try:
                try:
                    make_unit(txt)
                except Exception:
                    expect(not seen, "executed")
                    return "refused"
                expect(not seen, "executed")
                expect(False, "not refused")
            finally:
                del builtins.canary
        ck.case("not an expression|call", txt, nope)
    for txt in ["m.__class__", "xyz", "m s", "m*", "/s", "(m", "m)", "m;s",
                "m\ns", "m=s", "'m'", "[m]", "m, s", "m<s", "m[0]",
                "lambda: m", "__builtins__", "m.asUnit", "m:s", "*m",
                "m if s else m", "(m, s)", "{m}", "abs", "print"]:
        def nope2():
            try:
                make_unit(txt)
            except Exception:
                return "refused"
            expect(False, "not refused")
        ck.case("not an expression", txt, nope2)


def run(ck):
    conversions(ck)
    expressions(ck)
