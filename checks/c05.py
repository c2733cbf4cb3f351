"""C05: queries and copying operations neither alter nor share operands."""
import copy

import numpy as np

from mc.core import expect
from mc import fm, registry as reg


def same(a, b):
    """equality of results, with tolerance on floats"""
    return norm(a) == norm(b)


def _num(x):
    """a number, rounded, NaN comparable"""
    if isinstance(x, (complex, np.complexfloating)):
        return (_num(x.real), _num(x.imag))
    if isinstance(x, (float, np.floating)):
        return "nan" if x != x else float("%.9g" % x) + 0.
    return x


def norm(x):
    """value of a result: rounded numbers, NaN comparable"""
    if isinstance(x, (float, np.floating, complex, np.complexfloating)):
        return ("f", _num(x))
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "fc":
            return ("a", x.shape, tuple(_num(i) for i in x.ravel().tolist()))
        if x.dtype != object:
            return ("a", x.shape, tuple(x.ravel().tolist()))
        return ("o", x.shape, tuple(norm(i) for i in x.ravel().tolist()))
    if isinstance(x, (list, tuple)):
        return ("l", tuple(norm(i) for i in x))
    if isinstance(x, dict):
        return ("d", tuple(sorted((str(k), norm(v)) for k, v in x.items())))
    if type(x).__module__.startswith("IMTreatment"):
        return (type(x).__name__, norm(fm.pubdict(x)))
    return fm.snap(x)


def library_object(r):
    return type(r).__module__.startswith("IMTreatment")


def scribble(x, seen=None):
    """overwrite every array reachable through the public data"""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for i in x.ravel():
                scribble(i, seen)
        elif x.flags.writeable and x.size:
            x[...] = np.logical_not(x) if x.dtype == bool else 77
    elif isinstance(x, (list, tuple)):
        for i in x:
            scribble(i, seen)
    elif isinstance(x, dict):
        for i in x.values():
            scribble(i, seen)
    elif library_object(x):
        for k in list(fm.PUBLIC.get(type(x).__name__, ())) + \
                ["values", "comp_x", "comp_y"]:
            if hasattr(x, k):
                scribble(getattr(x, k), seen)


def operations(cls):
    for lab, ab, fn in reg.reads(cls):
        yield lab, ab, fn
    for lab, method, kw in reg.variants(cls):
        def call(o, kw, method=method):
            return getattr(o, method)(inplace=False, **kw)
        yield lab + " (copy)", (lambda kw=kw: (copy.deepcopy(kw),)), call


def run1(op, o):
    """result or exception type"""
    lab, ab, fn = op
    args = ab()
    ref = fm.snap(list(args))
    try:
        r = fn(o, *args)
    except Exception as e:
        return ("error", type(e).__name__), args, ref, True
    return r, args, ref, False


def run(ck):
    for cls in reg.CLASSES:
        ops = list(operations(cls))
        for st, build in reg.states(cls):
            for op in ops:
                def one():
                    o = build()
                    ref = fm.snap(o)
                    r, args, aref, err = run1(op, o)
                    expect(fm.snap(o) == ref, "object modified")
                    expect(fm.snap(list(args)) == aref, "argument modified")
                    if err:
                        return r
                    # repetition
                    keep = norm(r)
                    r2 = run1(op, o)[0]
                    expect(norm(r2) == keep, "second call differs")
                    # sharing
                    expect(r is not o, "returns the object itself")
                    expect(not fm.shares_memory(r, o),
                           "shares data with the object")
                    expect(not fm.shares_memory(r, list(args)),
                           "shares data with an argument")
                    scribble(r)
                    expect(fm.snap(o) == ref, "object follows its result")
                    expect(fm.snap(list(args)) == aref,
                           "argument follows the result")
                    r3, args3, _, _ = run1(op, o)
                    expect(norm(r3) == keep, "call after scribbling differs")
                    scribble(o)
                    expect(norm(r3) == keep, "result follows the object")
                    return keep
                ck.case("{}|{}".format(cls, op[0]), (cls, st, op[0]), one)
        # pairs: any operation after any other gives its own result
        sts = list(reg.states(cls))
        sel = sts if ck.thorough else [s for s in sts if s[0] in
                                       ("hole", "values")][:1]
        for st, build in sel:
            base = {}
            for i, op in enumerate(ops):
                try:
                    base[i] = norm(run1(op, build())[0])
                except Exception as e:
                    base[i] = ("no result", type(e).__name__)
            for i, a in enumerate(ops):
                def pair():
                    # one object, a first, then every other operation
                    o = build()
                    run1(a, o)
                    for j, b in enumerate(ops):
                        expect(norm(run1(b, o)[0]) == base[j],
                               "result depends on earlier calls",
                               lambda: (a[0], b[0]))
                ck.case("{}|{}|then others".format(cls, a[0]), (cls, st, a[0]),
                        pair)
    setters(ck)


def setters(ck):
    """arrays given to an object stay the caller's own"""
    from IMTreatment import (ScalarField, VectorField, Profile, Points,
                             OrientedPoints)

    def mk_sf(ax, ay, v, m):
        f = ScalarField()
        f.import_from_arrays(ax, ay, v, mask=m, unit_x="m", unit_y="m",
                             unit_values="m")
        return f

    def mk_vf(ax, ay, v, m):
        f = VectorField()
        f.import_from_arrays(ax, ay, v, v + 1, mask=m)
        return f

    def given():
        return [np.array([0., 1.]), np.array([0., 1., 2.]),
                np.array([[1., 2., 3.], [4., 5., 6.]]),
                np.array([[False, True, False], [False]*3])]
    builders = {
        "scalar field": (given, mk_sf), "vector field": (given, mk_vf),
        "profile": (lambda: [np.array([0., 1., 2.]), np.array([3., 4., 5.]),
                             np.array([False, True, False])],
                    lambda x, y, m: Profile(x, y, mask=m)),
        "points": (lambda: [np.array([[0., 1.], [2., 3.]]),
                            np.array([5., 6.])], lambda x, v: Points(x, v)),
        "oriented points": (
            lambda: [np.array([[0., 1.], [2., 3.]]),
                     np.array([[[1., 0.]], [[0., 1.]]]),
                     np.array([5., 6.])],
            lambda x, o, v: OrientedPoints(x, o, v))}
    for nm, (gv, bd) in sorted(builders.items()):
        def con():
            args = gv()
            aref = fm.snap(args)
            o = bd(*args)
            ref = fm.snap(o)
            expect(fm.snap(args) == aref, "argument modified")
            scribble(args)
            expect(fm.snap(o) == ref, "object follows the given arrays")
            args = gv()
            o = bd(*args)
            scribble(o)
            expect(fm.snap(args) == aref, "given arrays follow the object")
        ck.case("constructor|" + nm, nm, con)
    st = {"scalar field": ["axe_x", "axe_y", "values", "mask"],
          "vector field": ["axe_x", "axe_y", "comp_x", "comp_y", "mask"],
          "profile": ["x", "y", "mask"], "points": ["xy", "v"],
          "oriented points": ["xy", "v", "orientations"],
          "series s": ["times", "axe_x", "axe_y"],
          "series v": ["times", "axe_x", "axe_y"]}
    for cls in sorted(st):
        build = dict(reg.states(cls))
        build = build.get("none") or build["values"]
        for at in st[cls]:
            def sett():
                o = build()
                new = np.array(getattr(o, at))
                new = ~new if new.dtype == bool else new*2.
                if at == "mask":
                    new = np.zeros(new.shape, bool)
                aref = fm.snap(new)
                setattr(o, at, new)
                ref = fm.snap(o)
                expect(fm.snap(new) == aref, "argument modified")
                scribble(new)
                expect(fm.snap(o) == ref, "object follows the given array")
                o = build()
                new = np.array(getattr(build(), at))
                if at == "mask":
                    new = np.zeros(new.shape, bool)
                aref = fm.snap(new)
                setattr(o, at, new)
                scribble(o)
                expect(fm.snap(new) == aref, "given array follows the object")
            ck.case("setter|{}|{}".format(cls, at), (cls, at), sett)
    # elements of series
    for cls in ("series s", "series v", "series of points"):
        for st_, build in reg.states(cls):
            def elem():
                ts = build()
                n = len(ts)
                k = "s" if cls[-1] == "s" and cls != "series of points" \
                    else "v"
                f = reg.points(st_ == "values") if "points" in cls else \
                    reg.field(k, "none", 9)
                aref = fm.snap(f)
                if "points" in cls:
                    ts.add_pts(f, time=50., unit_times="s")
                    el = ts.point_sets[n]
                else:
                    ts.add_field(f, time=50., unit_times="s")
                    el = ts.fields[n]
                expect(fm.snap(f) == aref, "argument modified")
                ref = fm.snap(ts)
                scribble(f)
                expect(fm.snap(ts) == ref, "series follows the added element")
            ck.case("added element|" + cls, (cls, st_), elem)
