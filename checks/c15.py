"""C15: text, MATLAB and picture files."""
import itertools
import os

import numpy as np

from mc.core import expect
from mc import fm, registry as reg
from mc.fm import U
from checks.c05 import norm
from checks.c13 import scratch
from checks.c14 import fds


def rows(m, perm=None, drop=(), nans="write"):
    """(x, y, values...) of every point, x varying first"""
    res = []
    for j in range(len(m.ay)):
        for i in range(len(m.ax)):
            if (i, j) in drop:
                continue
            vals = [float("nan") if m.mask[i, j] else float(c[i, j])
                    for c in m.comps]
            res.append([float(m.ax[i]), float(m.ay[j])] + vals)
    return res


def write(name, lines, delim="\t", header=(), cols=None, extra=0):
    """cols: place of each quantity; extra: unused leading columns"""
    with open(name, "w") as f:
        for h in header:
            f.write(h + "\n")
        for k, ln in enumerate(lines):
            n = max(cols) if cols else len(ln)
            out = ["99"]*n
            for q, c in enumerate(cols or range(1, len(ln) + 1)):
                out[c - 1] = repr(ln[q])
            f.write(delim.join(out) + "\n")


def run(ck):
    text_fields(ck)
    text_lines(ck)
    exported(ck)
    several(ck)
    matlab(ck)
    pictures(ck)
    options(ck)
    paths(ck)


def importers():
    from IMTreatment.file_operation import file_operation as fo
    return fo.import_sf_from_ascii, fo.import_vf_from_ascii


def model(kind, ax, ay, mask=None, k=0):
    return fm.mk(kind, ax, ay, mask, k=k)


def read_field(kind, name, cols, **kw):
    isf, ivf = importers()
    u = dict(unit_x=U("m"), unit_y=U("mm"), unit_values=U("m/s"))
    u.update(kw)
    if kind == "s":
        return isf(name, x_col=cols[0], y_col=cols[1], vx_col=cols[2], **u)
    return ivf(name, x_col=cols[0], y_col=cols[1], vx_col=cols[2],
               vy_col=cols[3], **u)


def text_fields(ck):
    for kind in "sv":
        nc = 3 if kind == "s" else 4
        std = list(range(1, nc + 1))
        # every order of the lines of tiny grids
        shapes = [("a2", "b2"), ("b2", "c3"), ("u3", "a2")]
        for ax, ay in shapes:
            n = len(fm.AXES[ax])*len(fm.AXES[ay])
            if n > 4 and not ck.thorough:
                perms = [p for p in itertools.permutations(range(n))
                         if sum(a != b for a, b in enumerate(p)) <= 3]
            else:
                perms = itertools.permutations(range(n))
            for p in perms:
                def order():
                    m = model(kind, ax, ay)
                    r = rows(m)
                    with scratch():
                        write("f.txt", [r[q] for q in p])
                        f = read_field(kind, "f.txt", std)
                    fm.compare(f, m)
                    return p
                ck.case("{}|order of the lines".format(kind), (ax, ay, p),
                        order)
        # structured orders: which axis first, in which direction
        for ax, ay in (("a3", "b4"), ("b4", "u3"), ("a3", "c3"),
                       ("u4", "v3"), ("a2", "a6"), ("n3", "n3")):
            for xfirst, rx, ry in itertools.product((True, False), repeat=3):
                shape = (len(fm.AXES[ax]), len(fm.AXES[ay]))
                for mask in fm.masks(shape, "single"):
                    def struct():
                        m = model(kind, ax, ay, mask)
                        r = rows(m)
                        r.sort(key=lambda a: (
                            (a[1]*(-1 if ry else 1), a[0]*(-1 if rx else 1))
                            if xfirst else
                            (a[0]*(-1 if rx else 1), a[1]*(-1 if ry else 1))))
                        with scratch():
                            write("f.txt", r)
                            f = read_field(kind, "f.txt", std)
                        fm.compare(f, m)
                        return (xfirst, rx, ry)
                    ck.case("{}|structured order".format(kind),
                            (ax, ay, xfirst, rx, ry, fm.mdesc(mask)), struct)
        # masks and missing lines
        for ax, ay in (("a2", "b2"), ("a2", "c3"), ("u3", "a3")):
            shape = (len(fm.AXES[ax]), len(fm.AXES[ay]))
            pts = list(itertools.product(range(shape[0]), range(shape[1])))
            for mask in fm.masks(shape, "all" if shape[0]*shape[1] < 7
                                 else "more"):
                for how in ("nan", "missing", "half"):
                    where = [p for p in pts if mask[p]]
                    drop = where if how == "missing" else \
                        where[::2] if how == "half" else []
                    kept = [p for p in pts if p not in drop]
                    if len({p[0] for p in kept}) < shape[0] or \
                            len({p[1] for p in kept}) < shape[1]:
                        continue

                    def holes():
                        m = model(kind, ax, ay, mask)
                        with scratch():
                            write("f.txt", rows(m, drop=drop))
                            f = read_field(kind, "f.txt", std)
                        fm.compare(f, m)
                        return how
                    ck.case("{}|masked points ({})".format(kind, how),
                            (ax, ay, fm.mdesc(mask)), holes)
        # columns, delimiters, headers
        for cols in itertools.permutations(range(1, nc + 1)):
            def columns():
                m = model(kind, "a2", "c3")
                with scratch():
                    write("f.txt", rows(m), cols=cols)
                    f = read_field(kind, "f.txt", cols)
                fm.compare(f, m)
            ck.case("{}|columns".format(kind), cols, columns)
        for cols in itertools.combinations(range(1, nc + 3), nc):
            def columns2():
                m = model(kind, "a2", "c3")
                with scratch():
                    write("f.txt", rows(m), cols=cols)
                    f = read_field(kind, "f.txt", cols)
                fm.compare(f, m)
            ck.case("{}|columns among others".format(kind), cols, columns2)
        for delim in ("\t", ",", ";", " ", "  ", " , "):
            for hd in ((), ("# x y",), ("x y z t",), ("junk", "# more"),
                       ("a", "b", "c")):
                def form():
                    m = model(kind, "b2", "a3",
                              np.array([[0, 1, 0], [0, 0, 0]], bool))
                    kw = {}
                    if delim.strip():
                        kw["delimiter"] = delim.strip()
                    sk = len([h for h in hd])
                    if hd != ("# x y",):
                        kw["skip_header"] = sk
                    with scratch():
                        write("f.txt", rows(m), delim=delim, header=hd)
                        f = read_field(kind, "f.txt", std, **kw)
                    fm.compare(f, m)
                ck.case("{}|delimiters and headers".format(kind),
                        (delim, hd), form)
        # refused
        for bad in ((0, 2, 3, 4), (1, 0, 3, 4), (1, 2, 0, 4),
                    ("1", 2, 3, 4)):
            def refuse():
                with scratch():
                    write("f.txt", rows(model(kind, "a2", "a3")))
                    try:
                        read_field(kind, "f.txt", bad)
                    except (TypeError, ValueError):
                        return
                expect(False, "bad column accepted")
            ck.case("{}|bad columns".format(kind), bad, refuse)


def text_lines(ck):
    """profiles and points"""
    from IMTreatment.file_operation import file_operation as fo
    for n in (2, 3, 4):
        for xs in itertools.combinations((-2., -.5, 0., .1, 3.), n):
            for cols in ((1, 2), (2, 1), (3, 1)):
                def prof():
                    ys = [((3*i*i) % 7)*.5 - .75 for i in range(n)]
                    with scratch():
                        write("p.txt", [[x, y] for x, y in zip(xs, ys)],
                              cols=cols)
                        p = fo.import_profile_from_ascii(
                            "p.txt", x_col=cols[0], y_col=cols[1],
                            unit_x=U("s"), unit_y=U("m"))
                    expect(list(p.x) == list(xs) and list(p.y) == ys and
                           not np.any(p.mask), "data")
                    expect(fm.same_unit(p.unit_x, U("s")) and
                           fm.same_unit(p.unit_y, U("m")), "units")
                ck.case("profile|text", (xs, cols), prof)
    base = [(0., 1., 5.), (2., -1., .1), (0., 1., 2.), (-3.5, 4., 0.)]
    for n in (2, 3, 4):
        for order in itertools.permutations(range(4), n):
            for cols in itertools.permutations((1, 2, 3)):
                for hasv in (True, False):
                    def pts():
                        r = [list(base[i]) for i in order]
                        with scratch():
                            write("p.txt", r, cols=cols)
                            p = fo.import_pts_from_ascii(
                                "p.txt", x_col=cols[0], y_col=cols[1],
                                v_col=cols[2] if hasv else None,
                                unit_x=U("m"), unit_y=U("mm"),
                                unit_v=U("s"))
                        expect(np.array_equal(p.xy, np.array(r)[:, :2]),
                               "positions")
                        if hasv:
                            expect(list(p.v) == [q[2] for q in r], "values")
                        else:
                            expect(p.v is None or len(p.v) == 0, "no values")
                        expect(len(p.copy()) == n and fm.same_unit(
                            p.unit_v, U("s")), "usable")
                    ck.case("points|text", (order, cols, hasv), pts)


def exported(ck):
    """export_to_ascii then import gives the same object"""
    from IMTreatment.file_operation import file_operation as fo
    for cls in ("scalar field", "vector field", "profile", "points"):
        for st, build in reg.states(cls):
            def trip():
                o = build()
                ref = fm.snap(o)
                with scratch():
                    fo.export_to_ascii(o, "o.txt")
                    expect(os.listdir(".") == ["o.txt"], "files")
                    expect(fm.snap(o) == ref, "exporting changes the object")
                    with open("o.txt") as f:
                        text = f.read()
                    fo.export_to_ascii(o, "o.txt")
                    with open("o.txt") as f:
                        expect(f.read() == text, "second export differs")
                    if cls == "scalar field":
                        r = fo.import_sf_from_ascii(
                            "o.txt", unit_x=o.unit_x, unit_y=o.unit_y,
                            unit_values=o.unit_values)
                    elif cls == "vector field":
                        r = fo.import_vf_from_ascii(
                            "o.txt", unit_x=o.unit_x, unit_y=o.unit_y,
                            unit_values=o.unit_values)
                    elif cls == "profile":
                        r = fo.import_profile_from_ascii(
                            "o.txt", unit_x=o.unit_x, unit_y=o.unit_y)
                    else:
                        r = fo.import_pts_from_ascii(
                            "o.txt", v_col=3 if len(o.v) else None,
                            unit_x=o.unit_x, unit_y=o.unit_y,
                            unit_v=o.unit_v)
                a, b = fm.pubdict(r), fm.pubdict(o)
                for d in (a, b):
                    d.pop("name", None)
                    if cls == "profile":
                        d["y"] = np.where(d["mask"], 0., d["y"])
                for k in ("values", "v"):
                    if k in b:
                        a[k], b[k] = np.array(a[k], float), \
                            np.array(b[k], float)
                for k in b:
                    expect(norm(a[k]) == norm(b[k]), "content: " + k,
                           lambda: (a[k], b[k]))
                return norm(b)
            ck.case("{}|export and import".format(cls), (cls, st), trip)
    # every mask of a small grid
    for kind in "sv":
        for mask in fm.masks((2, 3), "all"):
            def masked():
                m = fm.mk(kind, "b2", "c3", mask)
                with scratch():
                    fo.export_to_ascii(m.real(), "f.txt")
                    f = read_field(kind, "f.txt", [1, 2, 3, 4])
                fm.compare(f, m)
            ck.case("{}|export of masks".format(kind), fm.mdesc(mask), masked)
    # numbers survive the text
    for a in (1/3., 1e-12, 123456789.123456789, -1e20, 5e-324, 0.1 + 0.2):
        for cls in ("profile", "points", "s"):
            def digits():
                from IMTreatment import Profile, Points
                with scratch():
                    if cls == "profile":
                        fo.export_to_ascii(Profile([0., 1.], [a, 2*a]),
                                           "p.txt")
                        v = fo.import_profile_from_ascii("p.txt").y
                    elif cls == "points":
                        fo.export_to_ascii(Points([[0., 1.], [2., 3.]],
                                                  [a, 2*a]), "p.txt")
                        v = fo.import_pts_from_ascii("p.txt", v_col=3).v
                    else:
                        m = fm.M([0., 1.], [0., 1.],
                                 [np.array([[a, a], [2*a, 2*a]])], None, "m",
                                 "m", "m")
                        fo.export_to_ascii(m.real(), "p.txt")
                        v = read_field("s", "p.txt", [1, 2, 3]).values[:, 0]
                expect(list(v) == [a, 2*a], "digits lost", lambda: list(v))
            ck.case("digits|" + cls, (a, cls), digits)


def several(ck):
    """series of text files"""
    from IMTreatment.file_operation import file_operation as fo
    from IMTreatment.core import TemporalVectorFields
    names = ["f00.txt", "f01.txt", "f10.txt", "g00.txt"]
    for n in (1, 2, 3, 4):
        for created in itertools.permutations(range(n)):
            for incr, interval in ((1, None), (2, None), (1, [0, n - 1]),
                                   (1, [n - 1, n - 1])):
                for times in (None, [2., 1., 3., .5][:n]):
                    def ser():
                        ms = [fm.mk("v", "a2", "c3", k=i) for i in range(n)]
                        with scratch():
                            for i in created:
                                write(names[i], rows(ms[i]))
                            r = fo.import_vfs_from_ascii(
                                "*.txt", incr=incr, interval=interval,
                                times=[] if times is None else times,
                                unit_x=U("m"), unit_y=U("mm"),
                                unit_values=U("m/s"), unit_time=U("s"))
                        expect(isinstance(r, TemporalVectorFields), "type")
                        a, b = interval or [0, n - 1]
                        sel = list(range(a, b + 1, incr))
                        t = [float(i) if times is None else times[i]
                             for i in sel]
                        want = sorted(zip(t, sel))
                        expect([float(x) for x in r.times] ==
                               [w[0] for w in want], "times",
                               lambda: (list(r.times), want))
                        for f, w in zip(r.fields, want):
                            fm.compare(f, ms[w[1]])
                        expect(fm.same_unit(r.unit_times, U("s")),
                               "unit of times")
                        return len(sel)
                    ck.case("series of text files", (n, created, incr,
                                                     interval, times), ser)


def matlab(ck):
    from IMTreatment.file_operation import file_operation as fo
    for cls, name in (("scalar field", "ScalarField"),
                      ("vector field", "VectorField"),
                      ("profile", "Profile"), ("points", "Points")):
        sts = list(reg.states(cls))
        if cls == "points":
            def longunit():
                from IMTreatment import Points
                return Points(reg.XY[:3], [1., 2., 3.], unit_x="mm",
                              unit_y="m", unit_v="m/s**2")
            sts += [("one", lambda: reg.points(n=1)),
                    ("two", lambda: reg.points(n=2)),
                    ("one, no values", lambda: reg.points(False, n=1)),
                    ("long unit", longunit)]
        if cls == "profile":
            def two():
                from IMTreatment import Profile
                return Profile([0., 1.], [2., 3.], unit_x="m", unit_y="s")
            sts.append(("two", two))
        for st, build in sts:
            for keys in ("default", "named"):
                def trip():
                    o = build()
                    ref = fm.snap(o)
                    with scratch():
                        fo.export_to_matlab(o, "o.mat")
                        expect(fm.snap(o) == ref, "object changed")
                        expect(os.listdir(".") == ["o.mat"], "files")
                        kw = {}
                        if keys == "named":
                            kw = {"unit_x": "unit_x", "unit_y": "unit_y"}
                        r = fo.import_from_matlab("o.mat", name, **kw)
                    expect(type(r).__name__ == name, "type")
                    a, b = fm.pubdict(r), fm.pubdict(o)
                    for d in (a, b):
                        d.pop("name", None)
                        if cls == "profile":
                            d["y"] = np.where(d["mask"], 0., d["y"])
                    for k in ("values", "v"):
                        if k in b:
                            a[k], b[k] = np.array(a[k], float), \
                                np.array(b[k], float)
                    for k in b:
                        if k == "xy_scale":
                            continue
                        expect(norm(a[k]) == norm(b[k]), "content: " + k,
                               lambda: (a[k], b[k]))
                    return norm(b)
                ck.case("{}|matlab".format(cls), (cls, st, keys), trip)
    for kind in "sv":
        name = "ScalarField" if kind == "s" else "VectorField"
        for mask in fm.masks((2, 3), "all"):
            def masked():
                m = fm.mk(kind, "b2", "c3", mask)
                with scratch():
                    fo.export_to_matlab(m.real(), "f.mat")
                    f = fo.import_from_matlab("f.mat", name)
                fm.compare(f, m)
            ck.case("{}|matlab masks".format(kind), fm.mdesc(mask), masked)
    # every unit
    for u in ("", "m", "1/s", "m/s", "m**2/s", "m/s**2", "kg*m**2/s**2",
              "1/m/s", "kg/m**3/s", "m**0.5", "rad", "deg", "Pa", "1/s**2",
              "m*s*kg/K/A", "K"):
        def unit():
            from IMTreatment import Profile, Points
            with scratch():
                p = Profile([0., 1., 2.], [1., 2., 3.], unit_x=u,
                            unit_y="m")
                fo.export_to_matlab(p, "p.mat")
                q = fo.import_from_matlab("p.mat", "Profile")
                expect(fm.same_unit(q.unit_x, p.unit_x) and
                       fm.same_unit(q.unit_y, p.unit_y), "units of profile",
                       lambda: q.unit_x)
                p = Points([[0., 1.], [2., 3.]], [1., 2.], unit_v=u)
                fo.export_to_matlab(p, "p.mat")
                q = fo.import_from_matlab("p.mat", "Points")
                expect(fm.same_unit(q.unit_v, p.unit_v), "unit of points",
                       lambda: q.unit_v)
                if u == "deg":      # fields refuse units with a factor
                    return u
                for kind, nm in (("s", "ScalarField"), ("v", "VectorField")):
                    m = fm.M([0., 1.], [0., 1., 2.],
                             [np.arange(6.).reshape(2, 3)]*
                             (1 if kind == "s" else 2), None, u, "m", u)
                    fo.export_to_matlab(m.real(), "f.mat")
                    fm.compare(fo.import_from_matlab("f.mat", nm), m)
        ck.case("matlab|units", u, unit)
    # entries under other names
    keys = ["axe_x", "axe_y", "values", "mask", "unit_x", "unit_y",
            "unit_values"]
    for swap in itertools.combinations(range(len(keys)), 2):
        def other():
            import scipy.io as spio
            m = fm.mk("s", "b2", "c3", np.array([[0, 1, 0], [0, 0, 0]], bool))
            f0 = m.real()
            alias = {k: k for k in keys}
            for q in swap:
                alias[keys[q]] = "my_" + keys[q]
            dic = {"axe_x": f0.axe_x, "axe_y": f0.axe_y, "values": f0.values,
                   "mask": np.array(f0.mask), "unit_x": "m", "unit_y": "mm",
                   "unit_values": "m/s"}
            with scratch():
                spio.savemat("f.mat", {alias[k]: v for k, v in dic.items()})
                f = fo.import_from_matlab("f.mat", "ScalarField", **{
                    keys[q]: alias[keys[q]] for q in swap})
            fm.compare(f, m)
        ck.case("matlab|names of the entries", swap, other)


def pictures(ck):
    from IMTreatment.file_operation import file_operation as fo
    from IMTreatment import ScalarField, TemporalScalarFields

    def pic(v, axx=None, axy=None):
        v = np.array(v, dtype=np.uint8)
        f = ScalarField()
        f.import_from_arrays(np.arange(v.shape[0]) if axx is None else axx,
                             np.arange(v.shape[1]) if axy is None else axy,
                             v, mask=False, dtype=np.uint8)
        return f
    levels = (0, 1, 254, 255) if ck.thorough else (0, 7, 255)
    for shape in ((2, 2), (2, 3), (3, 2)):
        n = shape[0]*shape[1]
        lv = levels if n == 4 or ck.thorough else (0, 200)
        for val in itertools.product(lv, repeat=n):
            for ext in (".png", ".bmp"):
                if ext == ".bmp" and (n > 4 or not ck.thorough) and \
                        len(set(val)) < 2:
                    continue

                def trip():
                    v = np.array(val).reshape(shape)
                    with scratch():
                        f = pic(v)
                        ref = fm.snap(f)
                        fo.export_to_picture(f, "p" + ext)
                        expect(fm.snap(f) == ref, "object changed")
                        expect(os.listdir(".") == ["p" + ext], "files")
                        g = fo.import_from_picture("p" + ext, unit_x="mm",
                                                   unit_values="m/s")
                    expect(g.shape == shape, "shape", lambda: g.shape)
                    expect(np.array_equal(g.values, v), "values",
                           lambda: (g.values, v))
                    expect(not np.any(g.mask), "mask")
                    expect(fm.same_unit(g.unit_x, U("mm")) and
                           fm.same_unit(g.unit_values, U("m/s")), "units")
                    return val
                ck.case("picture|" + ext, (shape, val, ext), trip)
    for axx, axy, ok in (([0., 1.5], [2., 3., 5.], True),
                         ([0., 1.5, 2.], [2., 3., 5.], False),
                         ([0., 1.5], [2., 3.], False)):
        def axes():
            with scratch():
                fo.export_to_picture(pic([[1, 2, 3], [4, 5, 6]]), "p.png")
                try:
                    g = fo.import_from_picture("p.png", axe_x=axx, axe_y=axy)
                except ValueError:
                    expect(not ok, "good axes refused")
                    return
                expect(ok, "bad axes accepted")
                expect(list(g.axe_x) == axx and list(g.axe_y) == axy, "axes")
        ck.case("picture|axes", (axx, axy), axes)
    # series of pictures
    for n in (1, 2, 3, 11):
        for container in ("series", "list"):
            for numbers, incr in ((None, 1), (None, 2), ([0, 2], 1),
                                  ([1, n], 1), ([0, n + 5], 3)):
                if numbers and numbers[0] >= n:
                    continue

                def ser():
                    vs = [np.array([[q, 2, 3], [4, 5 + q, 255 - q]])
                          for q in range(n)]
                    if container == "series":
                        ts = TemporalScalarFields()
                        for q, v in enumerate(vs):
                            ts.add_field(pic(v), time=q*.5, unit_times="s")
                    else:
                        ts = [pic(v) for v in vs]
                    with scratch():
                        os.mkdir("d")
                        fo.export_to_pictures(ts, "d/im")
                        expect(len(os.listdir("d")) == n, "files")
                        nb = None if numbers is None else list(numbers)
                        r = fo.import_from_pictures(
                            "d/im*.png", times=[q*.5 for q in range(n)],
                            unit_times="s", fieldnumbers=nb, incr=incr)
                        if nb is not None:
                            expect(nb == numbers, "argument modified")
                    a, b = numbers or [0, n]
                    sel = list(range(a, min(b, n), incr))
                    expect(list(r.times) == [q*.5 for q in sel], "times",
                           lambda: list(r.times))
                    for f, q in zip(r.fields, sel):
                        expect(np.array_equal(f.values, vs[q]), "values",
                               lambda: (q, f.values.tolist(),
                                        vs[q].tolist()))
                    return len(sel)
                ck.case("pictures|" + container, (n, container, numbers,
                                                  incr), ser)


def options(ck):
    from IMTreatment.file_operation import file_operation as fo
    from IMTreatment import ScalarField
    import scipy.io as spio
    # pictures: every option of a series reaches every picture
    for n, axes, dt, times in itertools.product(
            (1, 3), (None, "x", "y", "xy"), (float, np.uint8, int),
            (None, "ms")):
        def pics():
            vs = [np.array([[q, 2, 3], [4, 5 + q, 255 - q]])
                  for q in range(n)]
            ax = [.5, 2.] if axes and "x" in axes else None
            ay = [-1., 0., 3.] if axes and "y" in axes else None
            with scratch():
                for q, v in enumerate(vs):
                    f = ScalarField()
                    f.import_from_arrays(range(2), range(3), v,
                                         dtype=np.uint8)
                    fo.export_to_picture(f, "p%d.png" % q)
                r = fo.import_from_pictures(
                    "p*.png", axe_x=ax, axe_y=ay, unit_x="mm", unit_y="cm",
                    unit_values="m/s", dtype=dt, unit_times="s",
                    **({} if times is None else
                       {"times": [q*.5 for q in range(n)]}))
                one = fo.import_from_picture(
                    "p0.png", axe_x=ax, axe_y=ay, unit_x="mm", unit_y="cm",
                    unit_values="m/s", dtype=dt)
                for bad in (n + 1, n - 1):
                    try:
                        fo.import_from_pictures("p*.png",
                                                times=list(range(bad)))
                    except ValueError:
                        continue
                    expect(False, "wrong number of times accepted")
            expect([float(t) for t in r.times] == [
                q*(1. if times is None else .5) for q in range(n)], "times")
            expect(fm.same_unit(r.unit_times, U("s")), "unit of times")
            for f, v in list(zip(r.fields, vs)) + [(one, vs[0])]:
                expect(np.array_equal(f.values, v), "values")
                expect(f.values.dtype == np.dtype(dt), "type of the values",
                       lambda: f.values.dtype)
                expect(list(f.axe_x) == (ax or [0, 1]) and
                       list(f.axe_y) == (ay or [0, 1, 2]), "axes",
                       lambda: (f.axe_x, f.axe_y))
                expect(fm.same_unit(f.unit_x, U("mm")) and
                       fm.same_unit(f.unit_y, U("cm")) and
                       fm.same_unit(f.unit_values, U("m/s")), "units")
        ck.case("pictures|options", (n, axes, str(dt), times), pics)
    # text: a point missing one of its components has no value
    for i, j, c in itertools.product(range(2), range(3), (0, 1)):
        def onecomp():
            m = fm.mk("v", "b2", "c3")
            r = rows(m)
            for ln in r:
                if ln[0] == m.ax[i] and ln[1] == m.ay[j]:
                    ln[2 + c] = float("nan")
            mask = np.zeros((2, 3), bool)
            mask[i, j] = True
            with scratch():
                write("f.txt", r)
                f = read_field("v", "f.txt", [1, 2, 3, 4])
            o = fm.wellformed(f)
            expect(np.array_equal(o.mask, mask), "mask",
                   lambda: o.mask.astype(int).tolist())
            for k in (0, 1):
                expect(fm.close(o.comps[k][~mask], m.comps[k][~mask]),
                       "values")
        ck.case("v|one missing component", (i, j, c), onecomp)
    # series of text files: intervals
    n = 5
    for a, b, incr, kind in itertools.product(range(n), range(n), (1, 2, 3),
                                              ("TVF", "SVF")):
        def ser():
            ms = [fm.mk("v", "a2", "c3", k=q) for q in range(n)]
            with scratch():
                for q in range(n):
                    write("f%d.txt" % q, rows(ms[q]))
                iv = [a, b]
                r = fo.import_vfs_from_ascii(
                    "f*.txt", kind=kind, incr=incr, interval=iv,
                    unit_x=U("m"), unit_y=U("mm"), unit_values=U("m/s"))
                expect(iv == [a, b], "interval modified")
            sel = list(range(min(a, b), max(a, b) + 1, incr))
            expect(len(r.fields) == len(sel), "number of fields")
            for f, q in zip(r.fields, sel):
                fm.compare(f, ms[q])
            if kind == "TVF":
                expect([float(t) for t in r.times] == [float(q) for q in
                                                       sel], "times")
        ck.case("series of text files|interval", (a, b, incr, kind), ser)
    for kw in ({"interval": [0, n]}, {"interval": [-1, 2]}, {"incr": 0},
               {"incr": 1.5}, {"interval": [1, 2, 3]}, {"times": [1., 2.]},
               {"kind": "TSF"}, {"interval": "01"}):
        def bad():
            with scratch():
                for q in range(n):
                    write("f%d.txt" % q, rows(fm.mk("v", "a2", "c3", k=q)))
                try:
                    fo.import_vfs_from_ascii("f*.txt", **kw)
                except (TypeError, ValueError):
                    return
            expect(False, "accepted")
        ck.case("series of text files|refused", str(kw), bad)
    # matlab: other classes under other names, newer files
    for hdf in (False, True):
        for names in itertools.product((False, True), repeat=4):
            def others():
                import h5py
                from IMTreatment import Profile, Points

                def store(dic):
                    if not hdf:
                        spio.savemat("f.mat", dic)
                        return
                    with h5py.File("f.mat", "w", userblock_size=512) as f:
                        for k, v in dic.items():
                            if isinstance(v, str):
                                v = np.array([[ord(c)] for c in v],
                                             np.uint16)
                            f[k] = np.array(v)
                    with open("f.mat", "r+b") as f:
                        head = b"MATLAB 7.3 MAT-file".ljust(124) + \
                            b"\x00\x02IM"
                        f.write(head)

                def keys(*ks):
                    return {k: "a_" + k if names[q % 4] else k
                            for q, k in enumerate(ks)}
                with scratch():
                    m = fm.mk("v", "b2", "c3")
                    k = keys("axe_x", "comp_x", "comp_y", "axe_y", "unit_x",
                             "unit_values", "unit_y")
                    if not hdf:     # (newer files order tables otherwise)
                        store({k["axe_x"]: m.ax, k["axe_y"]: m.ay,
                               k["comp_x"]: m.comps[0],
                               k["comp_y"]: m.comps[1],
                               k["unit_x"]: "m", k["unit_y"]: "mm",
                               k["unit_values"]: "m/s"})
                        fm.compare(fo.import_from_matlab(
                            "f.mat", "VectorField", **k), m)
                    k = keys("x", "y", "unit_x", "unit_y")
                    store({k["x"]: [0., 1., 3.], k["y"]: [5., 2., 1.],
                           k["unit_x"]: "mm", k["unit_y"]: "m/s"})
                    before = fds()
                    p = fo.import_from_matlab("f.mat", "Profile", **k)
                    expect(fds() == before, "file left open")
                    expect(list(p.x) == [0., 1., 3.] and
                           list(p.y) == [5., 2., 1.], "profile")
                    expect(fm.same_unit(p.unit_x, U("mm")) and
                           fm.same_unit(p.unit_y, U("m/s")), "units")
                    if hdf:
                        return
                    k = keys("xy", "v", "unit_v", "unit_x")
                    xy = [[0., 1.], [2., 3.], [-1., 5.]]
                    store({k["xy"]: xy, k["v"]: [1., 2., 3.],
                           k["unit_v"]: "m/s", k["unit_x"]: "cm"})
                    q = fo.import_from_matlab("f.mat", "Points", **k)
                    expect(np.array_equal(q.xy, xy) and
                           list(q.v) == [1., 2., 3.], "points")
                    expect(fm.same_unit(q.unit_v, U("m/s")) and
                           fm.same_unit(q.unit_x, U("cm")), "units")
            ck.case("matlab|other classes", (hdf, names), others)


def paths(ck):
    """files that are not there, and folders that hold some files"""
    from IMTreatment.file_operation import file_operation as fo
    import builtins

    def tree():
        os.makedirs("a/b/c")
        os.makedirs("a/d")
        for f in ("a/x.txt", "a/b/c/y.dat", "a/d/z.txt", "a/d/z.dat"):
            open(f, "w").close()
    for p, new, ok in (("a/x.txt", False, True), ("a//x.txt", False, True),
                       ("a/./d/../x.txt", False, True),
                       ("a/no.txt", False, False),
                       ("a/no.txt", True, True), ("no/x.txt", True, False),
                       ("a/b/no/c", False, False), ("a/b/no/c", True, False),
                       ("new", True, True), ("a/b", False, True),
                       ("./a/d/new.txt", True, True)):
        for ab in (False, True):
            def check():
                with scratch():
                    tree()
                    q = os.path.join(os.getcwd(), p) if ab else p
                    try:
                        r = fo.check_path(q, newfile=new)
                    except FileNotFoundError as e:
                        expect(not ok, "existing path refused")
                        # says which part is missing
                        expect("'no" in str(e), "message", lambda: str(e))
                        return
                    expect(ok, "missing path accepted")
                    expect(os.path.normpath(q) == r, "path changed",
                           lambda: r)
            ck.case("paths|check", (p, new, ab), check)
    for bad in (3, None, ["a"]):
        def refuse():
            try:
                fo.check_path(bad)
            except TypeError:
                return
            expect(False, "accepted")
        ck.case("paths|check", ("bad", str(bad)), refuse)
    for regs, want in (([r".*\.txt"], ["a", "a/d"]),
                       ([r".*\.dat"], ["a/b/c", "a/d"]),
                       ([r"x"], ["a"]), ([r"\.txt"], []),
                       ([r"q", r"y"], ["a/b/c"]),
                       ([r".*\.dat", r".*\.txt"], ["a", "a/b/c", "a/d"])):
        for ans in (None, 1, 2, 3):
            def find():
                with scratch():
                    tree()
                    asked = []

                    def answer(*a):
                        asked.append(1)
                        return ["x", "0", "9", str(ans)][len(asked) - 1]
                    old = builtins.input
                    builtins.input = answer
                    try:
                        r = fo.find_file_in_path(regs, "a",
                                                 ask=ans is not None)
                        base = fo.find_file_in_path(regs, "a")
                    finally:
                        builtins.input = old
                expect(sorted(base) == sorted(want), "folders",
                       lambda: base)
                if ans is None or len(want) < 2:
                    expect(list(r) == list(base) and not asked, "folders")
                else:
                    expect(list(r) == [base[ans - 1]], "chosen folder",
                           lambda: (r, base))
            if ans is None or ans <= max(1, len(want)):
                ck.case("paths|folders with files", (regs, ans), find)
    # what crosses the text for the critical points of a series
    for nt in (1, 2, 3):
        def crit():
            import numpy as np
            from IMTreatment import Points
            from IMTreatment.vortex_detection import CritPoints
            cp = CritPoints(unit_time="s")
            ref = {}
            for t in range(nt):
                kw = {}
                for q, k in enumerate(("foc", "foc_c", "node_i", "node_o",
                                       "sadd")):
                    n = (q + t) % 3
                    xy = [[q + .5*i, t - .25*i] for i in range(n)]
                    kw[k] = Points(xy, unit_x="m", unit_y="mm") if n else \
                        Points(unit_x="m", unit_y="mm")
                    ref[k, t*.5] = xy
                cp.add_point(time=t*.5, **kw)
            with scratch():
                fo.export_to_ascii(cp, "cp.txt")
                expect(os.listdir(".") == ["cp"], "files",
                       lambda: os.listdir("."))
                expect(len(os.listdir("cp")) == 5*nt, "number of files",
                       lambda: sorted(os.listdir("cp")))
                for (k, t), xy in ref.items():
                    name = "cp/{}_t={}[s].txt".format(k, t)
                    expect(os.path.exists(name), "name of the files",
                           lambda: sorted(os.listdir("cp")))
                    with open(name) as f:
                        got = [[float(v) for v in ln.split()][:2]
                               for ln in f if not ln.startswith("#")]
                    expect(sorted(got) == sorted(xy), "points",
                           lambda: (k, t, got, xy))
        ck.case("critical points|text", nt, crit)
