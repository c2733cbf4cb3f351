"""C13: the library's own files give back what was saved."""
import contextlib
import gc
import itertools
import os
import shutil
import tempfile

import numpy as np

from mc.core import expect
from mc import fm, registry as reg
from checks.c05 import norm


@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="vc13")
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d)


def listing(d):
    res = {}
    for root, dirs, files in os.walk(d):
        for x in dirs:
            res[os.path.relpath(os.path.join(root, x), d)] = None
        for f in files:
            with open(os.path.join(root, f), "rb") as h:
                res[os.path.relpath(os.path.join(root, f), d)] = h.read()
    return res


def target(name, compressed):
    """documented file name: the extension is added when it is missing"""
    ext = ".cimt" if compressed else ".imt"
    return name if os.path.splitext(name)[1] == ext else name + ext


NAMES = ["a", "a.imt", "a.cimt", "a.txt", "a.b.c", "sub/a", "./a", "sub/../a",
         ".hidden", "sp ace", "a.imt.cimt", "A.IMT", "ABS"]


def run(ck):
    from IMTreatment.file_operation import import_from_file, export_to_file
    everything = list(reg.everything())
    for cls, st, build in everything:
        names = NAMES if ck.thorough or st in (
            "hole", "values", "trajectories", "dict") else ["a", "sub/a.imt",
                                                            "a.cimt"]
        for name in names:
            for compressed in (True, False):
                def trip():
                    with scratch() as d:
                        os.mkdir("sub")
                        for f in ("other.imt", "b.cimt", "a.txt.old"):
                            with open(f, "wb") as h:
                                h.write(b"keep" + f.encode())
                        before = listing(d)
                        nm = os.path.join(d, "x") if name == "ABS" else name
                        rel = os.path.normpath(target(
                            "x" if name == "ABS" else name, compressed))
                        o = build()
                        ref, sref = norm(o), fm.snap(o)
                        export_to_file(o, nm, compressed=compressed)
                        expect(fm.snap(o) == sref, "saving changes the object")
                        after = listing(d)
                        new = [k for k in after if after[k] != before.get(k)
                               or k not in before]
                        expect(new == [rel], "unexpected files written",
                               lambda: (rel, new))
                        expect(all(k in after for k in before),
                               "files removed")
                        r = import_from_file(os.path.join(".", rel)
                                             if name != "ABS" else
                                             target(nm, compressed))
                        expect(type(r) is type(o), "type", lambda: type(r))
                        expect(norm(r) == ref, "content")
                        expect(fm.snap(r) == sref, "content (exact)")
                        expect(listing(d) == after, "loading changes files")
                        r2 = import_from_file(rel)
                        expect(norm(r2) == ref and
                               not fm.shares_memory(r, r2), "second load")
                        expect(gc.isenabled(), "garbage collection")
                        # overwriting a longer file
                        with open(rel, "ab") as h:
                            h.write(b"z"*5000)
                        export_to_file(o, nm, compressed=compressed)
                        expect(listing(d).keys() == after.keys(), "files")
                        with open(rel, "rb") as h:
                            expect(b"z"*5000 not in h.read(),
                                   "old content left")
                        expect(norm(import_from_file(rel)) == ref,
                               "content after overwriting")
                    return ref[0]
                ck.case("{}|round trip".format(cls),
                        (cls, st, name, compressed), trip)
    histories(ck, import_from_file, export_to_file)
    behaviour(ck, import_from_file, export_to_file)
    refused(ck, import_from_file, export_to_file)
    concatenation(ck)
    search(ck)


def histories(ck, import_from_file, export_to_file):
    """sequences of saves over a few names; the model is the mapping from
    file name to object"""
    objs = [reg.field("s", "hole"), reg.points(), reg.profile("hole")]
    refs = [norm(o) for o in objs]
    names = ["p", "p.imt", "p.cimt"]
    acts = [(i, n, c) for i in range(2 if not ck.thorough else 3)
            for n in names for c in (True, False)]
    seen = set()
    for depth in (1, 2, 3):
        for seq in itertools.product(acts, repeat=depth):
            def hist():
                with scratch():
                    model = {}
                    for i, n, c in seq:
                        export_to_file(objs[i], n, compressed=c)
                        model[target(n, c)] = i
                    expect(sorted(os.listdir(".")) == sorted(model), "files",
                           lambda: (os.listdir("."), model))
                    for f, i in model.items():
                        expect(norm(import_from_file(f)) == refs[i],
                               "content of a file", lambda: (f, seq))
                return tuple(sorted(model.items()))
            if depth == 3:
                # states already reached by a shorter history with the same
                # last write are not repeated
                key = (tuple(sorted({target(n, c): i
                                     for i, n, c in seq[:2]}.items())),
                       seq[2])
                if key in seen:
                    continue
                seen.add(key)
            ck.case("histories of saves", seq, hist)


def behaviour(ck, import_from_file, export_to_file):
    """a loaded object works like the saved one"""
    for cls in reg.CLASSES:
        sts = list(reg.states(cls))
        for st, build in (sts if ck.thorough else sts[:2]):
            with scratch():
                export_to_file(build(), "o")
                ops = [(lab, ab, fn) for lab, ab, fn in reg.reads(cls)]

                def works():
                    import checks.c05 as c05
                    for op in ops:
                        a = norm(c05.run1(op, build())[0])
                        b = norm(c05.run1(op, import_from_file("o.cimt"))[0])
                        expect(a == b, "loaded object behaves differently",
                               lambda: op[0])
                    return len(ops)
                ck.case("{}|behaviour after loading".format(cls), (cls, st),
                        works)


def refused(ck, import_from_file, export_to_file):
    """what can't be read or written is refused"""
    def bad(fn, kind):
        def one():
            with scratch() as d:
                os.mkdir("dir.imt")
                export_to_file(reg.field("s"), "a", compressed=False)
                shutil.copy("a.imt", "a.dat")
                shutil.copy("a.imt", "noext")
                ref = listing(d)
                try:
                    r = fn()
                except Exception as e:
                    expect(listing(d) == ref, "files changed")
                    expect(gc.isenabled(), "garbage collection")
                    return (kind, type(e).__name__)
                expect(False, "accepted", lambda: type(r))
        ck.case("refused|" + kind, kind, one)
    bad(lambda: import_from_file("absent.imt"), "absent file")
    bad(lambda: import_from_file("nodir/a.imt"), "absent directory")
    bad(lambda: import_from_file("a.dat"), "unknown extension")
    bad(lambda: import_from_file("noext"), "no extension")
    bad(lambda: import_from_file("dir.imt"), "directory")
    bad(lambda: import_from_file(3), "not a path")
    bad(lambda: export_to_file(reg.field("s"), "nodir/a"), "save in absent "
        "directory")
    bad(lambda: export_to_file(reg.field("s"), "a", compressed="yes"),
        "bad compression flag")
    bad(lambda: export_to_file(reg.field("s"), None), "no path")


def concatenation(ck):
    from IMTreatment.file_operation import (import_from_file, export_to_file,
                                            imts_to_imt)
    from IMTreatment.core import TemporalScalarFields, TemporalVectorFields
    names = ["f00", "f01", "f10", "g00"]
    for n in (1, 2, 3, 4):
        for order in itertools.permutations(range(n)):
            for kind in ("TSF", "TVF"):
                k = "s" if kind == "TSF" else "v"

                def cat():
                    with scratch():
                        os.mkdir("in")
                        os.mkdir("out")
                        for i in order:
                            export_to_file(reg.field(k, "hole", i),
                                           "in/" + names[i],
                                           compressed=i % 2 == 0)
                            # to be ignored
                            export_to_file(reg.profile(), "in/z%d" % i)
                            with open("in/n%d.txt" % i, "w") as f:
                                f.write("notes")
                        ref = listing("in")
                        imts_to_imt("in", "out/all", kind)
                        expect(os.listdir("out") == ["all.cimt"], "files")
                        expect(listing("in") == ref, "sources changed")
                        r = import_from_file("out/all.cimt")
                        expect(isinstance(r, TemporalScalarFields if k == "s"
                                          else TemporalVectorFields), "type")
                        expect(len(r.fields) == n, "number of fields",
                               lambda: len(r.fields))
                        got = [norm(f) for f in r.fields]
                        want = [norm(reg.field(k, "hole", i))
                                for i in range(n)]
                        expect(sorted(map(str, got)) == sorted(map(str, want)),
                               "each field once")
                        expect(got == want, "order of the fields")
                    return n
                ck.case("concatenation|" + kind, (n, order, kind), cat)


def search(ck):
    """every folder holding a matching file, once: all trees of two levels"""
    from IMTreatment.file_operation.file_operation import find_file_in_path
    contents = [(), ("m.imt",), ("o.txt",), ("o.txt", "m.imt", "n.imt")]
    shapes = ["", "A", "B", "A/C"]
    for cs in itertools.product(range(len(contents)), repeat=len(shapes)):
        for regs in ([r".*\.imt"], [r".*\.dat", r".*\.imt"]):
            def find():
                with scratch():
                    want = []
                    for s, c in zip(shapes, cs):
                        p = os.path.join("root", s) if s else "root"
                        os.makedirs(p, exist_ok=True)
                        for f in contents[c]:
                            open(os.path.join(p, f), "w").close()
                        if any(f.endswith(".imt") for f in contents[c]):
                            want.append(p)
                    got = find_file_in_path(regs, "root")
                    expect(sorted(got) == sorted(want), "folders",
                           lambda: (got, want))
                return tuple(sorted(got))
            ck.case("find_file_in_path", (cs, regs), find)
