"""C14: truncated files, failing writes and unwritable objects."""
import gc
import os
import resource
import shutil

import numpy as np

from mc.core import expect
from mc import fm, registry as reg
from checks.c05 import norm
from checks.c13 import scratch

LEVEL = "fault_enumeration"


def fds():
    return len(os.listdir("/proc/self/fd"))


class Bad(object):
    """can't be pickled"""
    def __reduce__(self):
        raise RuntimeError("not this one")


def usable(export_to_file, import_from_file, compressed):
    """a save and a load that must work after any fault"""
    o = reg.field("v", "hole")
    export_to_file(o, "later", compressed=compressed)
    r = import_from_file("later.cimt" if compressed else "later.imt")
    expect(norm(r) == norm(o), "later save and load differ")


def clean(gcstate, nfd, what):
    expect(gc.isenabled() == gcstate, "garbage collection state",
           lambda: (what, gcstate, gc.isenabled()))
    expect(fds() <= nfd, "files left open", lambda: (what, nfd, fds()))


def small():
    """one small object of each class, so that every byte can be tried"""
    yield "scalar field", lambda: fm.mk("s", "a2", "b2",
                                        np.array([[0, 1], [0, 0]])).real()
    yield "vector field", lambda: fm.mk("v", "a2", "a3").real()
    yield "profile", lambda: reg.profile("hole")
    yield "points", lambda: reg.points(n=3)
    yield "oriented points", lambda: reg.points(ori=True, n=2)
    yield "series s", lambda: reg.series("s", "hole", 2)
    yield "series v", lambda: reg.series("v", "none", 2)
    yield "series of points", lambda: reg.tpoints()
    yield "critical points", lambda: reg.critpoints(True, 2)
    yield "vortex system", reg.vortices
    yield "plain", lambda: {"a": [1, 2.5, "x"], "b": np.arange(3.)}


def run(ck):
    from IMTreatment.file_operation import import_from_file, export_to_file
    for cls, build in small():
        for compressed in (True, False):
            f = "o.cimt" if compressed else "o.imt"
            with scratch():
                export_to_file(build(), "o", compressed=compressed)
                with open(f, "rb") as h:
                    data = h.read()
                full = norm(build())
                step = 1 if ck.thorough or len(data) < 2500 else 3
                ck.extra.setdefault("file sizes", {})[cls + " " + f] = \
                    len(data)
                # every truncation
                for k in range(0, len(data), step):
                    def trunc():
                        with open(f, "wb") as h:
                            h.write(data[:k])
                        for gcs in (True, False):
                            (gc.enable if gcs else gc.disable)()
                            n = fds()
                            try:
                                try:
                                    r = import_from_file(f)
                                except Exception as e:
                                    out = type(e).__name__
                                else:
                                    out = "loaded"
                                    expect(norm(r) == full,
                                           "partial object loaded",
                                           lambda: norm(r))
                                    del r
                                clean(gcs, n, "load")
                            finally:
                                gc.enable()
                        with open(f, "rb") as h:
                            expect(h.read() == data[:k], "file changed")
                        return out
                    ck.case("truncated file|{}".format(cls), (cls, f, k),
                            trunc)
                with open(f, "wb") as h:
                    h.write(data)
                ck.case("after the faults|{}".format(cls), (cls, f),
                        lambda: (expect(norm(import_from_file(f)) == full,
                                        "later load differs"),
                                 usable(export_to_file, import_from_file,
                                        compressed))[0])
                # every limit on the size of the file written
                o = build()
                sref = fm.snap(o)
                wstep = step*(1 if ck.thorough else 5)
                for k in range(0, len(data), wstep):
                    def limit():
                        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
                        if os.path.exists(f):
                            os.remove(f)
                        for gcs in (True, False):
                            (gc.enable if gcs else gc.disable)()
                            n = fds()
                            resource.setrlimit(resource.RLIMIT_FSIZE,
                                               (k, hard))
                            try:
                                try:
                                    export_to_file(o, "o",
                                                   compressed=compressed)
                                except Exception as e:
                                    out = type(e).__name__
                                    del e
                                else:
                                    out = "saved"
                                resource.setrlimit(resource.RLIMIT_FSIZE,
                                                   (soft, hard))
                                expect(out != "saved" or os.path.getsize(
                                    f) <= k and norm(import_from_file(f)) ==
                                    full, "failed save not reported")
                                clean(gcs, n, "save")
                            finally:
                                resource.setrlimit(resource.RLIMIT_FSIZE,
                                                   (soft, hard))
                                gc.enable()
                        expect(fm.snap(o) == sref, "object changed")
                        try:
                            r = import_from_file(f)
                        except Exception as e:
                            return (out, type(e).__name__)
                        expect(norm(r) == full, "partial object loaded")
                        return (out, "complete")
                    ck.case("failing write|{}".format(cls), (cls, f, k),
                            limit)
                ck.case("after the faults|{}".format(cls), (cls, f, 2),
                        lambda: usable(export_to_file, import_from_file,
                                       compressed))
    # objects that can't be saved
    n = 6 if not ck.thorough else 12
    for i in range(n):
        for compressed in (True, False):
            for old in (None, "intact", "other"):
                def unsavable():
                    f = "o.cimt" if compressed else "o.imt"
                    with scratch():
                        lst = [reg.field("s", "hole", q) for q in range(n)]
                        lst[i] = Bad()
                        if old is not None:
                            export_to_file(reg.points(), "o" if old ==
                                           "intact" else "p",
                                           compressed=compressed)
                        for gcs in (True, False):
                            (gc.enable if gcs else gc.disable)()
                            nf = fds()
                            try:
                                try:
                                    export_to_file(lst, "o",
                                                   compressed=compressed)
                                except Exception as e:
                                    out = type(e).__name__
                                    del e
                                else:
                                    out = "saved"
                                expect(out != "saved",
                                       "failed save not reported")
                                clean(gcs, nf, "save")
                            finally:
                                gc.enable()
                        if old == "other":
                            expect(norm(import_from_file(
                                "p" + f[1:])) == norm(reg.points()),
                                "another file damaged")
                        try:
                            r = import_from_file(f)
                        except Exception:
                            pass
                        else:
                            expect(old == "intact" and norm(r) ==
                                   norm(reg.points()), "partial object "
                                   "loaded", lambda: type(r))
                        usable(export_to_file, import_from_file, compressed)
                    return out
                ck.case("object that can't be saved", (i, compressed, old),
                        unsavable)
    # wrong contents
    junk = {"empty": b"", "text": b"hello\n", "zeros": b"\0"*64,
            "gzip of text": __import__("gzip").compress(b"hello"),
            "gzip of nothing": __import__("gzip").compress(b""),
            "newline": b"\n"}
    for nm in sorted(junk):
        for ext in (".imt", ".cimt"):
            def wrong():
                with scratch():
                    with open("j" + ext, "wb") as h:
                        h.write(junk[nm])
                    nf = fds()
                    try:
                        r = import_from_file("j" + ext)
                    except Exception as e:
                        out = type(e).__name__
                        del e
                    else:
                        expect(False, "junk loaded", lambda: r)
                    clean(True, nf, "load")
                    usable(export_to_file, import_from_file, ext == ".cimt")
                return out
            ck.case("junk file|" + nm, (nm, ext), wrong)
    # compressed content under the other extension and conversely
    for cls, build in small():
        for compressed in (True, False):
            def swapped():
                with scratch():
                    export_to_file(build(), "o", compressed=compressed)
                    a, b = ("o.cimt", "o.imt") if compressed else \
                        ("o.imt", "o.cimt")
                    shutil.move(a, b)
                    try:
                        r = import_from_file(b)
                    except Exception as e:
                        out = type(e).__name__
                    else:
                        expect(norm(r) == norm(build()), "wrong object")
                        out = "loaded"
                    expect(gc.isenabled(), "garbage collection state")
                return out
            ck.case("other extension|" + cls, (cls, compressed), swapped)
