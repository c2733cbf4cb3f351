"""C24: memoized functions: histories of calls, restarts and crashes."""
import gc
import itertools
import os
import resource

import numpy as np

from mc.core import expect
from mc.fm import snap
from checks.c13 import scratch
from checks.c14 import fds

LEVEL = "model_checking"


class World(object):
    """a memoized function, the file and what was computed"""

    def __init__(self, nargs):
        from IMTreatment.utils.memoization import memoize_to_file
        self.memo = memoize_to_file
        self.calls = []

    def start(self):
        calls = self.calls

        @self.memo("cache.gz")
        def f(*a, **k):
            calls.append((a, tuple(sorted(k.items()))))
            return value(a, k)
        self.f = f


def value(a, k):
    if a and isinstance(a[0], np.ndarray):
        return [float(np.sum(a[0]))]
    if a and isinstance(a[0], str) and a[0] in FALSY:
        return FALSY[a[0]]
    return [("r",) + tuple(a) + tuple(sorted(k.items()))]


FALSY = {"None": None, "zero": 0, "False": False, "empty": [], "nan": np.nan,
         "array": np.zeros(3), "two": np.array([1., 2.]), "dict": {}}


def big(k):
    """arrays that only differ in the middle"""
    a = np.zeros(3000)
    a[1500] = k
    return a


ARGS = [((1,), {}), ((2,), {}), ((1,), {"k": 2}), ((), {"k": 2}),
        ((1., ), {}), (("1",), {}), ((1, 2), {}), ((2, 1), {}), ((), {}),
        (((1, 2),), {}), ((None,), {}), ((np.arange(3),), {}),
        ((np.arange(3) + 1,), {}), ((), {"k": 3}), ((1,), {"k": 3}),
        ((1,), {"l": 2}), ((1,), {"k": 2, "l": 2}), ((1,), {"k": 3, "l": 2}),
        ((1,), {"k": 2, "l": 3}), ((big(1),), {}), ((big(2),), {}),
        ((1.0000000001,), {}), ((True,), {}), (([1, 2],), {}),
        (("1, 2",), {}), (({"a": 1},), {}), (({"a": 2},), {})] \
    + [((n,), {}) for n in sorted(FALSY)]


def run(ck):
    acts = [("call", i) for i in range(4)] + [("restart",), ("crash",),
                                              ("lost",), ("full",)]
    depth = 6 if ck.thorough else 4
    for d in range(1, depth + 1):
        for seq in itertools.product(acts, repeat=d):
            if seq[-1][0] != "call":
                continue
            ck.case("histories", seq, lambda: history(seq))
    # every pair of argument lists
    for i, j in itertools.product(range(len(ARGS)), repeat=2):
        ck.case("arguments", (i, j), lambda: history(
            [("call", i), ("call", j), ("restart",), ("call", i),
             ("call", j)]))
    # a cache file truncated at every byte
    with scratch():
        w = World(0)
        w.start()
        for a, k in ARGS[:6]:
            w.f(*a, **k)
        with open("cache.gz", "rb") as h:
            data = h.read()
    for n in range(len(data)):
        def trunc():
            with scratch():
                with open("cache.gz", "wb") as h:
                    h.write(data[:n])
                w = World(0)
                nf = fds()
                w.start()
                for a, k in ARGS[:3]:
                    expect(snap(w.f(*a, **k)) == snap(value(a, k)), "value")
                expect(gc.isenabled(), "garbage collection state")
                w.start()
                nc = len(w.calls)
                for a, k in ARGS[:3]:
                    expect(snap(w.f(*a, **k)) == snap(value(a, k)), "value")
                expect(len(w.calls) == nc, "not remembered")
                return nc
        ck.case("truncated cache", n, trunc)
    # many different arguments
    def many():
        with scratch():
            w = World(0)
            w.start()
            N = 1500 if ck.thorough else 700
            for k in range(N):
                expect(w.f(k, k*1.5) == value((k, k*1.5), {}), "value",
                       lambda: k)
            expect(len(w.calls) == N, "not computed",
                   lambda: len(w.calls))
            w.start()
            for k in range(0, N, 7):
                expect(w.f(k, k*1.5) == value((k, k*1.5), {}), "value",
                       lambda: k)
            expect(len(w.calls) == N, "computed again")
            return N
    ck.case("many arguments", "one after the other", many)
    programs(ck)
    # functions that fail
    for times in (1, 2, 3):
        def failing():
            with scratch():
                from IMTreatment.utils.memoization import memoize_to_file
                left = [times]

                @memoize_to_file("cache.gz")
                def f(x):
                    if left[0]:
                        left[0] -= 1
                        raise RuntimeError("no")
                    return x + 1
                for _ in range(times):
                    try:
                        f(1)
                    except RuntimeError:
                        pass
                    else:
                        expect(False, "error swallowed")
                    expect(gc.isenabled(), "garbage collection state")
                expect(f(1) == 2 and f(1) == 2, "value after errors")
        ck.case("failing function", times, failing)


PROGRAM = """
import sys, pickle
sys.path[:0] = %r
from checks.c24 import World, ARGS, value
from mc.fm import snap
w = World(0)
w.start()
for i in %r:
    a, k = ARGS[i]
    assert snap(w.f(*a, **k)) == snap(value(a, k)), "value"
print(len(w.calls))
"""


def programs(ck):
    """the same cache used by programs run one after the other"""
    import subprocess
    import sys
    for first, second in (((0, 1, 2), (2, 1, 0)), ((11, 12), (11, 12)),
                          ((4, 5, 13), (13, 14, 5)), ((25, 26), (26, 27))):
        def fn():
            with scratch():
                seen = set()
                for n, args in enumerate((first, second, first)):
                    e = dict(os.environ, PYTHONHASHSEED=str(n + 1))
                    p = subprocess.run(
                        [sys.executable, "-W", "ignore", "-c", PROGRAM % (
                            sys.path, args)], env=e, stdout=subprocess.PIPE,
                        stderr=subprocess.PIPE)
                    err = p.stderr.decode()[-300:]
                    expect(p.returncode == 0 or "AssertionError" not in err,
                           "value in another program", lambda: err)
                    expect(p.returncode == 0, "program failed", lambda: err)
                    calls = int(p.stdout.decode().split()[-1])
                    expect(calls == len(set(args) - seen),
                           "computed again by another program",
                           lambda: (n, calls))
                    seen |= set(args)
        ck.case("programs", "%s then %s" % (first, second), fn)


def history(seq):
    with scratch():
        w = World(0)
        w.start()
        known = set()       # argument lists in the memory of the function
        saved = set()       # in the file, None when the file is damaged
        for act in seq:
            if act[0] == "call":
                a, k = ARGS[act[1]]
                n = len(w.calls)
                nf = fds()
                r = w.f(*a, **k)
                expect(snap(r) == snap(value(a, k)), "value",
                       lambda: (act, r))
                # equal arguments of equal type only
                new = len(w.calls) - n
                if act[1] in known:
                    expect(new == 0, "computed again", lambda: act)
                else:
                    expect(new == 1, "not computed", lambda: act)
                    saved = set(known) | {act[1]}
                known.add(act[1])
                expect(gc.isenabled(), "garbage collection state")
                expect(fds() <= nf, "files left open")
            elif act[0] == "restart":
                w.start()
                known = set(saved)
            elif act[0] == "crash":
                # stopped while the file was written
                if os.path.exists("cache.gz"):
                    n = os.path.getsize("cache.gz")
                    with open("cache.gz", "r+b") as h:
                        h.truncate(n//2)
                w.start()
                saved = set()
                known = set()
            elif act[0] == "full":
                # the disk is full during one call
                n = len(w.calls)
                soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
                resource.setrlimit(resource.RLIMIT_FSIZE, (5, hard))
                try:
                    r = w.f(9)
                except OSError:
                    pass
                else:
                    expect(snap(r) == snap(value((9,), {})), "value")
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                expect(gc.isenabled(), "garbage collection state")
                if len(w.calls) != n:
                    saved = set()
            else:
                if os.path.exists("cache.gz"):
                    os.remove("cache.gz")
                w.start()
                saved = set()
                known = set()
        return (len(w.calls), len(known))
