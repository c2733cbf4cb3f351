"""C23: collections of files.

Deletions are only executed inside a scratch directory of the check: os.remove
and friends are replaced by functions that refuse everything else.
"""
import builtins
import contextlib
import io
import itertools
import os
import re
import shutil

import numpy as np

from mc.core import expect
from checks.c13 import scratch


class Guard(object):
    """Deletions are watched: those under `root` (a scratch directory of the
    check) are really done, any other is recorded and never executed.  The
    watchers are put in place before the module under test is imported, so
    that it cannot hold the real functions under another name."""
    NAMES = (("os", "remove"), ("os", "unlink"), ("os", "rmdir"),
             ("shutil", "rmtree"))
    REFUSED = (("os", "removedirs"), ("os", "rename"), ("os", "renames"),
               ("os", "replace"), ("os", "truncate"), ("os", "system"),
               ("shutil", "move"))
    active = None
    inside = False
    done = False

    @classmethod
    def install(cls):
        if cls.done:
            return
        cls.done = True
        mods = {"os": os, "shutil": shutil}
        for m, n in cls.NAMES + cls.REFUSED:
            setattr(mods[m], n, cls.wrap(m + "." + n,
                                         getattr(mods[m], n),
                                         (m, n) in cls.REFUSED))
        real = builtins.input

        def inp(*a):
            g = cls.active
            if g is None:
                return real(*a)
            g.asked += 1
            if not g.answers:
                raise AssertionError("asked once more")
            return g.answers.pop(0)
        builtins.input = inp

    @classmethod
    def wrap(cls, name, real, refuse):
        def fn(p, *a, **k):
            g = cls.active
            if g is None or cls.inside:
                return real(p, *a, **k)
            q = os.path.normpath(os.path.abspath(os.fspath(p)))
            g.calls.append((name, q))
            if refuse or k.get("dir_fd") is not None or not (
                    q.startswith(g.root + os.sep)):
                g.escaped.append((name, q))
                raise PermissionError("%s %s refused by the guard"
                                      % (name, q))
            cls.inside = True
            try:
                return real(p, *a, **k)
            finally:
                cls.inside = False
        fn.__name__ = name.split(".")[1]
        return fn

    def __init__(self, root, answers):
        self.root = root
        self.calls = []
        self.escaped = []
        self.answers = list(answers)
        self.asked = 0

    def __enter__(self):
        Guard.active = self
        return self

    def __exit__(self, *a):
        Guard.active = None


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


# -- trees -------------------------------------------------------------------

DIRS = ["", "d1", "d1/e", "d2"]
NAMES = ["a.txt", "b.dat"]


def make(root, content):
    """content: {relative directory: names of files}"""
    for d, names in content.items():
        p = os.path.join(root, d) if d else root
        os.makedirs(p, exist_ok=True)
        for n in names:
            with open(os.path.join(p, n), "w") as f:
                f.write(d + n)


def entries(root, content):
    """[(path, isdir, level of the directory that holds it)]"""
    out = []
    for d in content:
        if d:
            out.append((os.path.join(root, d), True, d.count("/")))
        for n in content[d]:
            out.append((os.path.join(root, d, n) if d
                        else os.path.join(root, n), False,
                        d.count("/") + 1 if d else 0))
    return out


def listing(root):
    out = []
    for r, ds, fs in os.walk(root):
        out += [(os.path.join(r, d), None) for d in ds]
        for f in fs:
            with open(os.path.join(r, f)) as h:
                out.append((os.path.join(r, f), h.read()))
    return sorted(out)


def trees(ck):
    subs = [(), ("a.txt",), ("b.dat",), ("a.txt", "b.dat")]
    for present in ([""], ["", "d1"], ["", "d2"], ["", "d1", "d2"],
                    ["", "d1", "d1/e"], DIRS):
        for c in itertools.product(subs, repeat=len(present)):
            if not ck.thorough and len(present) == 4 and len(c[0]) == 2:
                continue
            yield dict(zip(present, c))


def run(ck):
    import importlib
    import IMTreatment.utils.files
    Guard.install()
    importlib.reload(IMTreatment.utils.files)
    loading(ck)
    operations(ck)
    deletion(ck)
    in_dirs(ck)


def loading(ck):
    from IMTreatment.utils.files import Files
    regs = [".*", r".*\.txt", r".*d1.*", r".*e$", r".*d1$", "a", "d1",
            "nothing"]
    for n, content in enumerate(trees(ck)):
        with scratch() as root:
            root = os.path.join(root, "top")
            make(root, content)
            al = entries(root, content)
            before = listing(root)
            for rg, depth, (lf, ld), slash in itertools.product(
                    regs, ("all", 0, 1, 2), ((True, True), (True, False),
                                             (False, True)), ("", "/")):
                if slash and rg != ".*":
                    continue

                def fn():
                    f = Files()
                    f.load_files_from_regex(root + slash, rg, load_files=lf,
                                            load_dirs=ld, depth=depth)
                    want = sorted((p, d) for p, d, lv in al
                                  if re.match(rg, p)
                                  and (ld if d else lf)
                                  and (depth == "all" or max(lv - 1, 0)
                                       <= depth))
                    got = sorted(zip(f.paths, f.isdir))
                    expect(got == want, "loaded files",
                           lambda: ([(p[len(root):], d) for p, d in got],
                                    [(p[len(root):], d) for p, d in want]))
                    expect(list(f.exist) == [True]*len(want), "exist",
                           lambda: f.exist)
                    g = Files()
                    g.load_files_from_regex(root, rg, load_files=lf,
                                            load_dirs=ld, depth=depth)
                    expect(g.paths == f.paths, "order changes",
                           lambda: (f.paths, g.paths))
                    return len(want)
                ck.case("load|%s" % ("all" if depth == "all" else "depth"),
                        "%s: %s depth %s files %s dirs %s%s" % (
                            content, rg, depth, lf, ld, slash), fn,
                        state=("load", n, rg, depth, lf, ld, slash))

            def fn():
                expect(listing(root) == before, "files modified")
                f = Files()
                f.load_files_from_regex(root, ".*")
                with quiet():
                    txt = f.get_tree_representation()
                for p, d, lv in al:
                    nm = os.path.basename(p)
                    k = sum(os.path.basename(q) == nm for q, _, _ in al)
                    expect(len(re.findall(re.escape(nm) + r"\b", txt))
                           >= k, "tree representation", lambda: (nm, txt))
                repr(f)
                expect(listing(root) == before, "files modified")
            ck.case("tree", "%s" % content, fn, state=("tree", n))


def operations(ck):
    from IMTreatment.utils.files import Files
    with scratch() as root:
        root = os.path.join(root, "top")
        content = {"": ("a.txt", "b.dat"), "d1": ("a.txt",), "d2": ()}
        make(root, content)
        before = listing(root)
        P = [os.path.join(root, x) for x in (
            "a.txt", "b.dat", "d1", "new.txt", "d1/a.txt")]

        def state(f):
            return list(zip(f.paths, f.exist, f.isdir))

        def ent(p):
            return (p, os.path.exists(p),
                    os.path.isdir(p) if os.path.exists(p) else None)

        ops = []
        for p in P:
            def op(f, m, p=p):
                f.add_file(p)
                m.append(ent(p))
                return f
            ops.append(("add " + p[len(root):], op))

        def op(f, m):
            f.add_file(root + "/d1/../a.txt")
            m.append(ent(P[0]))
            return f
        ops.append(("add unnormalized", op))

        def op(f, m):
            try:
                f.add_file(os.path.join(root, "absent", "x.txt"))
            except Exception:
                return f
            expect(False, "file of an absent directory accepted")
        ops.append(("add impossible", op))

        def op(f, m):
            g = Files()
            g.load_files_from_regex(root, r".*\.txt")
            f.load_files_from_regex(root, r".*\.txt")
            m.extend(state(g))
            return f
        ops.append(("load", op))
        for idx in (0, 1, -1, [0, 1], [1, 0], [0, 2], [2, 0, 1],
                    np.array([0, 2])):
            def op(f, m, idx=idx):
                ids = [idx] if isinstance(idx, int) else [int(i)
                                                          for i in idx]
                if max(ids) >= len(m) or min(ids) < -len(m):
                    b = state(f)
                    try:
                        f.remove_files(idx)
                    except Exception:
                        expect(state(f) == b, "changed by a refused call",
                               lambda: (b, state(f)))
                        return f
                    expect(False, "absent file removed")
                f.remove_files(idx)
                ids = {i % len(m) for i in ids}
                m[:] = [e for i, e in enumerate(m) if i not in ids]
                return f
            ops.append(("remove %s" % (idx,), op))
        for rg in (r".*\.txt", ".*d1.*", "zzz", "b", "d1", r"\.txt", [r".*\.dat", ".*new.*"],
                   [r".*d1.*", 0]):
            def op(f, m, rg=rg):
                lst = rg if isinstance(rg, list) else [rg]
                if 0 in lst and not m:
                    return f
                with quiet():
                    f.remove_files(rg)
                drop = {i for i, e in enumerate(m) for r in lst
                        if (r == i if isinstance(r, int)
                            else re.match(r, e[0]))}
                m[:] = [e for i, e in enumerate(m) if i not in drop]
                return f
            ops.append(("remove %s" % (rg,), op))

        def op(f, m):
            g = Files()
            g.add_file(P[2])
            s, t = state(f), state(g)
            r = f + g
            expect(state(f) == s and state(g) == t, "operands modified")
            m.append(ent(P[2]))
            r2 = f + g
            r2.add_file(P[0])
            expect(state(f) == s and state(g) == t, "sum shares data")
            return r
        ops.append(("plus", op))

        def op(f, m):
            g = f.copy()
            s = state(f)
            g.add_file(P[1])
            expect(state(f) == s, "copy shares data")
            return f.copy()
        ops.append(("copy", op))

        def op(f, m):
            for bad in (1.5, None, {}):
                try:
                    f.remove_files(bad)
                except TypeError:
                    continue
                expect(False, "wrong argument accepted")
            return f
        ops.append(("remove wrong", op))
        depth = 4 if ck.thorough else 3
        for n in range(1, depth + 1):
            for seq in itertools.product(range(len(ops)), repeat=n):
                names = [ops[k][0] for k in seq]
                if n >= 3 and not all(x.split()[0] in ("add", "load", "plus")
                                      for x in names[:n - 2]):
                    continue

                def fn():
                    f, m = Files(), []
                    for k in seq:
                        f = ops[k][1](f, m)
                        expect(state(f) == m, "content",
                               lambda: ([(p[len(root):], e, d)
                                         for p, e, d in state(f)],
                                        [(p[len(root):], e, d)
                                         for p, e, d in m]))
                ck.case("ops|%s" % names[-1], "%s" % names, fn,
                        state=("ops", seq))

        def fn():
            expect(listing(root) == before, "files modified")
        ck.case("untouched", "files after the operations", fn,
                state=("untouched",))


def deletion(ck):
    from IMTreatment.utils.files import Files
    content = {"": ("a.txt", "b.dat"), "d1": ("a.txt",), "d1/e": ("c.x",),
               "d2": (), "d3": ("k.x",)}
    names = ("a.txt", "d1/a.txt", "d1", "d1/e", "d1/e/c.x", "d2", "new.txt",
             "d3")
    with scratch() as base:
        for n in range(0, len(names) + 1):
            for sel, order, recursive, ans, more in itertools.product(
                    itertools.combinations(names, n), (1, -1),
                    (False, True), ("o", "n", "what"), ("n", "o")):
                if (recursive or ans == "n") and more == "o":
                    continue
                if n < 2 and order == -1:
                    continue
                if n == 2:
                    twice = sel + sel[::order]
                    ck.case("delete|twice",
                            "%s recursive=%s answers %s then %s" % (
                                twice, recursive, ans, more),
                            lambda: delete(Files, base, content, twice,
                                           recursive, ans, more),
                            state=("twice", twice, recursive, ans, more))
                ck.case("delete|%s" % ("recursive" if recursive else "plain"),
                        "%s recursive=%s answers %s then %s" % (
                            sel[::order], recursive, ans, more),
                        lambda: delete(Files, base, content, sel[::order],
                                       recursive, ans, more),
                        state=("delete", sel, order, recursive, ans, more))


@contextlib.contextmanager
def tree(base, content):
    """a directory with the content; what is beside it must stay"""
    root = os.path.join(base, "top")
    other = os.path.join(base, "topother")
    make(root, content)
    make(other, {"": ("a.txt",), "d1": ("a.txt",)})
    try:
        was = listing(other)
        yield root
        expect(listing(other) == was, "files elsewhere touched")
    finally:
        shutil.rmtree(root, ignore_errors=True)
        shutil.rmtree(other, ignore_errors=True)


def delete(Files, base, content, sel, recursive, ans, more):
    with tree(base, content) as root:
        before = listing(root)
        sel = [os.path.join(root, p) for p in sel]
        f = Files()
        for p in sel:
            f.add_file(p)
        dirs = [p for p in sel if os.path.isdir(p)]
        isfile = [p for p in sel if os.path.isfile(p)]
        first = ["?", "y"] if ans == "what" else [ans]
        with Guard(root, first + [more]*20) as g, quiet():
            f.delete_existing_files(recursive=recursive)
        after = listing(root)
        rel = [(k, p[len(root):]) for k, p in g.calls]
        expect(not g.escaped, "deletion elsewhere", lambda: g.escaped)
        expect(list(f.paths) == sel, "paths", lambda: f.paths)
        left = {p for p, _ in after}
        expect(set(after) <= set(before), "content changed")
        expect([bool(e) for e in f.exist] == [p in left for p in sel],
               "existence flags", lambda: (f.exist, rel))
        if ans == "n":
            expect(after == before, "deletion refused", lambda: rel)
            return 0
        for p, _ in before:
            inside = any(p == d or p.startswith(d + os.sep) for d in dirs)
            if p not in left:
                expect(p in sel or inside and (recursive or more == "o"),
                       "file that was not asked for deleted",
                       lambda: (p[len(root):], rel))
            elif p in isfile:
                expect(False, "file not deleted",
                       lambda: (p[len(root):], rel))
            elif p in dirs:
                # a directory stays only if not empty and not confirmed
                expect(not recursive and more == "n",
                       "directory not deleted", lambda: (p[len(root):], rel))
                expect(any(q.startswith(p + os.sep) for q in left),
                       "empty directory not deleted",
                       lambda: (p[len(root):], rel))
        return len(before) - len(left)


def in_dirs(ck):
    from IMTreatment.utils.files import remove_files_in_dirs
    import warnings
    regs = [".*", ".*d1$", ".*d1.*", ".*d2", "none"]
    fregs = [".*", r".*\.txt", "b", "none"]

    def one(base, content, dr, fr, ans):
        with tree(base, content) as root:
            before = listing(root)
            want = sorted(os.path.join(root, d, f) if d
                          else os.path.join(root, f)
                          for d in content for f in content[d]
                          if re.match(dr, os.path.join(root, d) if d
                                      else root) and re.match(fr, f))
            with Guard(root, [ans]) as g, quiet(), \
                    warnings.catch_warnings():
                warnings.simplefilter("ignore")
                remove_files_in_dirs(root, dr, fr)
            after = listing(root)
            expect(not g.escaped, "deletion elsewhere", lambda: g.escaped)
            expect(set(after) <= set(before), "content changed")
            got = sorted(p for p, c in set(before) - set(after))
            expect(got == (want if ans == "o" else []),
                   "deleted files", lambda: (got, want))
            return len(got)
    with scratch() as base:
        for n, content in enumerate(trees(ck)):
            if len(content) < 3 or n % 5 and not ck.thorough:
                continue
            for dr, fr, ans in itertools.product(regs, fregs, ("o", "n")):
                ck.case("in dirs", "%s: %s %s %s" % (content, dr, fr, ans),
                        lambda: one(base, content, dr, fr, ans),
                        state=("indirs", n, dr, fr, ans))
