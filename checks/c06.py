"""C06: in-place and copying variants of an operation agree."""
import copy

import numpy as np

from mc.core import expect
from mc import fm, registry as reg
from checks.c05 import norm, library_object


def pair_case(build, prefix, method, kw):
    o1, o2 = build(), build()
    for o in (o1, o2):
        for m, k in prefix:
            r = getattr(o, m)(inplace=True, **copy.deepcopy(k))
            if library_object(r):
                expect(r is o, "in-place call returns another object")
    n1 = norm(o1)
    err1 = err2 = None
    k1, k2 = copy.deepcopy(kw), copy.deepcopy(kw)
    try:
        res = getattr(o1, method)(inplace=False, **k1)
    except Exception as e:
        err1, res = type(e).__name__, None
    expect(norm(o1) == n1, "copying call modifies its object")
    try:
        r2 = getattr(o2, method)(inplace=True, **k2)
    except Exception as e:
        err2, r2 = type(e).__name__, None
    expect((err1 is None) == (err2 is None), "only one variant fails",
           lambda: (err1, err2))
    if err1 is not None:
        return ("refused", err1)
    expect(library_object(res), "copying call returns nothing",
           lambda: type(res))
    expect(res is not o1, "copying call returns its object")
    if library_object(r2):
        expect(r2 is o2, "in-place call returns another object")
    a, b = norm(res), norm(o2)
    expect(a == b, "variants differ", lambda: diff(res, o2))
    return a


def diff(a, b):
    da, db = fm.pubdict(a), fm.pubdict(b)
    return [(k, str(da[k])[:80], str(db.get(k))[:80]) for k in sorted(da)
            if norm(da[k]) != norm(db.get(k))][:3]


def run(ck):
    for cls in reg.CLASSES:
        vs = reg.variants(cls)
        for st, build in reg.states(cls):
            for lab, method, kw in vs:
                ck.case("{}|{}".format(cls, lab), (cls, st, lab),
                        lambda: pair_case(build, [], method, kw))
        # after any other in-place operation
        sts = list(reg.states(cls))
        sel = sts if ck.thorough else [
            s for s in sts if s[0] in ("hole", "values")][:1]
        for st, build in sel:
            for l0, m0, k0 in vs:
                try:
                    o = build()
                    getattr(o, m0)(inplace=True, **copy.deepcopy(k0))
                except Exception:
                    continue
                for lab, method, kw in vs:
                    ck.case("{}|{}|after".format(cls, lab),
                            (cls, st, l0, lab),
                            lambda: pair_case(build, [(m0, k0)], method, kw))
