"""C29: two objects are equal exactly when they describe the same data."""
import itertools

import numpy as np

from mc.core import Mismatch, expect
from mc import fm
from mc.fm import U, NAN
from mc.series import S


def key_field(m):
    return (tuple(m.ax), tuple(m.ay), tuple(map(tuple, m.mask)),
            tuple(tuple(np.where(m.mask, 0, c).ravel()) for c in m.comps),
            fm.ustr(m.ux), fm.ustr(m.uy), fm.ustr(m.uv))


def bit(shape, *pos):
    k = np.zeros(shape, bool)
    for p in pos:
        k[p] = True
    return k


def fields(kind, ck):
    """(label, model, hidden) of fields that differ by one thing"""
    base = ([0., 1.], [0., 1., 3.])
    axes = [base, ([0., 1., 3.], [0., 1.]), ([0., 1.], [0., 1.]),
            ([0., 2.], [0., 1., 3.]), ([0., 1.], [0., 2., 3.]),
            ([0., 1.], [0., 1., 3., 4.]), ([0.], [0., 1., 3.]),
            ([0., 1.], [0.]), ([-1., 1.], [0., 1., 3.])]
    for ax, ay in axes:
        sh = (len(ax), len(ay))
        mks = [bit(sh)]
        if (ax, ay) == base:
            mks = [np.array(b).reshape(sh) for b in itertools.product(
                [False, True], repeat=6)] if ck.thorough else \
                [bit(sh), bit(sh, (0, 0)), bit(sh, (1, 2)), ~bit(sh),
                 bit(sh, (0, 0), (1, 2)), bit(sh, (0, 1))]
        for k in mks:
            yield fm.mk(kind, ax, ay, k, "m", "mm", "m/s")
    ax, ay = base
    sh = (2, 3)
    for i, j in itertools.product(range(2), range(3)):
        for c in range(1 if kind == "s" else 2):
            for k in (bit(sh), bit(sh, (0, 0)), bit(sh, (1, 2))):
                m = fm.mk(kind, ax, ay, k, "m", "mm", "m/s")
                m.comps[c][i, j] += .25
                yield m
    for us in (("mm", "mm", "m/s"), ("m", "m", "m/s"), ("m", "mm", "m"),
               ("", "mm", "m/s"), ("m", "mm", ""), ("s", "mm", "m/s"),
               ("m", "mm", "mm/s")):
        yield fm.mk(kind, ax, ay, bit(sh), *us)
    # small and large magnitudes
    for f in (1e-9, 1e9):
        for d in (0., .25):
            m = fm.mk(kind, ax, ay, bit(sh), "m", "mm", "m/s")
            m.comps[0][1, 1] += d
            for c in m.comps:
                c *= f
            yield m
    for f in (1e-9, 1e9):
        for d in (0., 1.):
            m = fm.mk(kind, ax, ay, bit(sh), "m", "mm", "m/s")
            m.ax = m.ax*f
            m.ay = m.ay*f
            m.ay[1] += d*f
            yield m


def equal(a, b):
    r = a == b
    n = a != b
    expect(isinstance(r, (bool, np.bool_)), "not a truth value",
           lambda: repr(type(r)))
    expect(bool(n) == (not r), "== and != agree")
    return bool(r)


def pairs(ck, name, objs):
    """objs: [(description, key, builder)]"""
    built = [(d, k, [f(), f(1)]) for d, k, f in objs]
    snaps = [fm.snap(o[0]) for _, _, o in built]

    def one(i, j):
        r = equal(built[i][2][0], built[j][2][1])
        e = built[i][1] == built[j][1]
        expect(r == e, "equal though different" if r else
               "different though the same", lambda: (built[i][0],
                                                     built[j][0]))
        expect(fm.snap(built[i][2][0]) == snaps[i],
               "comparison changed the object")
    for i in range(len(built)):
        for j in range(len(built)):
            ck.case("{}|{}".format(name, "same" if built[i][1] == built[j][1]
                                   else "different"),
                    (built[i][0], built[j][0]), lambda i=i, j=j: one(i, j))
    others = [None, 0, 1., "a", [1, 2], (1,), object(), U("m")]
    for i in range(0, len(built), max(1, len(built)//10)):
        for q, o in enumerate(others):
            ck.case(name + "|other types", (built[i][0], repr(o)[:20]),
                    lambda i=i, o=o: expect(not equal(
                        built[i][2][0], o), "equal to another type"))
        ck.case(name + "|copy", built[i][0], lambda i=i: expect(
            equal(built[i][2][0], built[i][2][0].copy())
            and equal(built[i][2][0].copy(), built[i][2][0])
            and equal(built[i][2][0], built[i][2][0]),
            "differs from its copy"))


def run(ck):
    for kind, nm in (("s", "scalar field"), ("v", "vector field")):
        objs = []
        for m in fields(kind, ck):
            d = (m.ax.tolist(), m.ay.tolist(), fm.mdesc(m.mask),
                 [c.tolist() for c in m.comps], fm.ustr(m.ux),
                 fm.ustr(m.uy), fm.ustr(m.uv))

            def build(hid=0, m=m):
                m = m.copy()
                # what hides under the mask does not count
                for c in m.comps:
                    c[m.mask] = 500. if hid else -7.
                return m.real()
            objs.append((str(d), key_field(m), build))
        pairs(ck, nm, objs)
    profiles(ck)
    points(ck)
    series(ck)
    across(ck)


def profiles(ck):
    from IMTreatment import Profile
    objs = []
    xs = [[], [0.], [0., 1.], [0., 2.], [0., 1., 3.], [0., 1., 2.], [1.]]
    ys = {0: [[]], 1: [[2.], [3.], [2e-9]],
          2: [[2., 3.], [2., 2.], [3., 2.], [2e-9, 3e-9], [2e-9, 2e-9]],
          3: [[2., 3., 5.], [2., 2., 2.], [2., 4., 5.]]}
    for x in xs:
        for y in ys[len(x)]:
            for mask in itertools.product([False, True], repeat=len(x)):
                for ux, uy in (("s", "m"),) if any(mask) and not ck.thorough \
                        else (("s", "m"), ("m", "m"), ("s", "mm"), ("", "m")):
                    def build(hid=0, x=x, y=y, mask=mask, ux=ux, uy=uy):
                        return Profile(np.array(x), np.where(
                            mask, 70. + hid, y), mask=np.array(mask, bool),
                            unit_x=ux, unit_y=uy)
                    key = (tuple(np.where(mask, 1e99, x)),
                           tuple(np.where(mask, 1e99, y)), mask, ux,
                           uy)
                    objs.append(((x, y, mask, ux, uy), key, build))
    if not ck.thorough:
        objs = [o for i, o in enumerate(objs) if i % 2 == 0 or len(
            o[0][0]) < 2]
    pairs(ck, "profile", objs)


def points(ck):
    from IMTreatment import Points, OrientedPoints
    objs, ori = [], []
    sets = [[], [(0., 1.)], [(0., 2.)], [(0., 1.), (0., 1.)],
            [(0., 1.), (0., 2.)], [(0., 2.), (0., 1.)],
            [(0., 1.), (2., 2.)], [(1., 0.)],
            [(0., 1.), (0., 1.), (0., 1.)], [(0., 1.), (0., 2.), (3., 3.)]]
    for s in sets:
        vs = [[]]
        if s:
            vs += [[5.]*len(s), [6.] + [5.]*(len(s) - 1)]
        for v in vs:
            for us in (("m", "s", "K"), ("mm", "s", "K"), ("m", "m", "K"),
                       ("m", "s", "m")):
                def build(hid=0, s=s, v=v, us=us):
                    return Points(np.array(s, float).reshape(-1, 2), v,
                                  unit_x=us[0], unit_y=us[1], unit_v=us[2])
                objs.append(((s, v, us), (tuple(s), tuple(v), us), build))
                if us != ("m", "s", "K"):
                    continue
                for o in ([[(1., 0.), (0., 1.)]]*len(s),
                          [[(1., 0.), (0., 2.)]]*len(s),
                          [[(1., 0.)]]*len(s)):
                    if not s:
                        continue

                    def bo(hid=0, s=s, v=v, us=us, o=o):
                        return OrientedPoints(
                            np.array(s, float).reshape(-1, 2),
                            np.array(o, float), v, unit_x=us[0],
                            unit_y=us[1], unit_v=us[2])
                    ori.append(((s, v, o), (tuple(s), tuple(v), str(o)), bo))
    pairs(ck, "points", objs)
    pairs(ck, "oriented points", ori)


def series(ck):
    for kind in "sv":
        ms = [fm.mk(kind, "a2", "u3", None, "m", "mm", "m/s", k=k)
              for k in range(3)]
        k = ms[0].copy()
        k.mask[1, 1] = True
        ms.append(k)
        k = fm.mk(kind, "a2", "u3", None, "m", "mm", "m/s")
        k.comps[0][0, 0] += .25
        ms.append(k)
        objs = [("empty", "empty", lambda hid=0, kind=kind:
                 S([]).real(kind=kind))]
        for n in (1, 2, 3):
            for combo in itertools.product(range(len(ms)), repeat=n):
                if n == 3 and (combo[0] > 1 or combo[2] not in (0, 3)) \
                        and not ck.thorough:
                    continue
                if n == 3 and combo[0] == combo[1] == 4:
                    continue
                for times in ([0., 1., 2.], [0., 1.5, 3.], [-1., 1., 2.]):
                    if n > 1 and times[0] and not ck.thorough and \
                            combo[0]:
                        continue
                    for ut in ("s", "ms", "m") if combo[0] == 0 else ("s",):
                        s = S(list(zip(times[:n], [ms[i] for i in combo])),
                              ut)
                        key = (tuple(times[:n]), ut,
                               tuple(key_field(ms[i]) for i in combo))

                        def build(hid=0, s=s, n=n):
                            return s.real(order=list(range(n))[
                                ::-1 if hid else 1])
                        objs.append(((combo, times[:n], ut), key, build))
        if not ck.thorough:
            objs = objs[:20] + objs[21::2] if len(objs) > 150 else objs
        pairs(ck, "series " + kind, objs)


def across(ck):
    """objects of different classes are never equal"""
    from mc import registry
    obs = []
    for cls in registry.CLASSES:
        if cls == "oriented points":
            continue
        for nm, f in registry.states(cls):
            obs.append((cls, nm, f))
    for (a, n1, f), (b, n2, g) in itertools.product(obs, repeat=2):
        if a != b:
            ck.case("across classes|{}|{}".format(a, b), (n1, n2),
                    lambda f=f, g=g: expect(not equal(f(), g()),
                                            "equal across classes"))
