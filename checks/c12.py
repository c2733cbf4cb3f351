"""C12: temporal statistics are the pointwise statistics of the valid data."""
import itertools

import numpy as np

from mc.core import expect
from mc import fm, series
from mc.fm import U
from mc.series import S

BOUNDS = ("series of 1 to 4 fields, some of 6, 11 and 16 (scalar and vector), grids 2x2, 2x4, 4x4, "
          "3x1; all 2^(2x4) time x point mask patterns of two-field series "
          "on 2x2 grids (2^12 for three fields, thorough), every mask "
          "history at every point position and every order of the values in "
          "time for longer series")
AX = {"2": [0., 1.], "3": [-1., 0., 2.], "4": [0., 1., 2., 3.], "1": [2.]}
TIMES = [-1., 0.5, 1.5, 4.]
# longer, unevenly spaced, starting at negative times
LONG = [-3. + .5*t + .125*(t % 3) for t in range(16)]
EVEN = [0.5, 1., 1.5, 2., 2.5, 3., 3.5, 4.]


def build(kind, gx, gy, n, masks, k=0, times=None, ut="s"):
    """values whose order in time differs from point to point"""
    ax, ay = AX[gx], AX[gy]
    shape = (len(ax), len(ay))
    perms = list(itertools.permutations(range(n))) if n <= 4 else None
    comps = [np.zeros((n,) + shape) for _ in range(1 if kind == "s" else 2)]
    for p, (i, j) in enumerate(np.ndindex(shape)):
        for c, comp in enumerate(comps):
            if perms is not None:
                pm = perms[(p + k + 2*c) % len(perms)]
            else:
                pm = [(3*t + p + c) % n for t in range(n)]
            for t in range(n):
                comp[t, i, j] = 1.25*pm[t] - 1. + .5*p - .25*c*p + \
                    (.375*c if t % 2 else 0.)
    times = times or (TIMES if n <= 4 else LONG)
    return S([(times[t], fm.M(ax, ay, [c[t] for c in comps], masks[t],
                              "mm", "mm", "m/s")) for t in range(n)], ut)


def spaces(thorough):
    """(label, kind, gx, gy, n, masks)"""
    for kind in "sv":
        # one or two fields, all masks
        for gx, gy in (("2", "2"), ("3", "1")):
            shape = (len(AX[gx]), len(AX[gy]))
            npt = shape[0]*shape[1]
            for bits in itertools.product((0, 1), repeat=npt):
                if all(bits):
                    continue
                yield kind, gx, gy, 1, [np.array(bits, bool).reshape(shape)]
        for bits in itertools.product((0, 1), repeat=8):
            b = np.array(bits, bool).reshape(2, 2, 2)
            if b[0].all() or b[1].all():
                continue
            yield kind, "2", "2", 2, list(b)
        if thorough:
            for bits in itertools.product((0, 1), repeat=12):
                b = np.array(bits, bool).reshape(3, 2, 2)
                if any(q.all() for q in b):
                    continue
                yield kind, "2", "2", 3, list(b)
        # every history of masks at every position
        for n, gx, gy in ((3, "2", "4"), (3, "4", "2"), (4, "4", "4")):
            hist = list(itertools.product((0, 1), repeat=n))
            shape = (len(AX[gx]), len(AX[gy]))
            npt = shape[0]*shape[1]
            for sh in range(npt if (thorough or n == 3) else 6):
                b = np.array([hist[(5*p + sh) % len(hist)]
                              for p in range(npt)], bool).T
                yield kind, gx, gy, n, [q.reshape(shape) for q in b]
            yield kind, gx, gy, n, [np.zeros(shape, bool)]*n
        # longer series
        for n, gx, gy in ((6, "2", "2"), (11, "4", "2"), (16, "2", "3")):
            shape = (len(AX[gx]), len(AX[gy]))
            yield kind, gx, gy, n, [np.zeros(shape, bool)]*n
            for st in (3, 5, 7):
                yield kind, gx, gy, n, [np.array(
                    [(t*st + 3*p) % 8 < 3 for p in range(
                        shape[0]*shape[1])], bool).reshape(shape)
                    for t in range(n)]


# -- reference statistics ----------------------------------------------------
def stack(s, c):
    return np.array([m.comps[c] for m in s.fields])


def valid(s):
    return ~np.array([m.mask for m in s.fields])


def pointwise(s, arrs, fn, nmb_min, uv):
    """fn(list of samples of each array) where at least nmb_min are valid"""
    m0 = s.fields[0]
    v = valid(s)
    out = np.full(m0.shape, np.nan)
    for i, j in np.ndindex(m0.shape):
        sel = v[:, i, j]
        if sel.sum() >= max(nmb_min, 1):
            out[i, j] = fn(*[[float(x) for x in a[sel, i, j]] for a in arrs])
    return fm.M(m0.ax, m0.ay, [out], None, m0.ux, m0.uy, uv)


def avg(v):
    return sum(v)/len(v)


def m_mean(s, nmb_min=1):
    m0 = s.fields[0]
    cs = [pointwise(s, [stack(s, c)], avg, nmb_min, m0.uv).comps[0]
          for c in range(len(m0.comps))]
    return fm.M(m0.ax, m0.ay, cs, None, m0.ux, m0.uy, m0.uv)


def m_fluct(s, nmb_min=1):
    mean = m_mean(s, nmb_min)
    return s.map(lambda m: fm.M(m.ax, m.ay, [c - d for c, d in
                                             zip(m.comps, mean.comps)],
                                None, m.ux, m.uy, m.uv))


def cmp_profile(p, x, y, ux, uy):
    expect(fm.close(np.array(p.x, float), x), "times of the profile",
           lambda: (list(p.x), list(x)))
    y = np.array(y, float)
    expect(np.array_equal(np.array(p.mask, bool), np.isnan(y)),
           "mask of the profile", lambda: (list(p.mask), list(y)))
    ok = ~np.isnan(y)
    expect(fm.close(np.array(p.y, float)[ok], y[ok]),
           "values of the profile", lambda: (list(p.y), list(y)))
    expect(fm.same_unit(p.unit_x, ux), "time unit of the profile")
    expect(fm.same_unit(p.unit_y, uy), "values unit of the profile",
           lambda: (str(p.unit_y), str(uy)))


def cmp_sf(f, m):
    fm.wellformed(f)
    return fm.compare(f, m)


def comp_arr(s, name):
    if name in ("values", "comp_x"):
        return stack(s, 0)
    if name == "comp_y":
        return stack(s, 1)
    return np.sqrt(stack(s, 0)**2 + stack(s, 1)**2)


def stats_case(ck, kind, gx, gy, n, masks, k):
    s = build(kind, gx, gy, n, masks, k)
    ts = s.real()
    ref = fm.snap(ts)
    d = (kind, gx + "x" + gy, n, k, ["".join("01"[int(b)] for b in m.ravel())
                                     for m in masks])
    m0 = s.fields[0]
    sg = "|" + kind

    def case(sig, fn, dd=()):
        def run():
            r = fn()
            expect(fm.snap(ts) == ref, "source modified")
            return r
        ck.case(sig + sg, (d, dd), run)

    for nm in (1, 2, 3):
        case("mean", lambda: cmp_sf(ts.get_mean_field(nmb_min=nm),
                                    m_mean(s, nm)), nm)
        if kind == "s":
            for w, f in (("min", min), ("max", max)):
                case(w, lambda: cmp_sf(
                    getattr(ts, "get_%s_field" % w)(nmb_min=nm),
                    pointwise(s, [stack(s, 0)], f, nm, m0.uv)), nm)
        case("fluctuant", lambda: series.compare(
            ts.get_fluctuant_fields(nmb_min_mean=nm), m_fluct(s, nm)), nm)
    if kind == "v":
        mean = m_mean(s)
        fl = m_fluct(s)
        u2 = m0.uv**2
        ke = fm.M(m0.ax, m0.ay, [.5*(mean.comps[0]**2 + mean.comps[1]**2)],
                  None, m0.ux, m0.uy, u2)
        case("mean kinetic energy",
             lambda: cmp_sf(ts.get_mean_kinetic_energy(), ke))
        tke = fl.map(lambda m: fm.M(m.ax, m.ay,
                                    [.5*(m.comps[0]**2 + m.comps[1]**2)],
                                    None, m.ux, m.uy, u2))
        case("turbulent kinetic energy",
             lambda: series.compare(ts.get_tke(), tke))
        case("mean turbulent kinetic energy",
             lambda: cmp_sf(ts.get_mean_tke(), m_mean(tke)))
        with np.errstate(all="ignore"):
            ti = S([(t, fm.M(m.ax, m.ay,
                             [np.sqrt(2./3*a.comps[0]) /
                              np.sqrt(m.comps[0]**2 + m.comps[1]**2)],
                             None, m.ux, m.uy, U("")))
                    for (t, m), a in zip(s.items, tke.fields)], s.ut)
        if not any(np.any((m.comps[0] == 0) & (m.comps[1] == 0))
                   for m in s.fields):
            case("turbulent intensity",
                 lambda: series.compare(ts.get_turbulent_intensity(), ti))
        up, vp = stack(fl, 0), stack(fl, 1)
        for nv in (1, 2):
            def rs():
                got = ts.get_reynolds_stress(nmb_val_min=nv)
                exp = [pointwise(fl, [a, b],
                                 lambda a, b: avg([x*y for x, y in zip(a, b)]),
                                 nv + 1, u2)
                       for a, b in ((up, up), (vp, vp), (up, vp))]
                for g, e in zip(got, exp):
                    cmp_sf(g, e)
            case("reynolds stress", rs, nv)
    # arrays of the components
    names = ["values"] if kind == "s" else ["Vx", "Vy", "magnitude"]
    prof_names = ["values"] if kind == "s" else ["comp_x", "comp_y",
                                                 "magnitude"]
    for a, b in zip(names, prof_names):
        def arr():
            got = np.array(getattr(ts, a), float)
            exp = comp_arr(s, b)
            v = valid(s)
            expect(got.shape == exp.shape, "shape")
            expect(fm.close(got[v], exp[v]), "values")
            series.compare(getattr(ts, a + "_as_sf"), S(
                [(t, fm.M(m.ax, m.ay, [e], None, m.ux, m.uy, m.uv))
                 for (t, m), e in zip(s.items, exp)], s.ut))
        case("component array " + a, arr)

    def cumm():
        exp = (~valid(s)).all(axis=0)
        expect(np.array_equal(np.array(ts.mask_cum, bool), exp), "mask_cum")
        expect(np.array_equal(np.array(ts.mask_cum_as_sf.values) == 1, exp),
               "mask_cum_as_sf")
    case("cumulated mask", cumm)

    # time profiles
    def profs():
        for nme in prof_names:
            a = comp_arr(s, nme)
            for i, j in np.ndindex(m0.shape):
                for pt, ind in (((i, j), True),
                                ((m0.ax[i], m0.ay[j]), False)):
                    p = ts.get_time_profile(nme, pt=list(pt), ind=ind)
                    cmp_profile(p, s.times, a[:, i, j], s.ut, m0.uv)
    case("time profile", profs)

    # interpolation in time
    if n > 1:
        def interp():
            for q in range(n - 1):
                t0, t1 = s.times[q], s.times[q + 1]
                for w in (0., .25, .5, 1.):
                    t = t0 + w*(t1 - t0)
                    f = ts.get_interpolated_field(t)
                    if w == 0.:
                        e = s.fields[q]
                    elif w == 1.:
                        e = s.fields[q + 1]
                    else:
                        e = fm.M(m0.ax, m0.ay, [
                            (1 - w)*a + w*b for a, b in
                            zip(s.fields[q].comps, s.fields[q + 1].comps)],
                            None, m0.ux, m0.uy, m0.uv)
                    cmp_sf(f, e)
                    expect(not fm.shares_memory(f, ts), "shares data")
        case("interpolated field", interp)
    # recurrence map
    if n > 1 and valid(s).all():
        for norm in (1, 2, 3):
            for norml in (False, True):
                def rec():
                    r = ts.get_recurrence_map(norm=norm, normalized=norml)
                    cs = [stack(s, c) for c in range(len(m0.comps))]
                    nv = cs[0][0].size*len(cs)
                    e = np.zeros((n, n))
                    for a, b in itertools.product(range(n), repeat=2):
                        e[a, b] = sum(np.sum(np.abs(c[a] - c[b])**norm)
                                      for c in cs)**(1./norm)/nv
                    uv = m0.uv
                    if norml:
                        mn = m_mean(s)
                        mg = np.abs(mn.comps[0]) if len(cs) == 1 else \
                            np.sqrt(mn.comps[0]**2 + mn.comps[1]**2)
                        e = e/(np.sum(mg**norm)**(1./norm)/nv)
                        uv = U("")
                    cmp_sf(r, fm.M(s.times, s.times, [e], None, s.ut, s.ut,
                                   uv))
                case("recurrence map" + (" normalized" if norml else ""),
                     rec, norm)
    # temporal fill
    if n > 2:
        for fk in ("linear", "value"):
            for inp in (False, True):
                def fill():
                    v = valid(s)
                    cs = [stack(s, c) for c in range(len(m0.comps))]
                    val = [2.5, -1.][:len(cs)]
                    t = np.array(s.times)
                    for i, j in np.ndindex(m0.shape):
                        nb = v[:, i, j].sum()
                        if nb < 3 or nb == n:
                            continue
                        for c in range(len(cs)):
                            ok = v[:, i, j]
                            for q in np.where(~ok)[0]:
                                if fk == "value":
                                    cs[c][q, i, j] = val[c]
                                elif t[ok][0] < t[q] < t[ok][-1]:
                                    cs[c][q, i, j] = np.interp(
                                        t[q], t[ok], cs[c][ok, i, j])
                    e = S([(x, fm.M(m0.ax, m0.ay, [c[q] for c in cs], None,
                                    m0.ux, m0.uy, m0.uv))
                           for q, x in enumerate(s.times)], s.ut)
                    src = ts.copy() if inp else ts
                    r = src.fill(tof="temporal", kind=fk, inplace=inp,
                                 value=val if kind == "v" else val[0])
                    return series.compare(src if inp else r, e)
                case("temporal fill", fill, (fk, inp))


def profile_cases(ck):
    """time profiles along moving points and injection"""
    from IMTreatment import Points, Profile
    for kind in "sv":
        for n in (3, 4):
            hist = list(itertools.product((0, 1), repeat=n))
            shape = (2, 4)
            b = np.array([hist[(5*p) % len(hist)] for p in range(8)],
                         bool).T
            for masks in ([np.zeros(shape, bool)]*n,
                          [q.reshape(shape) for q in b]):
                s = build(kind, "2", "4", n, masks, 1)
                m0 = s.fields[0]
                name = "values" if kind == "s" else "comp_y"
                a = comp_arr(s, name)
                # points given at any subset of the times
                for r in range(1, n + 1):
                    for sub in itertools.combinations(range(n), r):
                        for wt in (None, [s.times[1], s.times[-1]],
                                   [s.times[0], s.times[1]]):
                            pos = [((q + 1) % 2, (3*q + 1) % 4) for q in sub]

                            def pts():
                                ts = s.real()
                                p = Points([(m0.ax[i], m0.ay[j])
                                            for i, j in pos],
                                           v=[s.times[q] for q in sub],
                                           unit_x="mm", unit_y="mm",
                                           unit_v="s")
                                pr = ts.get_time_profile(
                                    name, p, wanted_times=wt)
                                w = [(q, ij) for q, ij in zip(sub, pos)
                                     if wt is None or
                                     wt[0] <= s.times[q] <= wt[1]]
                                cmp_profile(pr, [s.times[q] for q, _ in w],
                                            [a[q][ij] for q, ij in w],
                                            s.ut, m0.uv)
                            ok = [q for q in sub if wt is None or
                                  wt[0] <= s.times[q] <= wt[1]]
                            if not ok:
                                continue
                            ck.case("time profile along points|" + kind,
                                    (n, sub, wt), pts)
                # intervals of time
                for lo, hi in itertools.combinations(
                        [-2., -1., 0., .5, 1., 1.5, 4., 5.], 2):
                    sel = [q for q in range(n) if lo <= s.times[q] <= hi]
                    if not sel:
                        continue

                    def wtc():
                        ts = s.real()
                        for i, j in np.ndindex(shape):
                            pr = ts.get_time_profile(
                                name, [i, j], wanted_times=[lo, hi],
                                ind=True)
                            cmp_profile(pr, [s.times[q] for q in sel],
                                        a[sel, i, j], s.ut, m0.uv)
                    ck.case("time profile on an interval|" + kind,
                            (n, lo, hi), wtc)
                # injection
                for i, j in np.ndindex(shape):
                    for ind in (True, False):
                        def inj():
                            ts = s.real()
                            y = [7. - q for q in range(n)]
                            pr = Profile(s.times, y, unit_x="s",
                                         unit_y="m/s")
                            pt = [i, j] if ind else [m0.ax[i], m0.ay[j]]
                            ts.inject_time_profile(name, pt, pr, ind=ind)
                            c = 0 if kind == "s" else 1
                            for q in range(n):
                                f = ts.fields[q]
                                got = f.values if kind == "s" else f.comp_y
                                e = s.fields[q].comps[c].copy()
                                msk = s.fields[q].mask.copy()
                                if not msk[i, j]:
                                    e[i, j] = y[q]
                                expect(fm.close(np.array(got)[~msk],
                                                e[~msk]), "values")
                        ck.case("inject profile|" + kind, (n, i, j, ind), inj)

                def injp():
                    ts = s.real()
                    y = [7. - q for q in range(n)]
                    pr = Profile(s.times, y, unit_x="s", unit_y="m/s")
                    pos = [((q + 1) % 2, (3*q + 1) % 4) for q in range(n)]
                    p = Points([(m0.ax[i], m0.ay[j]) for i, j in pos],
                               v=s.times, unit_x="mm", unit_y="mm",
                               unit_v="s")
                    ts.inject_time_profile(name, p, pr)
                    c = 0 if kind == "s" else 1
                    for q in range(n):
                        f = ts.fields[q]
                        got = f.values if kind == "s" else f.comp_y
                        e = s.fields[q].comps[c].copy()
                        msk = s.fields[q].mask
                        if not msk[pos[q]]:
                            e[pos[q]] = y[q]
                        expect(fm.close(np.array(got)[~msk], e[~msk]),
                               "values")
                ck.case("inject profile along points|" + kind, n, injp)


def ref_spectrum(t, y, ut, uy, scaling="base", seg=None):
    from IMTreatment import Profile
    return Profile(t, y, unit_x=ut, unit_y=uy).get_spectrum(
        scaling=scaling, welch_seglen=seg)


def spectrum_cases(ck):
    for kind in "sv":
        for gx, gy in (("2", "2"), ("3", "1"), ("4", "2")):
            shape = (len(AX[gx]), len(AX[gy]))
            for n in (5, 8):
                s = build(kind, gx, gy, n, [np.zeros(shape, bool)]*n,
                          times=EVEN)
                m0 = s.fields[0]
                name = "values" if kind == "s" else "comp_x"
                a = comp_arr(s, name)
                for sc in ("base", "spectrum", "density"):
                    for seg in (None, 4):
                        specs = {}
                        for i, j in np.ndindex(shape):
                            specs[i, j] = ref_spectrum(
                                s.times, a[:, i, j], s.ut, m0.uv, sc, seg)
                        d = (gx, gy, n, sc, seg)

                        def one():
                            ts = s.real()
                            for i, j in np.ndindex(shape):
                                g = ts.get_temporal_spectrum(
                                    name, [i, j], ind=True, scaling=sc,
                                    welch_seglen=seg)
                                e = specs[i, j]
                                cmp_profile(g, e.x, e.y, e.unit_x, e.unit_y)
                        ck.case("temporal spectrum|" + kind, d, one)
                        for x0, x1, y0, y1 in itertools.product(
                                range(shape[0]), range(shape[0]),
                                range(shape[1]), range(shape[1])):
                            if x1 < x0 or y1 < y0:
                                continue

                            def area(ind):
                                ts = s.real()
                                if ind == "between":
                                    ix, iy = [
                                        [ax[a] - .25*(ax[a] - ax[a - 1])
                                         if a else ax[a],
                                         ax[b] + .25*(ax[b + 1] - ax[b])
                                         if b + 1 < len(ax) else ax[b]]
                                        for ax, a, b in ((m0.ax, x0, x1),
                                                         (m0.ay, y0, y1))]
                                elif ind:
                                    ix, iy = [x0, x1], [y0, y1]
                                else:
                                    ix = [m0.ax[x0], m0.ax[x1]]
                                    iy = [m0.ay[y0], m0.ay[y1]]
                                g = ts.get_temporal_spectrum_over_area(
                                    name, ix, iy, ind=ind is True, scaling=sc,
                                    welch_seglen=seg)
                                es = [specs[i, j] for i in range(x0, x1 + 1)
                                      for j in range(y0, y1 + 1)]
                                e = es[0]
                                y = sum(np.array(q.y) for q in es)/len(es)
                                cmp_profile(g, e.x, y, e.unit_x, e.unit_y)
                            for ind in (True, False, "between"):
                                ck.case("spectrum over area|" + kind,
                                        d + (x0, x1, y0, y1, ind),
                                        lambda: area(ind))
                # strongest frequency at every point

                def smap():
                    ts = s.real()
                    f, q = ts.get_spectrum_map(name, verbose=False)
                    e = np.zeros(shape)
                    for i, j in np.ndindex(shape):
                        sp = ref_spectrum(s.times, a[:, i, j], s.ut, m0.uv)
                        e[i, j] = sp.x[int(np.argmax(sp.y))]
                    cmp_sf(f, fm.M(m0.ax, m0.ay, [e], None, m0.ux, m0.uy,
                                   1./s.ut))
                ck.case("spectrum map|" + kind, (gx, gy, n), smap)
                # phases
                if kind == "s":
                    for freq in (.5, .3, .8):
                        def phase():
                            ts = s.real()
                            nrm, ph = ts.get_phase_map(freq, verbose=False)
                            fr = np.fft.fftfreq(n, s.times[1] - s.times[0])
                            fr = fr[:n//2]
                            q = int(np.argmin(np.abs(fr - freq)))
                            e1, e2 = np.zeros(shape), np.zeros(shape)
                            for i, j in np.ndindex(shape):
                                z = sum(a[t, i, j]*np.exp(
                                    -2j*np.pi*q*t/n) for t in range(n))
                                e1[i, j], e2[i, j] = abs(z), np.angle(z)
                            expect(nrm.shape == shape and
                                   fm.close(nrm.values, e1, 1e-6), "norms")
                            dd = np.angle(np.exp(1j*(np.array(ph.values) -
                                                     e2)))
                            expect(np.all((np.abs(dd) < 1e-6) |
                                          (e1 < 1e-9)), "phases")
                        ck.case("phase map", (gx, gy, n, freq), phase)
        # average over the time of the spatial spectra
        ax = [0., 1., 2., 3., 4., 5.]
        for n in (1, 2, 4):
            fields = []
            for q in range(n):
                vals = [np.array([[((7*i + 3*j*j + 5*q*i*c + q*q) % 11)*.5
                                   for j in range(5)] for i in range(6)])
                        for c in range(1, 2 if kind == "s" else 3)]
                fields.append((EVEN[q], fm.M(ax, ax[:5], vals, None, "mm",
                                             "mm", "m/s")))
            s = S(fields, "s")
            comp = "values" if kind == "s" else "Vx"
            for dire in "xy":
                for sc in ("base", "density"):
                    ivs = [None] + [[a, b] for a in range(n)
                                    for b in range(a + 1, n)]
                    for iv in ivs:
                        def sp():
                            ts = s.real()
                            sel = range(n) if iv is None else \
                                range(iv[0], iv[1] + 1)
                            es = [fm.M(m.ax, m.ay, [m.comps[0]], None, m.ux,
                                       m.uy, m.uv).real()
                                  .get_spatial_spectrum(dire, scaling=sc)
                                  for q, m in enumerate(s.fields)
                                  if q in sel]
                            g = ts.get_spatial_spectrum(
                                comp if kind == "s" else "comp_x", dire,
                                intervtime=None if iv is None else
                                [s.times[iv[0]], s.times[iv[1]]],
                                scaling=sc)
                            y = sum(np.array(e.y) for e in es)/len(es)
                            cmp_profile(g, es[0].x, y, es[0].unit_x,
                                        es[0].unit_y)
                        ck.case("spatial spectrum|" + kind, (n, dire, sc, iv),
                                sp)


def misc_cases(ck):
    """auto correlation, filtering, background"""
    for n in (2, 3):
        for bits in itertools.product((0, 1), repeat=n*2):
            b = np.array(bits, bool).reshape(n, 2)
            masks = [np.array([[r[0], r[1]], [0, 0]], bool) for r in b]
            s = build("v", "2", "2", n, masks)

            def corr():
                p = s.real().get_time_auto_correlation()
                a, c = stack(s, 0), stack(s, 1)
                e = []
                for q in range(n):
                    e.append(np.nanmean(a[0]*a[q] + c[0]*c[q]) /
                             np.nanmean(a[0]**2 + c[0]**2))
                cmp_profile(p, s.times, e, s.ut, U(""))
            ck.case("auto correlation", (n, bits), corr)
    for kind in "sv":
        n = 16
        s = build(kind, "2", "2", n, [np.zeros((2, 2), bool)]*n,
                  times=[.5*q for q in range(n)])
        name = ["values"] if kind == "s" else ["comp_x", "comp_y"]
        for fr in ((.2, .6), (.1, .4)):
            for inp in (False, True):
                def filt():
                    from IMTreatment import Profile
                    ts = s.real()
                    ref = fm.snap(ts)
                    r = ts.get_spectral_filtering(fr[0], fr[1], inplace=inp)
                    if inp:
                        r = ts
                    else:
                        expect(fm.snap(ts) == ref, "source modified")
                    its = [[t, [c.copy() for c in m.comps]]
                           for t, m in s.items]
                    for c in range(len(name)):
                        a = stack(s, c)
                        for i, j in np.ndindex(2, 2):
                            p = Profile(s.times, a[:, i, j], unit_x="s",
                                        unit_y="m/s").spectral_filtering(
                                            fr[0], fr[1])
                            for q in range(n):
                                its[q][1][c][i, j] = p.y[q]
                    m0 = s.fields[0]
                    e = S([(t, fm.M(m0.ax, m0.ay, cs, None, m0.ux, m0.uy,
                                    m0.uv)) for t, cs in its], s.ut)
                    series.compare(r, e)
                ck.case("spectral filtering|" + kind, (fr, inp), filt)
    # background: constant pixels are their own background
    for n in (2, 3, 12):
        for vals in itertools.product((0., 4., 100.), repeat=2):
            def bg():
                ts = S([(float(q), fm.M([0., 1.], [0., 1., 2.], [np.array(
                    [[vals[0], vals[1], 7.], [vals[1], 3., vals[0]]])],
                    None, "mm", "mm", "")) for q in range(n)], "s").real()
                b = ts.get_background()
                expect(fm.close(np.array(b.values), [
                    [vals[0], vals[1], 7.], [vals[1], 3., vals[0]]]),
                    "background of a still scene", lambda: b.values.tolist())
            ck.case("background", (n, vals), bg)


def run(ck):
    for sp in spaces(ck.thorough):
        stats_case(ck, *sp, k=(0 if sp[3] < 3 else 1))
        if ck.thorough and sp[3] >= 3:
            stats_case(ck, *sp, k=3)
    profile_cases(ck)
    spectrum_cases(ck)
    misc_cases(ck)
