"""C22: proper orthogonal decomposition of temporal series."""
import itertools

import numpy as np

from mc import fm
from mc.core import expect

GRIDS = [("square", np.arange(3.), 1. + np.arange(3.)),
         ("flat", np.array([0., .5, 1.5, 2.]), np.array([-1., 1.]))]


def patterns(ax, ay, comp):
    X, Y = np.meshgrid(np.arange(len(ax)), np.arange(len(ay)), indexing="ij")
    k = 7*comp
    return [X + 2.*Y + comp, (X - 1.)*(Y - .5) - comp,
            (X*3 + Y*5 + k) % 4 - 1., (X*X + Y + k) % 3*1.,
            (X*2 + Y*Y*3 + k) % 5 - 2.]


def series(kind, ax, ay, coefs, times, ux="m", uy="mm", uv="m/s", ut="s",
           mask=None):
    """field k = pattern 0 + sum of coefs[k][j] * pattern j+1"""
    import IMTreatment as imt
    cls = {"tsf": imt.TemporalScalarFields,
           "tvf": imt.TemporalVectorFields}[kind]
    out = cls()
    data = []
    for c, t in zip(coefs, times):
        comps = []
        for comp in (0, 1)[:1 if kind == "tsf" else 2]:
            P = patterns(ax, ay, comp)
            comps.append(P[0] + sum(a*p for a, p in zip(c, P[1:])))
        f = imt.ScalarField() if kind == "tsf" else imt.VectorField()
        f.import_from_arrays(ax, ay, *comps, mask=False if mask is None
                             else mask, unit_x=ux, unit_y=uy, unit_values=uv)
        out.add_field(f, time=t, unit_times=ut)
        data.append(np.array(comps))
    return out, np.array(data)


def comps(f):
    return np.array([f.values] if hasattr(f, "values")
                    else [f.comp_x, f.comp_y])


def data_of(tf):
    return np.array([comps(f) for f in tf.fields])


def near(a, b, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    s = max(np.abs(b).max(initial=0.), 1.) if scale is None else scale
    return bool(np.all(np.abs(a - b) <= 1e-8*s))


def same_frame(tf, ax, ay, times, units):
    expect(near(tf.axe_x, ax) and near(tf.axe_y, ay), "grid",
           lambda: (tf.axe_x, tf.axe_y))
    expect(near(tf.times, times), "times", lambda: (tf.times, times))
    for n, w in zip(("unit_x", "unit_y", "unit_values", "unit_times"), units):
        expect(fm.same_unit(getattr(tf, n), fm.U(w)), "units",
               lambda: (n, str(getattr(tf, n)), w))


UNITS = ("m", "mm", "m/s", "s")


def run(ck):
    whole(ck)
    rank(ck)
    modes(ck)
    base(ck)
    crops(ck)
    scales(ck)
    finer(ck)
    masks(ck)
    reads(ck)


def decompose(tf, **kw):
    from IMTreatment.pod import modal_decomposition
    return modal_decomposition(tf, kind="pod", verbose=False, **kw)


def coefs(n, m, k):
    """full rank coefficients"""
    return [[((i + 1)*(j + 2)*(i + j + k) % 5) - 2. + (i == j)
             for j in range(m)] for i in range(n)]


def wellformed(mf, D):
    """orthonormal modes, sorted energies, consistent evolutions"""
    n = len(mf.modes)
    M = np.array([comps(m).ravel() for m in mf.modes])
    F = (D - D.mean(axis=0)).reshape(len(D), -1)
    expect(near(M @ M.T, np.eye(n)), "modes not orthonormal",
           lambda: (M @ M.T).tolist())
    ev = np.asarray(mf.eigvals.y, float)
    expect(np.all(ev >= 0) and np.all(np.diff(ev) <= 1e-9*ev[0]),
           "energies not sorted", lambda: ev)
    expect(len(mf.temp_evo) == n and len(ev) == n, "number of modes")
    A = np.array([p.y for p in mf.temp_evo])
    expect(near(A, M @ F.T), "temporal evolution is not the projection",
           lambda: (A.tolist(), (M @ F.T).tolist()))
    expect(near(np.sum(A**2, axis=1), ev), "energy of the evolutions",
           lambda: (np.sum(A**2, axis=1), ev))
    G = A @ A.T
    expect(near(G - np.diag(np.diag(G)), 0*G, np.abs(G).max()),
           "evolutions not orthogonal", lambda: G.tolist())
    return M, F, ev, A


def whole(ck):
    for (gn, ax, ay), kind, n, k, tms in itertools.product(
            GRIDS, ("tsf", "tvf"), (2, 3, 4, 5), (0, 1, 2), ("even",
                                                            "uneven")):
        times = np.arange(n)*.5 if tms == "even" else np.arange(n)**2 + 1.
        for units in (UNITS, ("", "", "", ""), ("km", "m", "kg", "ms")):
            def fn():
                tf, D = series(kind, ax, ay, coefs(n, 4, k), times, *units)
                snap = fm.snap(tf)
                mf = decompose(tf)
                expect(fm.snap(tf) == snap, "series modified")
                M, F, ev, A = wellformed(mf, D)
                expect(near(np.sum(ev), np.sum(F**2)), "total energy",
                       lambda: (np.sum(ev), np.sum(F**2)))
                expect(near(comps(mf.mean_field), D.mean(axis=0)),
                       "mean field")
                for p in mf.temp_evo:
                    expect(near(p.x, times), "times of an evolution")
                for m in mf.modes:
                    expect(near(m.axe_x, ax) and near(m.axe_y, ay),
                           "grid of a mode")
                rec = mf.reconstruct()
                expect(rec.__class__ is tf.__class__, "class",
                       lambda: rec.__class__)
                same_frame(rec, ax, ay, times, units)
                expect(near(data_of(rec), D), "reconstruction",
                       lambda: (data_of(rec).tolist(), D.tolist()))
                expect(not np.any(rec.mask), "mask")
            ck.case("whole|%s|%s" % (kind, tms),
                    "%s %s, %d fields (%d), units %s" % (gn, kind, n, k,
                                                         units), fn,
                    state=("whole", gn, kind, n, k, tms, units))


def rank(ck):
    """every series of 3 fields made of two patterns"""
    gn, ax, ay = GRIDS[0]
    vals = (0., 1., -2.) if not ck.thorough else (0., 1., -2., .5)
    for kind in ("tsf", "tvf"):
        for c in itertools.product(vals, repeat=6):
            cs = [c[0:2], c[2:4], c[4:6]]

            def fn():
                tf, D = series(kind, ax, ay, cs, [0., 1., 3.])
                F = (D - D.mean(axis=0)).reshape(3, -1)
                r = np.linalg.matrix_rank(F, tol=1e-9)
                if r == 0:
                    return "steady"
                mf = decompose(tf)
                expect(len(mf.modes) >= r, "number of modes",
                       lambda: (len(mf.modes), r))
                wellformed(mf, D)
                expect(near(data_of(mf.reconstruct()), D), "reconstruction",
                       lambda: (data_of(mf.reconstruct()).tolist(),
                                D.tolist()))
                return len(mf.modes)
            ck.case("rank|" + kind, "%s %s" % (kind, cs), fn,
                    state=("rank", kind, c))


def build(kind, n=4, k=1, grid=0, mask=None):
    gn, ax, ay = GRIDS[grid]
    times = np.array([0., .5, 1.5, 2., 4.])[:n]
    tf, D = series(kind, ax, ay, coefs(n, 4, k), times, mask=mask)
    return tf, D, ax, ay, times


def partial(M, D, inds, A):
    R = np.array([D.mean(axis=0)]*len(D)).astype(float)
    for j in inds:
        R += (A[j][:, None]*M[j][None]).reshape(D.shape)
    return R


def modes(ck):
    """reconstruction with some of the modes, or at other times"""
    for kind, n, k, g in itertools.product(("tsf", "tvf"), (3, 4, 5), (1, 2),
                                           (0, 1)):
        tf, D, ax, ay, times = build(kind, n, k, g)
        for sub in itertools.chain(range(0, n), *[
                itertools.combinations(range(n - 1), j)
                for j in range(1, n)]):
            def fn():
                mf = decompose(tf)
                M, F, ev, A = wellformed(mf, D)
                nm = len(mf.modes)
                inds = range(sub) if isinstance(sub, int) else sub
                if any(i >= nm for i in inds):
                    return "absent"
                rec = mf.reconstruct(sub if isinstance(sub, int)
                                     else list(sub))
                same_frame(rec, ax, ay, times, UNITS)
                want = partial(M, D, inds, A)
                expect(near(data_of(rec), want), "partial reconstruction",
                       lambda: (data_of(rec).tolist(), want.tolist()))
                err = np.sum((data_of(rec) - D)**2)
                rest = sum(ev[i] for i in range(nm) if i not in inds)
                expect(near(err, rest, np.sum(F**2)), "energy left",
                       lambda: (err, rest))
            ck.case("modes|%s" % kind, "%s %d fields (%d) modes %s" % (
                kind, n, k, sub), fn, state=("modes", kind, n, k, g, sub))

            def fn():
                # only some modes computed
                inds = list(range(sub)) if isinstance(sub, int) else sub
                if not inds:
                    return "none"
                full = decompose(tf)
                if any(i >= len(full.modes) for i in inds):
                    return "absent"
                mf = decompose(tf, wanted_modes=sub if isinstance(sub, int)
                               else list(sub))
                expect(len(mf.modes) == len(inds), "number of modes",
                       lambda: (len(mf.modes), inds))
                expect(list(mf.modes_nmb) == list(inds), "mode numbers",
                       lambda: (mf.modes_nmb, inds))
                a, b = mf.reconstruct(), full.reconstruct(list(inds))
                expect(near(data_of(a), data_of(b)), "wanted modes",
                       lambda: (data_of(a).tolist(), data_of(b).tolist()))
                expect(near(mf.eigvals.y, [full.eigvals.y[i] for i in inds]),
                       "energies of the wanted modes",
                       lambda: (mf.eigvals.y, full.eigvals.y))
            ck.case("wanted modes|%s" % kind, "%s %d fields (%d) modes %s" % (
                kind, n, k, sub), fn, state=("wanted", kind, n, k, g, sub))
        for ts in itertools.chain.from_iterable(
                itertools.combinations(np.concatenate((
                    times, [.25, 1.])), j) for j in (1, 2)):
            ts = sorted(ts)
            if ts[-1] > times[-1]:
                continue

            def fn():
                mf = decompose(tf)
                rec = mf.reconstruct(times=ts)
                same_frame(rec, ax, ay, ts, UNITS)
                want = np.array([[[[np.interp(t, times, D[:, a, b, c])
                                    for c in range(D.shape[3])]
                                   for b in range(D.shape[2])]
                                  for a in range(D.shape[1])] for t in ts])
                expect(near(data_of(rec), want), "fields at given times",
                       lambda: (ts, data_of(rec).tolist(), want.tolist()))
            ck.case("times|%s" % kind, "%s %d fields (%d) at %s" % (
                kind, n, k, ts), fn, state=("times", kind, n, k, g,
                                            tuple(ts)))
        for ts in ([times[-1] + 1.], [-.5, 0.]):
            def fn():
                mf = decompose(tf)
                try:
                    mf.reconstruct(times=ts)
                except ValueError:
                    pass
                else:
                    expect(False, "times out of the series accepted")
            ck.case("times|refused", "%s at %s" % (kind, ts), fn,
                    state=("badtimes", kind, n, k, g, tuple(ts)))


def msnap(mf):
    return repr((fm.snap(mf.mean_field), [fm.snap(m) for m in mf.modes],
                 [fm.snap(p) for p in mf.temp_evo], list(mf.times),
                 list(mf.axe_x), list(mf.axe_y), fm.snap(mf.eigvals),
                 mf.eigvects.tolist(), list(mf.modes_nmb), str(mf.unit_x),
                 str(mf.unit_y), str(mf.unit_values), str(mf.unit_times)))


def both(mf, call):
    """result of the operation, on a copy and in place"""
    before = msnap(mf)
    new = call(mf, inplace=False)
    expect(new is not None and new is not mf, "no result")
    expect(msnap(mf) == before, "source modified")
    cp = mf.copy()
    expect(msnap(cp) == before, "copy differs")
    r = call(cp, inplace=True)
    expect(r is None, "result of an in place operation")
    expect(msnap(cp) == msnap(new), "in place result differs")
    expect(msnap(mf) == before, "copy shares data")
    return new


def base(ck):
    """choice of modes in a base"""
    for kind, n, k in itertools.product(("tsf", "tvf"), (4, 5), (1, 2)):
        tf, D, ax, ay, times = build(kind, n, k)
        nm = n - 1
        jobs = []
        for j in range(1, nm + 1):
            jobs.append((dict(modes_to_keep=j), list(range(j))))
            for s in itertools.combinations(range(nm), j):
                jobs.append((dict(modes_to_keep=list(s)), list(s)))
        for j in range(1, nm):
            jobs.append((dict(modes_to_remove=j), list(range(nm - j))))
            for s in itertools.combinations(range(nm), j):
                jobs.append((dict(modes_to_remove=list(s)),
                             [i for i in range(nm) if i not in s]))
        for kw, keep in jobs:
            def fn():
                mf = decompose(tf)
                if len(mf.modes) != nm:
                    return "rank"
                want = mf.reconstruct(keep)
                new = both(mf, lambda m, inplace: m.crop_modal_base(
                    inplace=inplace, **kw))
                expect(len(new.modes) == len(keep) == len(new.temp_evo)
                       == len(new.eigvals) == len(new.modes_nmb),
                       "number of modes", lambda: (len(new.modes), keep))
                expect(near(data_of(new.reconstruct()), data_of(want)),
                       "reconstruction")
                expect(near(new.eigvals.y, [mf.eigvals.y[i] for i in keep]),
                       "energies", lambda: (new.eigvals.y, mf.eigvals.y))
                expect(near(new.eigvects, mf.eigvects[:, keep]),
                       "eigenvectors", lambda: (new.eigvects.tolist(),
                                                mf.eigvects.tolist()))
                expect(near(new.get_modes_energy(raw=True),
                            mf.get_modes_energy(raw=True)[keep]),
                       "modes energy")
            ck.case("base|%s" % list(kw)[0], "%s %d fields (%d) %s" % (
                kind, n, k, kw), fn, state=("base", kind, n, k, str(kw)))


def crops(ck):
    for kind, g in itertools.product(("tsf", "tvf"), (0, 1)):
        tf, D, ax, ay, times = build(kind, 5, 1, g)
        ivx = [None] + [list(p) for p in itertools.combinations(ax, 2)]
        ivy = [None] + [list(p) for p in itertools.combinations(ay, 2)]
        ivt = [None] + [list(p) for p in itertools.combinations(
            list(times) + [.25, 3.], 2) if p[0] < p[1]]
        for ix, iy, it in itertools.product(ivx, ivy, ivt):
            if sum(v is not None for v in (ix, iy, it)) not in (1, 2):
                continue
            st = [t for t in times if it is None or it[0] <= t <= it[1]]
            if len(st) < 2:
                continue
            jobs = [(dict(intervx=ix, intervy=iy, intervt=it), "")]

            def idx(axe, iv):
                k = [i for i, v in enumerate(axe) if iv is None
                     or iv[0] <= v <= iv[1]]
                return k

            kx, ky, kt = idx(ax, ix), idx(ay, iy), idx(times, it)
            jobs.append((dict(
                intervx=None if ix is None else [kx[0], kx[-1]],
                intervy=None if iy is None else [ky[0], ky[-1]],
                intervt=None if it is None else [kt[0], kt[-1] + 1],
                ind=True), "ind"))
            for kw, nm in jobs:
                def fn():
                    mf = decompose(tf)
                    new = both(mf, lambda m, inplace: m.crop(
                        inplace=inplace, **kw))
                    # same result as a crop of the reconstruction
                    want = D[kt][:, :, kx][:, :, :, ky]
                    rec = new.reconstruct()
                    same_frame(rec, ax[kx], ay[ky], times[kt], UNITS)
                    expect(near(data_of(rec), want), "cropped base",
                           lambda: (data_of(rec).tolist(), want.tolist()))
                    expect(near(new.axe_x, ax[kx]) and near(
                        new.axe_y, ay[ky]) and near(new.times, times[kt]),
                        "axes of the base", lambda: (new.axe_x, new.axe_y,
                                                     new.times))
                ck.case("crop|%s" % nm, "%s %s" % (kind, kw), fn,
                        state=("crop", kind, g, str(kw)))


def scales(ck):
    for kind, sx, sy, st, sv in itertools.product(
            ("tsf", "tvf"), (1., 2., ("s", .5)), (1., .5, ("kg", 2.)),
            (1., 4., ("m", .5)), (1., -2., ("kg", 3.))):
        def fn():
            tf, D, ax, ay, times = build(kind, 4, 1, 1)
            mf = decompose(tf)

            def val(v):
                return v[1]*fm.U(v[0]) if isinstance(v, tuple) else v

            def num(v):
                return v[1] if isinstance(v, tuple) else v

            def unit(u, v):
                return fm.U(u)*fm.U(v[0]) if isinstance(v, tuple) else fm.U(u)
            new = both(mf, lambda m, inplace: m.scale(
                scalex=val(sx), scaley=val(sy), scalet=val(st),
                scalev=val(sv), inplace=inplace))
            rec = new.reconstruct()
            expect(near(rec.axe_x, ax*num(sx)) and near(rec.axe_y,
                                                        ay*num(sy)),
                   "axes", lambda: (rec.axe_x, rec.axe_y))
            expect(near(rec.times, times*num(st)), "times",
                   lambda: rec.times)
            expect(near(data_of(rec), D*num(sv)), "values",
                   lambda: (data_of(rec).tolist(), (D*num(sv)).tolist()))
            for o, n, w in ((rec, "unit_x", unit("m", sx)),
                            (rec, "unit_y", unit("mm", sy)),
                            (rec, "unit_times", unit("s", st)),
                            (rec, "unit_values", unit("m/s", sv))):
                expect(fm.same_unit(getattr(o, n), w), "units",
                       lambda: (n, str(getattr(o, n)), str(w)))
        ck.case("scale|" + kind, "%s" % ((sx, sy, st, sv),), fn,
                state=("scale", kind, str((sx, sy, st, sv))))


def finer(ck):
    """temporal resolution, smoothing"""
    for kind, fact, k in itertools.product(("tsf", "tvf"), (1, 2, 3, 4),
                                           (1, 2)):
        def fn():
            tf, D, ax, ay, times = build(kind, 5, k)
            tm = np.arange(5)*.5
            for i, t in enumerate(tm):
                tf.times[i] = t
            mf = decompose(tf)
            new = both(mf, lambda m, inplace: m.augment_temporal_resolution(
                fact=fact, inplace=inplace))
            rec = new.reconstruct()
            expect(near(rec.times, new.times), "times")
            expect(len(new.times) >= fact*4, "number of times",
                   lambda: new.times)
            expect(near(new.times[0], tm[0]) and near(new.times[-1],
                                                      tm[-1]), "range",
                   lambda: new.times)
            R = data_of(rec)
            for i, t in enumerate(rec.times):
                want = np.array([np.interp(t, tm, D.reshape(5, -1)[:, j])
                                 for j in range(D[0].size)])
                expect(near(R[i].ravel(), want), "interpolated field",
                       lambda: (t, R[i].tolist(), want.tolist()))
        ck.case("resolution|" + kind, "%s x%d (%d)" % (kind, fact, k), fn,
                state=("finer", kind, fact, k))
    for kind, tos, size, what in itertools.product(
            ("tsf", "tvf"), ("uniform", "gaussian"), (None, 1, 2),
            ("temporal", "spatial")):
        def fn():
            tf, D, ax, ay, times = build(kind, 5, 1)
            mf = decompose(tf)
            new = both(mf, lambda m, inplace: getattr(
                m, "smooth_%s_evolutions" % what)(tos=tos, size=size,
                                                  inplace=inplace))
            kw = {} if size is None else dict(size=size)
            for a, b, c, d in zip(mf.temp_evo, new.temp_evo, mf.modes,
                                  new.modes):
                if what == "temporal":
                    a = a.smooth(tos=tos, inplace=False, **kw)
                else:
                    c = c.smooth(tos=tos, inplace=False, **kw)
                expect(near(a.y, b.y) and near(a.x, b.x), "evolutions",
                       lambda: (a.y, b.y))
                expect(near(comps(c), comps(d)), "modes")
        ck.case("smooth|" + what, "%s %s %s" % (kind, tos, size), fn,
                state=("smooth", kind, tos, size, what))


def masks(ck):
    """masked points are filled, the others are exact"""
    gn, ax, ay = GRIDS[0]
    for kind, cell in itertools.product(
            ("tsf", "tvf"), itertools.product(range(3), range(3))):
        for everywhere in (True, False):
            def fn():
                tf, D, ax, ay, times = build(kind, 4, 1)
                m = np.zeros((3, 3), bool)
                m[cell] = True
                for i, f in enumerate(tf.fields):
                    if everywhere or i == 1:
                        f.mask = m
                snap = fm.snap(tf)
                mf = decompose(tf)
                expect(fm.snap(tf) == snap, "series modified")
                rec = mf.reconstruct()
                same_frame(rec, ax, ay, times, UNITS)
                R = data_of(rec)
                for i in range(4):
                    ok = ~m if everywhere or i == 1 else ~(m & False)
                    a = R[i][:, ok]
                    b = D[i][:, ok]
                    expect(near(a, b), "values of valid points",
                           lambda: (i, a.tolist(), b.tolist()))
                expect(np.all(np.isfinite(R[:, :, ~np.any(
                    rec.mask, axis=0)])), "values not finite")
            if cell != (1, 1):
                # a masked corner can not be interpolated
                continue
            ck.case("mask|" + kind, "%s masked %s (%s)" % (
                kind, cell, "always" if everywhere else "once"), fn,
                state=("mask", kind, cell, everywhere))
    for kind in ("tsf", "tvf"):
        def fn():
            tf, D, ax, ay, times = build(kind, 4, 1)
            m = np.zeros((3, 3), bool)
            m[0, :] = True
            for f in tf.fields:
                f.mask = m
            rec = decompose(tf).reconstruct()
            same_frame(rec, ax[1:], ay, times, UNITS)
            expect(near(data_of(rec), D[:, :, 1:, :]), "border",
                   lambda: data_of(rec).tolist())
        ck.case("mask|border|" + kind, "masked column", fn,
                state=("border", kind))


def reads(ck):
    """energies and coherences"""
    for kind, n, k, g in itertools.product(("tsf", "tvf"), (4, 5), (1, 2),
                                           (0, 1)):
        def fn():
            tf, D, ax, ay, times = build(kind, n, k, g)
            mf = decompose(tf)
            M, F, ev, A = wellformed(mf, D)
            before = msnap(mf)
            e = mf.get_modes_energy(raw=True)
            npts = len(ax)*len(ay)
            want = .5*ev/n/npts
            expect(near(e, want), "modes energy", lambda: (e, want))
            c = mf.get_modes_energy(cum=True)
            expect(near(c.y, np.cumsum(want)), "cumulated energy",
                   lambda: c.y)
            expect(fm.same_unit(c.unit_y, fm.U("m/s")**2), "energy unit",
                   lambda: str(c.unit_y))
            for f in ("get_temporal_coherence", "get_spatial_coherence"):
                r1 = getattr(mf, f)(raw=True)
                r2 = getattr(mf, f)(raw=True)
                expect(np.array_equal(r1, r2), "coherence changes")
                expect(len(r1) == len(mf.modes), "number of coherences")
            expect(msnap(mf) == before, "reading modifies the base")
            ms = mf.modes_as_tf
            expect(len(ms.fields) == len(mf.modes) and all(
                near(comps(a), comps(b)) for a, b in zip(ms.fields,
                                                         mf.modes)),
                "modes as a series")
            for f in ms.fields:
                f.scale(scalev=2., inplace=True)
            expect(msnap(mf) == before, "series of modes shared")
        ck.case("reads|" + kind, "%s %d fields (%d)" % (kind, n, k), fn,
                state=("reads", kind, n, k, g))
