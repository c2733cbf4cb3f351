"""C28: spectra, correlations, statistics and fits of profiles, fields and
points against direct definitions."""
import cmath
import itertools
import math

import numpy as np

from mc.core import Mismatch, expect
from mc import fm
from mc.fm import U, NAN
from checks.c09 import refused


def run(ck):
    spectra(ck)
    spatial(ck)
    filtering(ck)
    correlation(ck)
    convolution(ck)
    phase(ck)
    distributions(ck)
    histogram(ck)
    fits(ck)
    marginal(ck)
    extrema(ck)
    zones(ck)
    clusters(ck)
    on_series(ck)
    wavelet(ck)


def P(x, y, mask=None, ux="s", uy="m/s"):
    from IMTreatment import Profile
    if mask is None:
        mask = np.zeros(len(x), bool)
    return Profile(np.array(x, float), np.array(y, float),
                   mask=np.array(mask, bool), unit_x=U(ux), unit_y=U(uy))


def isprof(p, what=""):
    from IMTreatment import Profile
    expect(isinstance(p, Profile), "not a profile" + what,
           lambda: repr(type(p)))
    expect(len(p.x) == len(p.y) == len(p.mask), "lengths" + what)


def same(p, x, y, ux, uy, what="", rtol=1e-8, atol=1e-10):
    isprof(p, what)
    expect(len(p.x) == len(x), "number of points" + what,
           lambda: (np.asarray(p.x).tolist(), list(x)))
    expect(fm.close(np.asarray(p.x, float), np.asarray(x, float), rtol, atol),
           "x" + what, lambda: (np.asarray(p.x).tolist(), list(x)))
    expect(fm.close(np.asarray(p.y, float), np.asarray(y, float), rtol, atol),
           "y" + what, lambda: (np.asarray(p.y).tolist(), list(y)))
    expect(np.array_equal(np.asarray(p.mask, bool), np.isnan(y)),
           "mask" + what)
    expect(fm.same_unit(p.unit_x, ux), "x unit" + what,
           lambda: (str(p.unit_x), str(ux)))
    expect(fm.same_unit(p.unit_y, uy), "y unit" + what,
           lambda: (str(p.unit_y), str(uy)))


# signals: all the words over a small alphabet + harmonics
def signals(ck, n):
    al = (0., 1., -2.) if n <= 5 or ck.thorough else (0., 1.)
    if n > 6:
        al = (0., 1.)
    for w in itertools.product(al, repeat=n):
        yield "word", np.array(w)


def harmonics(n):
    k = np.arange(n)
    for f in range(0, n//2 + 1):
        for a in (1., 3.):
            yield "cos{}".format(f), a*np.cos(2*np.pi*f*k/n) + .5
            if 0 < f:
                yield "sin{}".format(f), a*np.sin(2*np.pi*f*k/n)


def detrended(y):
    n = len(y)
    t = np.arange(n) - (n - 1)/2.
    d = (t*t).sum()
    s = (t*y).sum()/d if d else 0.
    return y - y.mean() - s*t


def dft(y):
    n = len(y)
    k = np.arange(n)
    return np.array([(y*np.exp(-2j*np.pi*k*f/n)).sum()
                     for f in range(n//2 + 1)])


def one_sided(n):
    c = np.full(n//2 + 1, 2.)
    c[0] = 1.
    if n % 2 == 0:
        c[-1] = 1.
    return c


def spectrum(y, dx, scaling, seg=None):
    """the periodogram (Welch: segments half overlapping, Hann windows)"""
    n = len(y)
    fs = 1./dx
    y = y - y.mean()
    if seg is None or seg >= n:
        s = np.abs(dft(detrended(y)))**2*one_sided(n)
        s = s/(fs*n) if scaling == "density" else s/n**2
        f = np.arange(n//2 + 1)*fs/n
    else:
        w = .5 - .5*np.cos(2*np.pi*np.arange(seg)/seg)
        step = seg - seg//2
        acc = []
        for b in range(0, n - seg + 1, step):
            z = y[b:b + seg]
            z = (z - z.mean())*w
            acc.append(np.abs(dft(z))**2*one_sided(seg))
        s = np.mean(acc, axis=0)
        s = s/(fs*(w*w).sum()) if scaling == "density" else s/w.sum()**2
        f = np.arange(seg//2 + 1)*fs/seg
    if scaling == "base":
        s = np.sqrt(s)
    return f, s


def spec_unit(uy, ux, scaling):
    return {"base": uy, "spectrum": uy**2, "density": uy**2*ux}[scaling]


def spectra(ck):
    for n in ((4, 5, 6, 8) if ck.thorough else (4, 5, 6)):
        for x0, dx in ((0., 1.), (-1.5, .5), (2., .25)):
            x = x0 + dx*np.arange(n)
            for nm, y in itertools.chain(signals(ck, n), harmonics(n)):
                if (x0, dx) != (0., 1.) and nm == "word" and not ck.thorough \
                        and n > 4:
                    continue
                for sc in ("base", "spectrum", "density"):
                    for seg in sorted({3, 4, n, n + 1}) + [None]:
                        if seg is not None and seg > n and sc != "base":
                            continue

                        def fn(x=x, y=y, dx=dx, sc=sc, seg=seg):
                            p = P(x, y)
                            g = p.get_spectrum(scaling=sc, welch_seglen=seg)
                            f, s = spectrum(y, dx, sc, seg)
                            tol = 1e-7 if sc == "base" else 1e-10
                            same(g, f, s, 1/U("s"),
                                 spec_unit(U("m/s"), U("s"), sc), atol=tol)
                        ck.case("spectrum|{}|{}".format(
                            sc, "welch" if seg else "whole"),
                            (nm, y.tolist(), x0, dx, seg), fn)
    # missing values: as if filled first
    n = 5
    x = np.arange(n)*.5
    for mask in itertools.product([False, True], repeat=n):
        if sum(mask) > n - 2:
            continue
        for y in (np.array([1., 3., -2., 4., 0.]),
                  np.array([0., 1., 5., 2., 2.])):
            for fill in ("linear", "nearest", 0., 2.5):
                if isinstance(fill, str) and (mask[0] or mask[-1]):
                    continue

                def fn(mask=mask, y=y, fill=fill):
                    p = P(x, np.where(mask, 7777., y), mask)
                    g = p.get_spectrum(fill=fill)
                    k = ~np.array(mask)
                    if fill == "linear":
                        yy = np.interp(x, x[k], y[k])
                    elif fill == "nearest":
                        yy = np.array(P(x, y, mask).fill("nearest").y)
                    else:
                        yy = np.where(mask, fill, y)
                    f, s = spectrum(yy, .5, "base")
                    same(g, f, s, 1/U("s"), U("m/s"), atol=1e-7)
                ck.case("spectrum|filled|{}".format(fill),
                        (fm.mdesc(np.array(mask)), y.tolist()), fn)
    # a sub-interval
    for n in (5, 6):
        x = np.arange(n)*.5
        y = np.array([1., 3., -2., 4., 0., 2.])[:n]
        for a, b in itertools.combinations(range(n), 2):
            if b - a < 2:
                continue

            def fn(x=x, y=y, a=a, b=b):
                p = P(x, y)
                for iv in ([x[a], x[b]], [x[a] - .1, x[b] + .1]):
                    g = p.get_spectrum(wanted_x=iv)
                    f, s = spectrum(y[a:b + 1], .5, "base")
                    same(g, f, s, 1/U("s"), U("m/s"), atol=1e-7)
            ck.case("spectrum|interval", (n, a, b), fn)


def spatial(ck):
    """spatial spectrum / autocorrelation: average over the lines"""
    for gx, gy in (("a4", "a5"), ("b3", "a4"), ("a4", "b3"), ("a5", "a4")):
        ax = np.array(fm.AXES[gx], float)
        ay = np.array(fm.AXES[gy], float)
        shape = (len(ax), len(ay))
        for k in range(6 if ck.thorough else 3):
            v = fm.vals(shape, k)
            for dire in "xy":
                a, other = (ax, ay) if dire == "x" else (ay, ax)
                lines = v.T if dire == "x" else v
                for sc in ("base", "spectrum", "density"):
                    for seg in (None, 3):
                        if seg is not None and seg >= len(a):
                            continue

                        def fn(gx=gx, gy=gy, v=v, dire=dire, sc=sc, a=a,
                               lines=lines, seg=seg):
                            m = fm.mk("s", gx, gy, ux="mm", uy="s", uv="K")
                            m.comps[0][...] = v
                            s = m.real()
                            g = s.get_spatial_spectrum(dire, scaling=sc,
                                                       welch_seglen=seg)
                            d = a[1] - a[0]
                            r = [spectrum(l, d, sc, seg) for l in lines]
                            ua = U("mm") if dire == "x" else U("s")
                            same(g, r[0][0], np.mean([q[1] for q in r],
                                                     axis=0),
                                 1/ua, spec_unit(U("K"), ua, sc), atol=1e-7)
                        ck.case("spatial spectrum|" + dire,
                                (gx, gy, k, sc, seg), fn)
                # sub-domain
                for ia, ib in itertools.combinations(range(len(other)), 2):
                    def fn(gx=gx, gy=gy, v=v, dire=dire, ia=ia, ib=ib,
                           other=other, a=a, lines=lines):
                        m = fm.mk("s", gx, gy, ux="mm", uy="s", uv="K")
                        m.comps[0][...] = v
                        s = m.real()
                        kw = {"intervy" if dire == "x" else "intervx":
                              [other[ia], other[ib]]}
                        g = s.get_spatial_spectrum(dire, **kw)
                        d = a[1] - a[0]
                        r = [spectrum(l, d, "base")
                             for l in lines[ia:ib + 1]]
                        ua = U("mm") if dire == "x" else U("s")
                        same(g, r[0][0], np.mean([q[1] for q in r], axis=0),
                             1/ua, U("K"), atol=1e-7)
                    ck.case("spatial spectrum|part|" + dire,
                            (gx, gy, k, ia, ib), fn)
                # autocorrelation
                for w in [None] + list(range(1, len(a) - 1)):
                    def fn(gx=gx, gy=gy, v=v, dire=dire, w=w, a=a,
                           lines=lines):
                        m = fm.mk("s", gx, gy, ux="mm", uy="s", uv="K")
                        m.comps[0][...] = v
                        g = m.real().get_spatial_autocorrelation(dire, w)
                        ww = len(a) - 2 if w is None else w
                        d = a[1] - a[0]
                        ua = U("mm") if dire == "x" else U("s")
                        full, part = [np.mean([autocorr(l, ww, last)
                                               for l in lines], axis=0)
                                      for last in (0, 1)]
                        same(g, d*np.arange(len(full)), g.y, ua, U(""))
                        expect(fm.close(g.y, full) or fm.close(g.y, part),
                               "definition", lambda: (g.y.tolist(),
                                                      full.tolist()))
                        expect(fm.close(g.y, full), "last window ignored")
                    ck.case("spatial autocorrelation|" + dire,
                            (gx, gy, k, w), fn)


def autocorr(y, w, last):
    """the average over the windows centred on each possible point (the
    library leaves the last possible centre out: last=1)"""
    h = w//2
    n = len(y)
    num = np.zeros(2*h + 1)
    den = 0.
    for i in range(h, n - h - last):
        num += y[i]*y[i - h:i + h + 1]
        den += y[i]**2
    return num/den


def correlation(ck):
    for n in (4, 5, 6):
        for x0, dx in ((0., 1.), (-1.5, .5), (1., .1)):
            x = x0 + dx*np.arange(n)
            for y in itertools.product((1., 2., -1.), repeat=n):
                y = np.array(y)
                if not ck.thorough and n == 6 and (x0, dx) != (0., 1.):
                    continue
                for w in range(1, n - 1):
                    def fn(x=x, y=y, w=w, dx=dx):
                        p = P(x, y)
                        g = p.get_auto_correlation(w)
                        isprof(g)
                        h = w//2
                        full = autocorr(y, w, 0)
                        part = autocorr(y, w, 1)
                        isprof(g)
                        expect(fm.close(g.y[h], 1.), "central value not 1")
                        raw = p.get_auto_correlation(w, raw=True)
                        expect(fm.close(np.asarray(raw), g.y), "raw differs")
                        same(g, dx*np.arange(2*h + 1), g.y, U("s"), U(""))
                        q = P(x, -3*y).get_auto_correlation(w)
                        expect(fm.close(q.y, g.y), "depends on the amplitude")
                        expect(fm.close(g.y, full) or fm.close(g.y, part),
                               "definition", lambda: (
                                   g.y.tolist(), full.tolist()))
                        expect(fm.close(g.y, full), "last window ignored")
                    ck.case("autocorrelation", (y.tolist(), x0, dx, w), fn)
        y = np.arange(n) + 1.
        for w in (n - 1, n, n + 3):
            ck.case("autocorrelation|refused", (n, w), lambda n=n, w=w:
                    refused(lambda: P(np.arange(n), np.arange(n) + 1.)
                            .get_auto_correlation(w)))


def convolution(ck):
    al = (0., 1., -2.)
    for n, m in ((2, 2), (3, 2), (2, 3), (3, 3), (4, 2)):
        for x0, dx in ((0., 1.), (-5., 1.), (-1.5, .5), (1., .1), (0., .1)):
            for a in itertools.product(al, repeat=n):
                for b in itertools.product((0., 1., 3.), repeat=m):
                    if not ck.thorough and (sum(map(abs, a)) + sum(b)) % 2:
                        continue
                    for mode in ("full", "same", "valid"):
                        def fn(a=a, b=b, mode=mode, x0=x0, dx=dx):
                            xa = dx*np.arange(len(a)) + x0
                            xb = dx*np.arange(len(b)) + x0
                            if xa[1] - xa[0] != xb[1] - xb[0]:
                                return
                            pa = P(xa, a)
                            pb = P(xb, b, uy="kg")
                            g = pa.get_convolution(pb, mode=mode)
                            n, m = len(a), len(b)
                            r = np.zeros(n + m - 1)
                            for i in range(n):
                                for j in range(m):
                                    r[i + j] += a[i]*b[j]
                            big, small = max(n, m), min(n, m)
                            if mode == "valid":
                                r = r[small - 1:big]
                            elif mode == "same":
                                o = (small - 1)//2
                                r = r[o:o + big]
                            same(g, dx*np.arange(len(r)), r, U("s"),
                                 U("m/s")*U("kg"))
                        ck.case("convolution|" + mode, (a, b, x0, dx), fn)
    for nm, xa, xb, ua in (
            ("uneven", [0., 1., 2.5], [0., 1., 2.], "s"),
            ("uneven other", [0., 1., 2.], [0., 1., 2.5], "s"),
            ("other step", [0., 1., 2.], [0., .5, 1.], "s"),
            ("other unit", [0., 1., 2.], [0., 1., 2.], "m"),
            ("uneven, decreasing steps", [0., 1., 1.5], [0., 1., 2.], "s"),
            ("uneven other, decreasing steps", [0., 1., 2.], [0., 1., 1.5],
             "s")):
        ck.case("convolution|refused", nm, lambda xa=xa, xb=xb, ua=ua: refused(
            lambda: P(xa, [1., 2., 3.]).get_convolution(
                P(xb, [1., 2., 3.], ux=ua))))


def phase(ck):
    """a piece of a profile, displaced, is found back where it was"""
    for n, words in ((6, 3), (7, 3)):
        for y in itertools.product((1., 2., 5.), repeat=n):
            y = np.array(y)
            if not ck.thorough and int(y.sum()) % 3:
                continue
            for ln in (3, 4):
                for s in range(0, n - ln + 1):
                    piece = y[s:s + ln]
                    # found once only
                    if sum(np.array_equal(y[t:t + ln], piece)
                           for t in range(n - ln + 1)) > 1:
                        continue
                    for dx, dep in ((1., 0.), (.5, 2.), (1., -3.)):
                        def fn(y=y, s=s, ln=ln, piece=piece, dx=dx, dep=dep,
                               n=n):
                            x = dx*np.arange(n)
                            big = P(x, y)
                            small = P(x[s:s + ln] + dep, piece)
                            d = small.get_dephasage(big)
                            expect(fm.close(d, -dep), "displacement",
                                   lambda: (float(d), -dep))
                        ck.case("dephasage", (y.tolist(), ln, s, dx, dep), fn)
    # the mean absolute difference for each shift
    n, m = 3, 4
    for a in itertools.product((0., 1., 3.), repeat=n):
        for b in itertools.product((1., 2.), repeat=m):
            for mask in itertools.product([False, True], repeat=n):
                if not ck.thorough and sum(mask) > 1:
                    continue

                def fn(a=a, b=b, mask=mask):
                    pa = P(np.arange(n), a, mask)
                    pb = P(np.arange(m) + 1., b)
                    for norm in (True, False):
                        g = pa.get_convolution_of_difference(
                            pb, normalized=norm)
                        pad = [0.]*(n - 1) + list(b) + [0.]*(n - 1)
                        r = []
                        for i in range(n + m - 1):
                            d = [(abs(pad[i + j] - a[j]), abs(pad[i + j]))
                                 for j in range(n) if not mask[j]]
                            if not d:
                                r.append(NAN)
                                continue
                            v = sum(q[0] for q in d)
                            w = sum(q[1] for q in d)
                            if norm:
                                r.append(v/w if w else NAN)
                            else:
                                r.append(v/len(d))
                        # shift: displacement that brings pa over pb
                        x = [pb.x[0] - pa.x[n - 1] + i
                             for i in range(n + m - 1)]
                        same(g, x, np.array(r), U("s"), U("m/s"))
                ck.case("convolution of difference",
                        (a, b, fm.mdesc(np.array(mask))), fn)


def filtering(ck):
    for n in ((8, 12) if ck.thorough else (8,)):
        for dx in (1., .5):
            x = dx*np.arange(n)
            words = list(itertools.product((0., 1.), repeat=n))[::
                                                               1 if n == 8
                                                               else 37]
            fs = n/(x[-1] - x[0])
            fs2 = 1/dx
            for y in words:
                y = np.array(y)

                def fn(x=x, y=y, dx=dx):
                    lo, hi = .1/dx, .3/dx
                    for kw in (dict(fmin=lo, fmax=hi),
                               dict(fmin=lo, fmax=hi, order=1),
                               dict(fmin=lo), dict(fmax=hi)):
                        g = P(x, y).spectral_filtering(**kw)
                        isprof(g)
                        expect(fm.close(g.x, x), "x")
                        expect(fm.same_unit(g.unit_x, U("s")) and
                               fm.same_unit(g.unit_y, U("m/s")), "units")
                        g2 = P(x, 3*y + 2).spectral_filtering(**kw)
                        expect(fm.close(g2.y, 3*g.y + 2, 1e-7, 1e-8),
                               "not linear", lambda: (kw, g.y.tolist(),
                                                      g2.y.tolist()))
                        if not np.ptp(y):
                            expect(fm.close(g.y, y), "constant changed")
                        # sampling rate: only the ratio of the frequencies
                        # to the step matters
                        kk = {k: (v/4. if k != "order" else v)
                              for k, v in kw.items()}
                        g4 = P(4*x, y).spectral_filtering(**kk)
                        expect(fm.close(g4.y, g.y, 1e-7, 1e-8),
                               "not a function of the relative frequency")
                ck.case("filter|words", (n, dx, y.tolist()), fn)
    # the pass band passes, the rest does not
    n = 400
    x = .01*np.arange(n)
    for f, kw, keep in (
            (5., dict(fmin=2., fmax=12.), True),
            (.5, dict(fmin=2., fmax=12.), False),
            (40., dict(fmin=2., fmax=12.), False),
            (5., dict(fmin=20.), False), (40., dict(fmin=10.), True),
            (2., dict(fmax=20.), True), (45., dict(fmax=10.), False)):
        def fn(f=f, kw=kw, keep=keep):
            y = np.sin(2*np.pi*f*x)
            g = P(x, y).spectral_filtering(**kw)
            amp = np.sqrt(2*np.mean(g.y[200:]**2))
            expect((amp > .8) if keep else (amp < .2), "gain",
                   lambda: (f, kw, amp))
        ck.case("filter|bands", (f, sorted(kw.items())), fn)


def gauss(pts, bw, at):
    return np.array([np.mean(np.exp(-(z - pts)**2/2/bw**2))
                     / math.sqrt(2*math.pi)/bw for z in at])


def distributions(ck):
    n = 4
    for y in itertools.product((0., 1., 2.5, -1.), repeat=n):
        y = np.array(y)
        for mask in itertools.product([False, True], repeat=n):
            k = ~np.array(mask)
            if k.sum() < 2 or np.ptp(y[k]) == 0:
                continue
            if not ck.thorough and sum(mask) > 1:
                continue

            def pdf(y=y, mask=mask, k=k):
                p = P([0., 1., 2., 3.], np.where(mask, 99., y), mask)
                v = y[k]
                N = len(v)
                s = np.std(v, ddof=1)
                for bw, fac in ((None, N**(-.2)), ("scott", N**(-.2)),
                                ("silverman", (3*N/4.)**(-.2)), (.5, .5)):
                    kw = {} if bw is None else {"bw_method": bw}
                    g = p.get_pdf(resolution=7, **kw)
                    x = np.linspace(v.min(), v.max(), 7)
                    same(g, x, gauss(v, fac*s, x), U("m/s"), g.unit_y,
                         " pdf {}".format(bw))
                    r = p.get_pdf(resolution=7, raw=True, **kw)
                    expect(fm.close(np.asarray(r), g.y), "raw pdf differs")
            ck.case("pdf", (y.tolist(), fm.mdesc(np.array(mask))), pdf)

            def dist(y=y, mask=mask, k=k):
                p = P([0., 1., 2., 3.], np.where(mask, 99., y), mask)
                v = y[k]
                N = len(v)
                s = np.std(v, ddof=1)
                for bw, h in (("scott", N**(-.2)*s),
                              ("silverman", (3*N/4.)**(-.2)*s),
                              (.5, .5), (2., 2.)):
                    for fmt, c, u in (("normalized", 1., None),
                                      ("ponderated", N, None),
                                      ("percentage", 100., None),
                                      ("concentration", N,
                                       1/U("m/s"))):
                        g = p.get_distribution(fmt, resolution=9,
                                               bw_method=bw)
                        isprof(g)
                        expect(len(g.x) == 9, "resolution")
                        expect(g.x[0] <= v.min() + 1e-9 and
                               g.x[-1] >= v.max() - 1e-9,
                               "values outside the distribution")
                        same(g, g.x, c*gauss(v, h, g.x), U("m/s"),
                             g.unit_y if u is None else u, " distribution")
                        expect(fm.close(np.diff(g.x), np.full(
                            8, g.x[1] - g.x[0])), "uneven x")
            ck.case("distribution", (y.tolist(), fm.mdesc(np.array(mask))),
                    dist)


def histogram(ck):
    for gx, gy in (("a3", "a2"), ("u3", "b3")):
        shape = (len(fm.AXES[gx]), len(fm.AXES[gy]))
        for k in range(6):
            v = fm.vals(shape, k)
            for mask in fm.masks(shape, "thorough" if ck.thorough
                                 else "quick"):
                if mask.sum() > mask.size - 2:
                    continue
                for bins, rg in ((None, None), (3, None), (5, None),
                                 (4, (-2., 6.)), ([-8., -1., 0., 4.], None)):
                    def fn(gx=gx, gy=gy, v=v, mask=mask, bins=bins, rg=rg):
                        m = fm.mk("s", gx, gy, mask=mask)
                        m.comps[0][...] = v
                        w = v[~mask]
                        s = m.real()
                        if isinstance(bins, list):
                            e = np.array(bins)
                        else:
                            lo, hi = rg or (w.min(), w.max())
                            if lo == hi:
                                lo, hi = lo - .5, hi + .5
                            nb = bins or 10
                            e = np.linspace(lo, hi, nb + 1)
                        c = np.array([sum(1 for z in w if (
                            e[i] <= z < e[i + 1] or
                            (i == len(e) - 2 and z == e[-1])))
                            for i in range(len(e) - 1)], float)
                        # a value on an edge (rounding): not decided
                        if np.any(np.abs(w[:, None] - e[None, 1:-1])
                                  < 1e-9*max(1, np.abs(e).max())) \
                                and not isinstance(bins, list):
                            return "edge"
                        mid = (e[1:] + e[:-1])/2
                        kw = {}
                        if bins is not None:
                            kw["bins"] = bins
                        if rg is not None:
                            kw["range"] = rg
                        g = s.get_histogram(**kw)
                        same(g, mid, c, m.uv, g.unit_y, " counts")
                        g = s.get_histogram(cum=True, **kw)
                        same(g, mid, np.cumsum(c), m.uv, g.unit_y, " cum")
                        if c.sum():
                            g = s.get_histogram(normalized=True, **kw)
                            same(g, mid, c/c.sum()/np.diff(e), m.uv,
                                 g.unit_y, " normalized")
                    ck.case("histogram", (gx, gy, k, fm.mdesc(mask),
                                          str(bins), rg), fn)


def fits(ck):
    def line(x, a, b):
        return a*x + b

    def para(x, a, b, c):
        return a*x**2 + b*x + c

    def root(x, a):
        return a*np.sqrt(np.abs(x) + 1)
    xs = {"e5": np.arange(5.), "u5": np.array([-1., 0., .5, 2., 4.])}
    for f, prm in ((line, itertools.product((-2., 0., 1.5), repeat=2)),
                   (para, itertools.product((-2., 0., 1.5), repeat=3)),
                   (root, itertools.product((-2., 0., 1.5)))):
        for p in prm:
            for nm, x in xs.items():
                for p0 in (None, [.5]*len(p)):
                    def fn(f=f, p=p, x=x, p0=p0):
                        y = f(x, *p)
                        kw = {} if p0 is None else {"p0": p0}
                        g, c = P(x, y).get_fitting(f, output_param=True,
                                                   **kw)
                        expect(fm.close(np.array(c), np.array(p), 1e-5,
                                        1e-5), "parameters",
                               lambda: (list(c), p))
                        same(g, x, y, U("s"), U("m/s"), rtol=1e-5, atol=1e-5)
                        g = P(x, y).get_fitting(f, **kw)
                        same(g, x, y, U("s"), U("m/s"), rtol=1e-5, atol=1e-5)
                    ck.case("fit|" + f.__name__, (p, nm, p0), fn)
    # missing values have no effect
    for mask in itertools.product([False, True], repeat=5):
        if sum(mask) > 2:
            continue
        for nm, x in xs.items():
            def fn(mask=mask, x=x):
                y = np.where(mask, 99., 2*x - 1)
                g, c = P(x, y, mask).get_fitting(line, output_param=True)
                expect(fm.close(np.array(c), np.array([2., -1.]), 1e-5, 1e-5),
                       "parameters with missing values", lambda: list(c))
            ck.case("fit|masked", (fm.mdesc(np.array(mask)), nm), fn)
    # polynomial through points
    from IMTreatment import Points
    for deg in (1, 2, 3):
        for co in itertools.product((-1., 0., 2.), repeat=deg + 1):
            def fn(deg=deg, co=co):
                x = np.array([-1., 0., .5, 2., 3.])
                y = sum(c*x**(deg - i) for i, c in enumerate(co))
                p = Points(np.array([x, y]).T, unit_x="m", unit_y="s")
                r = p.fit(order=deg)
                expect(fm.close(np.array(r), np.array(co), 1e-6, 1e-6),
                       "polynomial", lambda: (list(r), co))
            ck.case("fit|points", (deg, co), fn)


def marginal(ck):
    n = 5
    x = np.arange(float(n))
    for y in itertools.product((0., 1., 10.), repeat=n):
        y = np.array(y)
        for mask in itertools.product([False, True], repeat=n):
            if sum(mask) > (2 if ck.thorough else 1):
                continue
            for fact in (1., 1.5, 5):
                for inp in (False, True):
                    def fn(y=y, mask=mask, fact=fact, inp=inp):
                        mk = np.array(mask)
                        p = P(x, np.where(mk, 500., y), mk)
                        v = y[~mk]
                        mu = v.mean()
                        sd = math.sqrt(((v - mu)**2).mean())
                        dist = np.abs(y - mu) - fact*sd
                        if np.any(np.abs(dist[~mk]) < 1e-9):
                            return "edge"
                        r = p.remove_marginal_values(fact, inplace=inp)
                        g = p if inp else r
                        e = np.where(mk | (dist > 0), NAN, y)
                        expect(np.array_equal(np.asarray(g.mask, bool),
                                              np.isnan(e)), "mask",
                               lambda: (np.asarray(g.mask).tolist(),
                                        e.tolist()))
                        expect(fm.close(np.where(np.isnan(e), 0, g.y),
                                        np.nan_to_num(e)), "values")
                        expect(np.all(np.isnan(g.y[np.isnan(e)])),
                               "masked y not missing")
                        if not inp:
                            expect(np.array_equal(p.mask, mk),
                                   "source changed")
                    ck.case("marginal", (y.tolist(), fm.mdesc(np.array(
                        mask)), fact, inp), fn)
    # local: relatively to a smoothed version
    n = 9
    for i in range(2, n - 2):
        for amp in (50., -50.):
            for base in (lambda t: 0*t, lambda t: 3*t):
                def fn(i=i, amp=amp, base=base):
                    xx = np.arange(float(n))
                    y = base(xx)
                    y[i] += amp
                    p = P(xx, y)
                    q = p.remove_local_marginal_values(fact=2, neighb=2)
                    expect(np.array_equal(np.asarray(q.mask, bool),
                                          xx == i), "mask",
                           lambda: np.asarray(q.mask).tolist())
                    expect(not np.any(p.mask), "source changed")
                    expect(np.all(np.isnan(q.y[q.mask])),
                           "masked y not missing")
                    q = p.copy()
                    q.remove_local_marginal_values(fact=2, neighb=2,
                                                   inplace=True)
                    expect(np.array_equal(np.asarray(q.mask, bool),
                                          xx == i), "mask, in place")
                ck.case("local marginal", (i, amp, base(1.)), fn)


def extrema(ck):
    """parabolic arcs and harmonics"""
    for c in (-1.3, -.5, 0., .2, 1.):
        for a in (1., -2.):
            for n in (9, 12):
                def fn(c=c, a=a, n=n):
                    x = np.linspace(-3., 3., n)
                    mn, mx = P(x, a*(x - c)**2 + 1).get_extrema_position()
                    mn, mx = np.array(mn), np.array(mx)
                    good, bad = (mn, mx) if a > 0 else (mx, mn)
                    expect(len(bad) == 0, "extremum of the wrong kind",
                           lambda: (mn.tolist(), mx.tolist()))
                    expect(len(good) == 1 and abs(good[0] - c) < 1e-6,
                           "position", lambda: (mn.tolist(), mx.tolist(), c))
                ck.case("extrema|parabola", (c, a, n), fn)
    for ph in range(8):
        for per in (8, 10):
            def fn(ph=ph, per=per):
                x = np.arange(3*per + 1)*.5
                w = 2*np.pi/(per*.5)
                y = np.sin(w*x + ph*np.pi/4 + .1)
                mn, mx = P(x, y).get_extrema_position()
                for got, val in ((mn, -np.pi/2), (mx, np.pi/2)):
                    ref = [(val + 2*np.pi*k - ph*np.pi/4 - .1)/w
                           for k in range(-2, 8)]
                    # those well inside have to be there; none invented
                    for r in ref:
                        if x[2] < r < x[-3]:
                            expect(np.any(np.abs(np.array(got) - r) < .1),
                                   "extremum missing",
                                   lambda: (list(got), r))
                    for g in got:
                        expect(min(abs(g - r) for r in ref) < .3,
                               "no extremum there", lambda: (list(got), ref))
            ck.case("extrema|harmonic", (ph, per), fn)


def zones(ck):
    """centres of the zones where the values lie in an interval"""
    grids = [("a3", "u3"), ("u4", "b3")] if ck.thorough else [("a3", "u3")]
    for gx, gy in grids:
        ax = np.array(fm.AXES[gx], float)
        ay = np.array(fm.AXES[gy], float)
        shape = (len(ax), len(ay))
        for bits in itertools.product([0., 1.], repeat=shape[0]*shape[1]):
            z = np.array(bits).reshape(shape)
            if not z.any():
                continue
            for inner in (0, 1, 2) if ck.thorough else (0, 1):
                # values 2..3 inside the zones, 0 outside
                w = 2. + (np.arange(z.size).reshape(shape)*(
                    5 if inner == 1 else 7) % z.size)/float(z.size)
                if inner == 2:
                    w = -w
                v = np.where(z > 0, w, 0.)
                rng = [1.5, 3.5] if inner < 2 else [-3.5, -1.5]

                def fn(gx=gx, gy=gy, v=v, z=z, rng=rng, ax=ax, ay=ay):
                    m = fm.mk("s", gx, gy, ux="mm", uy="s")
                    m.comps[0][...] = v
                    s = m.real()
                    comps = components(z > 0)
                    for kind in ("center", "ponderated", "extremum"):
                        exp = []
                        for c in comps:
                            if kind == "extremum":
                                i, j = max(c, key=lambda q: abs(v[q]))
                                exp.append((ax[i], ay[j]))
                                continue
                            ww = [1. if kind == "center" else abs(v[q])
                                  for q in c]
                            fi = sum(q[0]*k for q, k in zip(c, ww))/sum(ww)
                            fj = sum(q[1]*k for q, k in zip(c, ww))/sum(ww)
                            exp.append((np.interp(fi, range(len(ax)), ax),
                                        np.interp(fj, range(len(ay)), ay)))
                        g = s.get_zones_centers(bornes=rng, rel=False,
                                                kind=kind)
                        got = sorted((round(float(a), 7), round(float(b), 7))
                                     for a, b in g.xy)
                        ex = sorted((round(float(a), 7), round(float(b), 7))
                                    for a, b in exp)
                        expect(len(got) == len(ex) and fm.close(
                            np.array(got), np.array(ex), 1e-6, 1e-6),
                            "zones " + kind, lambda: (got, ex))
                        expect(fm.same_unit(g.unit_x, U("mm")) and
                               fm.same_unit(g.unit_y, U("s")), "units")
                ck.case("zones|{}".format(gx), (gy, z.astype(int).tolist(),
                                                inner), fn)
    # no zone
    def none():
        m = fm.mk("s", "a3", "a3")
        m.comps[0][...] = 1.
        m.comps[0][1, 1] = 5.
        s = m.real()
        expect(s.get_zones_centers([2., 4.], rel=False) is None, "zone")
        expect(s.get_zones_centers([6., 7.], rel=False) is None, "zone")
        g = s.get_zones_centers([.75, 1.])
        expect(fm.close(np.array(g.xy), np.array([[s.axe_x[1],
                                                   s.axe_y[1]]])), "rel")
        g = (s*-1).get_zones_centers([-1., -.75])
        expect(fm.close(np.array(g.xy), np.array([[s.axe_x[1],
                                                   s.axe_y[1]]])), "rel neg")
    ck.case("zones|none", "", none)


def components(z):
    todo = set(zip(*np.where(z)))
    out = []
    while todo:
        st = [min(todo)]
        todo.discard(st[0])
        comp = []
        while st:
            i, j = st.pop()
            comp.append((i, j))
            for q in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
                if q in todo:
                    todo.discard(q)
                    st.append(q)
        out.append(comp)
    return out


def clusters(ck):
    """groups of close points: a partition, values kept with their points"""
    from IMTreatment import Points
    pos = [(0., 0.), (.5, 0.), (0., .5), (5., 5.), (5.5, 5.), (9., 0.)]
    for r in range(2, len(pos) + 1):
        for sub in itertools.combinations(range(len(pos)), r):
            for vals in (False, True):
                def fn(sub=sub, vals=vals):
                    xy = np.array([pos[i] for i in sub])
                    v = np.array([10. + i for i in sub]) if vals else []
                    p = Points(xy, v, unit_x="mm", unit_y="s", unit_v="K")
                    gs = p.get_clusters(eps=1., min_samples=2)
                    got = {}
                    for a, g in enumerate(gs):
                        expect(fm.same_unit(g.unit_x, U("mm")) and
                               fm.same_unit(g.unit_y, U("s")) and
                               fm.same_unit(g.unit_v, U("K")), "units")
                        for b, q in enumerate(g.xy):
                            i = pos.index(tuple(q))
                            expect(i not in got, "point twice")
                            got[i] = a
                            if vals:
                                expect(g.v[b] == 10 + i, "value displaced")
                        expect(len(g.v) == (len(g.xy) if vals else 0),
                               "number of values")
                    fam = [{0, 1, 2}, {3, 4}]
                    for f in fam:
                        f = f & set(sub)
                        if len(f) < 2:
                            continue
                        ids = set(got.get(i) for i in f)
                        expect(len(ids) == 1 and None not in ids,
                               "close points separated", lambda: got)
                        for i in set(sub) - f:
                            expect(got.get(i) not in ids,
                                   "distant points together", lambda: got)
                ck.case("clusters", (sub, vals), fn)


def on_series(ck):
    from IMTreatment import Points
    from mc import series
    for gx, gy in (("a3", "a4"), ("u4", "b3")):
        ax = np.array(fm.AXES[gx], float)
        ay = np.array(fm.AXES[gy], float)
        times = [0., 1., 2.5]
        from IMTreatment import TemporalScalarFields
        for order in itertools.permutations(range(3)):
            for mk in (None, (0, 1), (2, 1)):
                def fn(order=order, mk=mk, gx=gx, gy=gy, ax=ax, ay=ay):
                    ts = TemporalScalarFields()
                    vs = []
                    for k, t in enumerate(times):
                        m = fm.mk("s", gx, gy, ux="mm", uy="mm", uv="K")
                        m.comps[0][...] = fm.vals(m.comps[0].shape, k)
                        if mk and k == 1:
                            m.mask[mk] = True
                        vs.append(m.comps[0].copy())
                        ts.add_field(m.real(), time=t, unit_times="s")
                    cells = [(0, 1), (2, 1), (1, 2)]
                    xy = np.array([[ax[cells[o][0]], ay[cells[o][1]]]
                                   for o in order])
                    v = np.array([times[o] for o in order])
                    p = Points(xy, v, unit_x="mm", unit_y="mm", unit_v="s")
                    e = np.array([vs[o][cells[o]] if not (
                        mk and o == 1 and cells[o] == mk) else NAN
                        for o in order])
                    for axe, xs, u in ((None, v, "s"), ("v", v, "s"),
                                       ("x", xy[:, 0], "mm"),
                                       ("y", xy[:, 1], "mm")):
                        kw = {} if axe is None else {"axe_x": axe}
                        g = p.get_evolution_on_tsf(ts, **kw)
                        o = np.argsort(xs, kind="stable")
                        same(g, xs[o], e[o], U(u), U("K"), " " + str(axe))
                ck.case("evolution on series", (gx, gy, order, mk), fn)


def wavelet(ck):
    """Ricker wavelet transform: direct sum"""
    for n in (5, 8):
        for dx in (1., .5):
            x = dx*np.arange(n) + 1.
            for y in itertools.product((0., 1., -2.) if n == 5 else (0., 1.),
                                       repeat=n):
                y = np.array(y)

                def fn(x=x, y=y, dx=dx, n=n):
                    p = P(x, y)
                    ws = [dx, 1.375*dx, 2*dx]
                    g = p.get_wavelet_transform(widths=ws)
                    raw = p.get_wavelet_transform(widths=ws, raw=True)
                    expect(fm.close(np.asarray(raw).T, g.values),
                           "raw differs")
                    expect(fm.close(g.axe_x, x) and fm.close(g.axe_y,
                                                             np.array(ws)),
                           "axes")
                    expect(fm.same_unit(g.unit_x, U("s")) and
                           fm.same_unit(g.unit_y, U("s")) and
                           fm.same_unit(g.unit_values, U("m/s")), "units")
                    z = y - y.mean()
                    for k, w in enumerate((1., 1.375, 2.)):
                        N = int(min(10*w, n))
                        t = np.arange(N) - (N - 1)/2.
                        ri = 2/math.sqrt(3*w)/np.pi**.25*(
                            1 - t**2/w**2)*np.exp(-t**2/2/w**2)
                        o = (N - 1)//2
                        e = [sum(z[j]*ri[i + o - j] for j in range(n)
                                 if 0 <= i + o - j < N) for i in range(n)]
                        expect(fm.close(g.values[:, k], np.array(e), 1e-7,
                                        1e-8), "transform",
                               lambda: (g.values[:, k].tolist(), e))
                    # linear, blind to a constant
                    q = P(x, 2*y + 7).get_wavelet_transform(widths=ws)
                    expect(fm.close(q.values, 2*g.values, 1e-7, 1e-8),
                           "not linear")
                ck.case("wavelet", (n, dx, y.tolist()), fn)
