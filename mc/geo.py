"""Reference semantics of the geometric transformations of fields.  Each model
function returns a new model, or None when the operation is not defined for
that field (then the implementation is not exercised)."""
import math

import numpy as np

from mc.fm import M, U, ratio


def sub(m, ix, iy):
    s = np.ix_(ix, iy)
    return M(m.ax[ix], m.ay[iy], [c[s] for c in m.comps], m.mask[s], m.ux,
             m.uy, m.uv)


def crop(m, intervx=None, intervy=None, ind=False):
    sel = []
    for ax, it in ((m.ax, intervx), (m.ay, intervy)):
        if it is None:
            i = list(range(len(ax)))
        elif ind:
            i = [k for k in range(len(ax)) if it[0] <= k <= it[1]]
        else:
            i = [k for k in range(len(ax)) if it[0] <= ax[k] <= it[1]]
        if not i:
            return None
        sel.append(i)
    return sub(m, sel[0], sel[1])


def extend(m, nmb_left=0, nmb_right=0, nmb_up=0, nmb_down=0, value=None,
           ind=True):
    if len(m.ax) < 2 or len(m.ay) < 2:
        return None
    if not ind:
        # lengths, in whole numbers of (first) steps
        dx, dy = m.ax[1] - m.ax[0], m.ay[1] - m.ay[0]
        nmb_left, nmb_right = [int(np.ceil(n/dx)) for n in (nmb_left,
                                                            nmb_right)]
        nmb_down, nmb_up = [int(np.ceil(n/dy)) for n in (nmb_down, nmb_up)]
    l, r, u, d = nmb_left, nmb_right, nmb_up, nmb_down
    dx0, dx1 = m.ax[1] - m.ax[0], m.ax[-1] - m.ax[-2]
    dy0, dy1 = m.ay[1] - m.ay[0], m.ay[-1] - m.ay[-2]
    ax = [m.ax[0] - dx0*k for k in range(l, 0, -1)] + list(m.ax) + \
        [m.ax[-1] + dx1*k for k in range(1, r + 1)]
    ay = [m.ay[0] - dy0*k for k in range(d, 0, -1)] + list(m.ay) + \
        [m.ay[-1] + dy1*k for k in range(1, u + 1)]
    comps = []
    for c in m.comps:
        n = np.full((len(ax), len(ay)), np.nan if value is None else
                    float(value))
        n[l:l + len(m.ax), d:d + len(m.ay)] = c
        comps.append(n)
    return M(ax, ay, comps, None, m.ux, m.uy, m.uv)


def rotate(m, angle):
    n = (angle//90) % 4
    res = m.copy()
    for _ in range(n):
        # (x, y) -> (-y, x)
        ax = -res.ay[::-1]
        ay = res.ax.copy()
        nx, ny = len(ax), len(ay)
        comps = []
        for c in res.comps:
            a = np.empty((nx, ny))
            for i in range(nx):
                for j in range(ny):
                    a[i, j] = c[j, nx - 1 - i]
            comps.append(a)
        if len(comps) == 2:
            comps = [-comps[1], comps[0]]
        res = M(ax, ay, comps, None, res.uy, res.ux, res.uv)
    return res


def scale(m, scalex=None, scaley=None, scalev=None):
    """scales are numbers or (number, unit string)"""
    res = m.copy()

    def one(u, s):
        if s is None:
            return 1., u
        if isinstance(s, tuple):
            q = u*(s[0]*U(s[1]))
            n = q.asNumber()
            return n, q/n
        return float(s), u
    fx, res.ux = one(res.ux, scalex)
    fy, res.uy = one(res.uy, scaley)
    fv, res.uv = one(res.uv, scalev)
    ax, ay = res.ax*fx, res.ay*fy
    comps = [c*fv for c in res.comps]
    if fx < 0:
        ax = ax[::-1]
        comps = [c[::-1] for c in comps]
        if len(comps) == 2:
            comps[0] = -comps[0]
    if fy < 0:
        ay = ay[::-1]
        comps = [c[:, ::-1] for c in comps]
        if len(comps) == 2:
            comps[1] = -comps[1]
    return M(ax, ay, comps, None, res.ux, res.uy, res.uv)


def set_origin(m, x=None, y=None):
    return M(m.ax - (x or 0), m.ay - (y or 0), m.comps, m.mask, m.ux, m.uy,
             m.uv)


def change_unit(m, axe, unit):
    u = U(unit)
    if axe == "x":
        return M(m.ax*ratio(m.ux, u), m.ay, m.comps, m.mask, u, m.uy, m.uv)
    if axe == "y":
        return M(m.ax, m.ay*ratio(m.uy, u), m.comps, m.mask, m.ux, u, m.uv)
    return M(m.ax, m.ay, [c*ratio(m.uv, u) for c in m.comps], m.mask, m.ux,
             m.uy, u)


def crop_masked_border(m, hard=False):
    if m.mask.all():
        return None
    res = m
    if not m.mask.any():
        return m.copy()
    rows = [i for i in range(m.shape[0]) if not m.mask[i].all()]
    cols = [j for j in range(m.shape[1]) if not m.mask[:, j].all()]
    res = sub(m, list(range(rows[0], rows[-1] + 1)),
              list(range(cols[0], cols[-1] + 1)))
    if hard:
        while res.mask.any():
            n = [res.mask[0].sum(), res.mask[-1].sum(), res.mask[:, 0].sum(),
                 res.mask[:, -1].sum()]
            k = n.index(max(n))
            ix, iy = list(range(res.shape[0])), list(range(res.shape[1]))
            if k == 0:
                ix = ix[1:]
            elif k == 1:
                ix = ix[:-1]
            elif k == 2:
                iy = iy[1:]
            else:
                iy = iy[:-1]
            if not ix or not iy:
                return None
            res = sub(res, ix, iy)
    return res


def reduce_spatial_resolution(m, fact):
    if fact == 1:
        return m.copy()
    nx, ny = m.shape[0]//fact, m.shape[1]//fact
    if nx == 0 or ny == 0:
        return None

    def center(ax, k):
        blk = ax[k*fact:(k + 1)*fact]
        if fact % 2:
            return blk[fact//2]
        return (blk[fact//2 - 1] + blk[fact//2])/2.
    ax = [center(m.ax, k) for k in range(nx)]
    ay = [center(m.ay, k) for k in range(ny)]
    comps = []
    for c in m.comps:
        a = np.full((nx, ny), np.nan)
        for i in range(nx):
            for j in range(ny):
                blk = c[i*fact:(i + 1)*fact, j*fact:(j + 1)*fact].ravel()
                blk = [v for v in blk if not math.isnan(v)]
                if blk:
                    a[i, j] = sum(blk)/len(blk)
        comps.append(a)
    return M(ax, ay, comps, None, m.ux, m.uy, m.uv)


def mirroring(m, direction, position, inds_to_mirror="all", mir_coef=1):
    """Plane symmetry placed on a node or half way between nodes of an evenly
    spaced axis, on fields whose border lines are not entirely masked."""
    if len(m.ax) < 2 or len(m.ay) < 2:
        return None
    cm = crop_masked_border(m)
    if cm is None or cm.shape != m.shape:
        return None
    if direction == "y":
        t = M(m.ay, m.ax, [c.T for c in m.comps], m.mask.T, m.uy, m.ux, m.uv)
        if len(m.comps) == 2:
            t.comps = t.comps[::-1]
        r = mirroring(t, "x", position, inds_to_mirror,
                      mir_coef if np.isscalar(mir_coef) else mir_coef[::-1])
        if r is None:
            return None
        c = [k.T for k in r.comps]
        if len(c) == 2:
            c = c[::-1]
        return M(r.ay, r.ax, c, r.mask.T, r.uy, r.ux, r.uv)
    ax = m.ax
    dx = ax[1] - ax[0]
    if not np.allclose(np.diff(ax), dx):
        return None
    p = float(position)
    med = (ax[0] + ax[-1])/2.
    if p == med:
        return None
    n = len(ax)
    if p < med:
        side = "left"
        kept = [i for i in range(n) if ax[i] >= p - 1e-12]
        gap = (ax[kept[0]] - p)/dx
    else:
        side = "right"
        kept = [i for i in range(n) if ax[i] <= p + 1e-12]
        gap = (p - ax[kept[-1]])/dx
    k = n - 1 if (inds_to_mirror == "all" or inds_to_mirror > n) \
        else inds_to_mirror
    add = int(math.ceil(k + 2*gap - 1e-9)) - 1
    if len(kept) < 2 or add < 0:
        return None
    base = sub(m, kept, list(range(m.shape[1])))
    ext = extend(base, nmb_left=add) if side == "left" else \
        extend(base, nmb_right=add)
    coefs = [mir_coef] if len(m.comps) == 1 else \
        ([-mir_coef, mir_coef] if np.isscalar(mir_coef) else list(mir_coef))
    for i, x in enumerate(ext.ax):
        isnew = i < add if side == "left" else i >= len(kept)
        for j in range(ext.shape[1]):
            if not isnew and not ext.mask[i, j]:
                continue
            if not isnew:
                # a masked point of the kept part: its mirror image is in the
                # part being built, so it stays masked
                continue
            xm = 2*p - x
            q = (xm - base.ax[0])/dx
            if q < -1e-9 or q > len(base.ax) - 1 + 1e-9:
                continue
            if abs(q - round(q)) > 1e-6:
                return None
            q = int(round(q))
            if base.mask[q, j]:
                continue
            for c, b, co in zip(ext.comps, base.comps, coefs):
                c[i, j] = b[q, j]*co
    return M(ext.ax, ext.ay, ext.comps, None, m.ux, m.uy, m.uv)
