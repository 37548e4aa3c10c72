"""Independent brute-force two-point oracle (numpy, written from the documented definitions).

Positions are (n,3) arrays: flat (x,y,0), 3d (x,y,z), spherical unit vectors; lengths are in
TreeCorr's internal units (radians for angles).
"""
import numpy as np

SPIN = dict(N=None, K=None, Z=0, V=1, G=2, T=3, Q=4)
ANGLE = dict(radians=1., rad=1., hours=np.pi / 12., hour=np.pi / 12., degrees=np.pi / 180.,
             deg=np.pi / 180., arcmin=np.pi / 10800., arcsec=np.pi / 648000.)
ANGLE[''] = 1.


def sph(ra, dec):
    return np.stack([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)], axis=-1)


def wrap(d, period):
    if not period:
        return d
    return d - period * np.round(d / period)


def separations(coords, metric, p1, p2, period=(0, 0, 0)):
    """Matrices (n1,n2): d (the separation that is binned), err (bound on its rounding),
    rpar (line-of-sight separation, positive when p2 is behind p1), dx, dy."""
    a = p1[:, None, :]
    b = p2[None, :, :]
    diff = b - a
    scale = np.maximum(np.max(np.abs(a), axis=-1), np.max(np.abs(b), axis=-1))
    n1 = np.sqrt(np.sum(a * a, axis=-1))
    n2 = np.sqrt(np.sum(b * b, axis=-1))
    rpar = np.zeros(diff.shape[:2])
    if metric == 'Periodic':
        diff = np.stack([wrap(diff[..., i], period[i]) for i in range(3)], axis=-1)
        scale = np.maximum(scale, max(period))
    eu = np.sqrt(np.sum(diff * diff, axis=-1))
    with np.errstate(all='ignore'):
        if metric in ('Euclidean', 'Periodic'):
            d = eu
            err = 4e-16 * scale * 4
        elif metric == 'Arc':
            cr = np.cross(np.broadcast_to(a, diff.shape), np.broadcast_to(b, diff.shape))
            s = np.sqrt(np.sum(cr * cr, axis=-1))
            c = np.sum(a * b, axis=-1)
            d = np.arctan2(s, c)
            # asin(L/2) loses precision near 180 degrees, the cross product near 0.
            err = 1e-15 + 4e-15 / np.maximum(np.abs(np.cos(d / 2)), 1e-7)
            if coords == '3d':
                err = 1e-14 + 1e-14 / np.maximum(np.abs(np.cos(d)), 1e-7)
        elif metric in ('Rperp', 'FisherRperp'):
            L = (a + b) / 2
            nL = np.sqrt(np.sum(L * L, axis=-1))
            cr = np.cross(np.broadcast_to(a, diff.shape), np.broadcast_to(b, diff.shape))
            d = np.where(nL > 0, np.sqrt(np.sum(cr * cr, axis=-1)) / nL, 2 * n1)
            err = 1e-15 * scale * (1 + scale / np.maximum(nL, 1e-300)) * 8
        elif metric == 'OldRperp':
            rp = n2 - n1
            d2 = np.abs(eu ** 2 - rp ** 2)
            d = np.sqrt(d2)
            e2 = 4e-15 * (eu ** 2 + np.abs(rp) * np.maximum(n1, n2))
            err = 1e-15 * scale * 8 + e2 / np.maximum(d, np.sqrt(e2) + 1e-300)
        elif metric == 'Rlens':
            cr = np.cross(np.broadcast_to(a, diff.shape), np.broadcast_to(b, diff.shape))
            d = np.sqrt(np.sum(cr * cr, axis=-1)) / n2
            err = 1e-15 * scale * 8
        else:
            raise ValueError(metric)
        if coords == '3d':
            if metric == 'OldRperp':
                rpar = n2 - n1
            else:
                L = (a + b) / 2
                nL = np.sqrt(np.sum(L * L, axis=-1))
                d0 = b - a
                rpar = np.sum(d0 * L, axis=-1) / nL
    return d, err + 0 * d, rpar, diff[..., 0], diff[..., 1]


class Bins(object):
    """Binning from the documented parameters (internal units)."""

    def __init__(self, bin_type, min_sep=None, max_sep=None, nbins=None, bin_size=None, unit=1.):
        self.bin_type = bin_type
        if bin_type == 'Log':
            if nbins is None:
                nbins = int(np.ceil(np.log(max_sep / min_sep) / bin_size))
                bin_size = np.log(max_sep / min_sep) / nbins
            elif bin_size is None:
                bin_size = np.log(max_sep / min_sep) / nbins
            elif max_sep is None:
                max_sep = min_sep * np.exp(nbins * bin_size)
            elif min_sep is None:
                min_sep = max_sep * np.exp(-nbins * bin_size)
            self.edges = min_sep * np.exp(np.arange(nbins + 1) * bin_size) * unit
        elif bin_type == 'Linear':
            if nbins is None:
                nbins = int(np.ceil((max_sep - min_sep) / bin_size))
                bin_size = (max_sep - min_sep) / nbins
            elif bin_size is None:
                bin_size = (max_sep - min_sep) / nbins
            elif max_sep is None:
                max_sep = min_sep + nbins * bin_size
            elif min_sep is None:
                min_sep = max_sep - nbins * bin_size
            self.edges = (min_sep + np.arange(nbins + 1) * bin_size) * unit
        else:
            min_sep = min_sep or 0.
            if nbins is None:
                nbins = int(np.ceil(2 * max_sep / bin_size))
                bin_size = 2 * max_sep / nbins
            elif bin_size is None:
                bin_size = 2 * max_sep / nbins
            else:
                max_sep = nbins * bin_size / 2
            self.edges = (-max_sep + np.arange(nbins + 1) * bin_size) * unit
        self.min_sep, self.max_sep, self.nbins = min_sep * unit, max_sep * unit, nbins
        self.unit = unit
        self.bin_size = bin_size

    def assign(self, d, err, dx, dy, rel=3e-12):
        """Returns (k, amb): bin index (or -1) and whether the pair is within rounding of an
        edge.  k is the nominal bin."""
        tol = err + rel * np.maximum(np.abs(d), 1e-300)
        if self.bin_type in ('Log', 'Linear'):
            e = self.edges
            k = np.searchsorted(e, d, side='right') - 1
            k = np.where((d < e[0]) | (d >= e[-1]), -1, k)
            near = np.zeros(d.shape, dtype=bool)
            j = np.clip(np.searchsorted(e, d), 0, len(e) - 1)
            for jj in (np.maximum(j - 1, 0), j):
                near |= np.abs(d - e[jj]) <= tol + rel * np.abs(e[jj])
            return k, near
        e = self.edges
        n = self.nbins
        i = np.searchsorted(e, dx, side='right') - 1
        j = np.searchsorted(e, dy, side='right') - 1
        k = np.where((i < 0) | (i >= n) | (j < 0) | (j >= n), -1, j * n + i)
        k = np.where((d < self.min_sep) | (d == 0), -1, k)
        tl = err + rel * self.max_sep
        near = np.zeros(d.shape, dtype=bool)
        for v in (dx, dy):
            q = np.clip(np.searchsorted(e, v), 0, len(e) - 1)
            for qq in (np.maximum(q - 1, 0), q):
                near |= np.abs(v - e[qq]) <= tl
        far = (np.abs(dx) > self.max_sep + tl) | (np.abs(dy) > self.max_sep + tl)
        near &= ~far
        if self.min_sep > 0:
            near |= np.abs(d - self.min_sep) <= tl
        return k, near

    @property
    def ntot_bins(self):
        return self.nbins ** 2 if self.bin_type == 'TwoD' else self.nbins

    @property
    def shape(self):
        return (self.nbins, self.nbins) if self.bin_type == 'TwoD' else (self.nbins,)


def direction(p_from, p_at):
    """Direction at p_at of the great circle coming from p_from, as the angle from local east
    (towards north) of the tangent pointing AWAY from p_from.  p_* (...,3) unit vectors."""
    east = np.stack([-p_at[..., 1], p_at[..., 0], np.zeros_like(p_at[..., 0])], axis=-1)
    ne = np.sqrt(np.sum(east * east, axis=-1))[..., None]
    east = east / np.where(ne > 0, ne, 1.)
    north = np.cross(p_at, east)
    # tangent at p_at pointing away from p_from:
    c = np.sum(p_from * p_at, axis=-1)[..., None]
    t = p_at * c - p_from
    # stable for small separations:
    t2 = (p_at - p_from) - p_at * np.sum(p_at * (p_at - p_from), axis=-1)[..., None]
    t = t2
    return np.sum(t * east, axis=-1) + 1j * np.sum(t * north, axis=-1)


def phases(coords, p1, p2, period=None):
    """Unit complex numbers (n1,n2): e^{i alpha1}, e^{i alpha2}: direction of the line from p1 to
    p2 as seen at p1 and at p2 (continuing in the same sense)."""
    a = p1[:, None, :]
    b = p2[None, :, :]
    shp = np.broadcast_shapes(a.shape, b.shape)
    if coords == 'flat':
        d = b - a
        if period and max(period) > 0:
            d = np.stack([wrap(d[..., i], period[i]) for i in range(3)], axis=-1)
        z = d[..., 0] + 1j * d[..., 1]
        n = np.abs(z)
        z = np.where(n > 0, z / np.where(n > 0, n, 1), 0)
        return z, z
    a = np.broadcast_to(a / np.sqrt(np.sum(a * a, axis=-1))[..., None], shp)
    b = np.broadcast_to(b / np.sqrt(np.sum(b * b, axis=-1))[..., None], shp)
    z2 = direction(a, b)
    z1 = -direction(b, a)
    out = []
    for z in (z1, z2):
        n = np.abs(z)
        out.append(np.where(n > 0, z / np.where(n > 0, n, 1), 0))
    return out[0], out[1]


def accumulate(bins, k, near, ok, okamb, quants):
    """Sums each quantity (n1,n2 array) over the pairs in each bin.
    Returns dict name -> (sum, slack): the true answer is within slack of the sum."""
    nb = bins.ntot_bins
    sure = ok & ~okamb & ~near & (k >= 0)
    # an ambiguous pair may be in the nominal bin, or in a neighbour, or nowhere
    amb = (near | okamb) & (ok | okamb)
    res = {}
    kk = k[sure]
    ia, ja = np.nonzero(amb)
    for name, q in quants.items():
        q = np.broadcast_to(q, k.shape)
        dt = complex if np.iscomplexobj(q) else float
        if dt is complex:
            s = (np.bincount(kk, q.real[sure], nb) + 1j * np.bincount(kk, q.imag[sure], nb))
        else:
            s = np.bincount(kk, q[sure], nb)
        mag = np.bincount(kk, np.abs(q[sure]), nb)
        res[name] = [s, np.zeros(nb), mag]
    if len(ia):
        for i, j in zip(ia, ja):
            cand = bins_near(bins, i, j)
            for name, q in quants.items():
                q = np.broadcast_to(q, k.shape)
                for c in cand:
                    res[name][1][c] += np.abs(q[i, j])
    return res


class _Ctx(object):
    pass


def bins_near(bins, i, j):
    c = bins._ctx
    tol = c.tol[i, j]
    if bins.bin_type == 'TwoD':
        e = bins.edges
        n = bins.nbins
        tl = tol + 1e-11 * bins.max_sep
        xs = [q for q in range(n) if e[q] - tl <= c.dx[i, j] <= e[q + 1] + tl]
        ys = [q for q in range(n) if e[q] - tl <= c.dy[i, j] <= e[q + 1] + tl]
        return [y * n + x for x in xs for y in ys]
    e = bins.edges
    d = c.d[i, j]
    return [q for q in range(bins.nbins)
            if e[q] - tol - 1e-11 * e[q] <= d <= e[q + 1] + tol + 1e-11 * e[q + 1]]


def two_point(bins, coords, metric, p1, p2, auto, quants, period=(0, 0, 0), min_rpar=None,
              max_rpar=None, zero_sep=None):
    """Brute-force sums.  quants(d, logd, ph1, ph2) -> dict of (n1,n2) arrays (ph* given when
    wanted).  For auto each unordered pair is counted once (i<j), in both cells for TwoD.
    zero_sep: None, or 'ambiguous': pairs at exactly zero separation may or may not count."""
    d, err, rpar, dx, dy = separations(coords, metric, p1, p2, period)
    k, near = bins.assign(d, err, dx, dy)
    n1, n2 = d.shape
    ok = np.ones(d.shape, dtype=bool)
    okamb = np.zeros(d.shape, dtype=bool)
    if auto:
        iu = np.arange(n1)[:, None] < np.arange(n2)[None, :]
        if bins.bin_type == 'TwoD':
            iu = np.arange(n1)[:, None] != np.arange(n2)[None, :]
        ok &= iu
    base = ok.copy()
    if min_rpar is not None or max_rpar is not None:
        lo = -np.inf if min_rpar is None else min_rpar
        hi = np.inf if max_rpar is None else max_rpar
        scale = np.maximum(np.max(np.abs(p1), axis=1)[:, None], np.max(np.abs(p2), axis=1)[None])
        t = 1e-13 * scale * 10
        ok &= (rpar >= lo) & (rpar <= hi)
        okamb |= base & ((np.abs(rpar - lo) <= t) | (np.abs(rpar - hi) <= t) | np.isnan(rpar))
    if zero_sep == 'ambiguous':
        okamb |= base & (d <= err)
    ctx = _Ctx()
    ctx.d, ctx.dx, ctx.dy = d, dx, dy
    ctx.tol = err + 1e-11 * np.abs(d)
    bins._ctx = ctx
    with np.errstate(divide='ignore'):
        logd = np.where(d > 0, np.log(np.where(d > 0, d, 1)), -745.)
    q = quants(d, logd)
    res = accumulate(bins, k, near, ok, okamb, q)
    res['_stats'] = dict(pairs=int(np.sum(ok & (k >= 0))), ambiguous=int(np.sum((near | okamb) & base)),
                         out=int(np.sum(base & ((k < 0) | ~ok))),
                         bins=len(np.unique(k[ok & (k >= 0)])))
    res['_mat'] = dict(d=d, err=err, rpar=rpar, dx=dx, dy=dy, k=k, near=near, ok=ok, okamb=okamb)
    return res
