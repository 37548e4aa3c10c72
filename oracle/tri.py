"""Independent brute-force three-point oracle (numpy): every labelled triangle is enumerated.

Conventions from the documentation: side d_i is opposite vertex P_i.
"""
import itertools
import numpy as np
from oracle import pairs as P


class Bins3(object):
    """Binning in internal units.  unit: sep_units; phi in radians."""

    def __init__(self, bin_type, min_sep, max_sep, nbins, unit=1., min_u=0., max_u=1., nubins=1,
                 min_v=0., max_v=1., nvbins=1, min_phi=0., max_phi=np.pi, nphi_bins=1, max_n=0):
        self.__dict__.update(locals())
        self.bin_size = np.log(max_sep / min_sep) / nbins
        self.edges = min_sep * np.exp(np.arange(nbins + 1) * self.bin_size) * unit

    @property
    def shape(self):
        n = self.nbins
        if self.bin_type == 'LogRUV':
            return (n, self.nubins, 2 * self.nvbins)
        if self.bin_type == 'LogSAS':
            return (n, n, self.nphi_bins)
        return (n, n, 2 * self.max_n + 1)

    def sep(self, d, rel=1e-11):
        e = self.edges
        k = np.searchsorted(e, d, side='right') - 1
        k = np.where((d < e[0]) | (d >= e[-1]), -1, k)
        j = np.clip(np.searchsorted(e, d), 0, len(e) - 1)
        near = np.zeros(d.shape, dtype=bool)
        for jj in (np.maximum(j - 1, 0), j):
            near |= np.abs(d - e[jj]) <= rel * (np.abs(e[jj]) + d)
        return k, near

    @staticmethod
    def lin(x, lo, hi, n, tol, closed=False):
        size = (hi - lo) / n
        k = np.floor((x - lo) / size).astype(int)
        if closed:
            k = np.where(x >= hi, n - 1, k)
        k = np.where((x < lo) | ((x > hi) if closed else (x >= hi)), -1, np.minimum(k, n - 1))
        f = (x - lo) / size
        near = np.abs(f - np.round(f)) * size <= tol
        near &= (x > lo - tol - size / 2) & (x < hi + tol + size / 2)
        return k, near


def labelled(cats):
    """Index arrays (A,B,C) over the concatenated points of the labelled triangles, given the
    number of points in each catalog, e.g. [n1], [n1,n2] (one vertex from 1, two from 2),
    [n1,n2,n3]."""
    if len(cats) == 1:
        t = np.array(list(itertools.combinations(range(cats[0]), 3)), dtype=int).reshape(-1, 3)
    elif len(cats) == 2:
        n1, n2 = cats
        pr = np.array(list(itertools.combinations(range(n1, n1 + n2), 2)), dtype=int).reshape(-1, 2)
        a = np.repeat(np.arange(n1), len(pr))
        pr = np.tile(pr, (n1, 1))
        t = np.concatenate([a[:, None], pr], axis=1)
    else:
        n1, n2, n3 = cats
        a, b, c = np.meshgrid(np.arange(n1), np.arange(n1, n1 + n2),
                              np.arange(n1 + n2, n1 + n2 + n3), indexing='ij')
        t = np.stack([a.ravel(), b.ravel(), c.ravel()], axis=1)
    return t


PERMS = list(itertools.permutations(range(3)))


def arrangements(cats, ordered):
    """(m,3) index arrays: every allowed assignment (P1,P2,P3) of every labelled triangle."""
    t = labelled(cats)
    if len(cats) == 1 or not ordered:
        perms = PERMS
    elif len(cats) == 2:
        perms = [(0, 1, 2), (0, 2, 1)]
    else:
        perms = [(0, 1, 2)]
    return np.concatenate([t[:, list(p)] for p in perms]) if len(t) else t


def side(coords, metric, a, b, period):
    diff = b - a
    if metric == 'Periodic':
        diff = np.stack([P.wrap(diff[..., i], period[i]) for i in range(3)], axis=-1)
    if metric == 'Arc':
        cr = np.cross(a, b)
        return np.arctan2(np.sqrt(np.sum(cr * cr, -1)), np.sum(a * b, -1)), diff
    return np.sqrt(np.sum(diff * diff, -1)), diff


def expdir(coords, p_from, p_to):
    """Unit complex direction at p_from towards p_to in the local (x, y) frame TreeCorr uses:
    flat (x,y); on the sky (west, north)."""
    if coords == 'flat':
        d = p_to - p_from
        z = d[:, 0] + 1j * d[:, 1]
    else:
        a = p_from / np.sqrt(np.sum(p_from ** 2, -1))[:, None]
        b = p_to / np.sqrt(np.sum(p_to ** 2, -1))[:, None]
        z = -P.direction(b, a)     # towards b, (east, north)
        z = -np.conj(z)            # (west, north)
    n = np.abs(z)
    return np.where(n > 0, z / np.where(n > 0, n, 1), 0)


def three_point(bins, coords, metric, pts, w, fields, cats, ordered, letters='NNN',
                period=(0, 0, 0), wrapproj=True, coloc=False):
    """pts (n,3), w (n), fields (n) real or complex over the concatenated catalogs.
    Returns dict name -> (sum array of bins.shape, slack (scalar), magnitude array), '_stats'."""
    T = arrangements(cats, ordered)
    bt = bins.bin_type
    S = bins.shape
    nb = int(np.prod(S))
    a, b, c = pts[T[:, 0]], pts[T[:, 1]], pts[T[:, 2]]
    d1, r23 = side(coords, metric, b, c, period)
    d2, r13 = side(coords, metric, a, c, period)
    d3, r12 = side(coords, metric, a, b, period)
    scale = np.max(np.abs(pts)) if len(pts) else 1.
    if max(period):
        scale = max(scale, max(period))
    err = 1e-14 * scale
    if metric == 'Arc':
        err = 1e-14
    # orientation: positive if (P1,P2,P3) is counter-clockwise as seen by the observer
    if coords == 'flat':
        area = r12[:, 0] * r13[:, 1] - r12[:, 1] * r13[:, 0]
        atol = 1e-13 * scale * (np.abs(d2) + np.abs(d3)) + 1e-300
    else:
        area = -np.sum(np.cross(r12, r13) * a, axis=-1)
        n12 = np.sqrt(np.sum(r12 ** 2, -1))
        n13 = np.sqrt(np.sum(r13 ** 2, -1))
        # cross(r12,r13).p1 loses precision when the triangle is nearly in a plane with the origin
        atol = 1e-13 * scale * scale * (n12 + n13) + 1e-300
    ccw = area > 0
    flatamb = np.abs(area) <= atol
    www = w[T[:, 0]] * w[T[:, 1]] * w[T[:, 2]]
    rel = 1e-10
    with np.errstate(all='ignore'):
        if bt == 'LogRUV':
            sel = (d1 >= d2) & (d2 >= d3)
            # ties: several arrangements of one triangle are "sorted"
            tie = (np.abs(d1 - d2) <= rel * d1 + err) | (np.abs(d2 - d3) <= rel * d2 + err)
            u = d3 / d2
            v = (d1 - d2) / d3
            kr, nr = bins.sep(d2)
            ku, nu = bins.lin(u, bins.min_u, bins.max_u, bins.nubins, 1e-10, bins.max_u == 1.)
            vtol = 1e-10 + 1e-13 * scale / np.maximum(d3, 1e-300) + 1e-13 * d1 / np.maximum(d3, 1e-300)
            kv, nv = bins.lin(v, bins.min_v, bins.max_v, bins.nvbins, vtol, bins.max_v == 1.)
            kv2 = np.where(ccw, bins.nvbins + kv, bins.nvbins - 1 - kv)
            k = np.where((kr < 0) | (ku < 0) | (kv < 0), -1,
                         (kr * bins.nubins + ku) * 2 * bins.nvbins + kv2)
            amb = nr | nu | nv | flatamb | ~np.isfinite(u) | ~np.isfinite(v)
            amb |= tie
            near_sorted = (d1 >= d2 * (1 - rel) - err) & (d2 >= d3 * (1 - rel) - err)
            cand = sel | (tie & near_sorted)
            # a collinear or borderline triangle cannot matter if well outside the ranges
            out = (d2 < bins.edges[0] * (1 - 1e-8)) | (d2 > bins.edges[-1] * (1 + 1e-8))
            out |= (u < bins.min_u - 1e-8) | (u > bins.max_u + 1e-8)
            out |= (v < bins.min_v - vtol - 1e-8) | (v > bins.max_v + vtol + 1e-8)
            sure = sel & ~amb & (k >= 0)
            ambs = cand & amb & ~out
            third = np.where(ccw, v, -v)
            second = u
        else:
            k2, n2 = bins.sep(d2)
            k3, n3 = bins.sep(d3)
            inr2 = (d2 >= bins.edges[0] * (1 - 1e-8)) & (d2 <= bins.edges[-1] * (1 + 1e-8))
            inr3 = (d3 >= bins.edges[0] * (1 - 1e-8)) & (d3 <= bins.edges[-1] * (1 + 1e-8))
            if bt == 'LogSAS':
                if metric == 'Arc':
                    z = expdir(coords, a, c) * np.conj(expdir(coords, a, b))
                    phi = np.abs(np.angle(z))
                    cosphi = np.cos(phi)
                else:
                    cosphi = np.clip((d2 ** 2 + d3 ** 2 - d1 ** 2) / (2 * d2 * d3), -1, 1)
                    if metric == 'Periodic':
                        phi = np.arccos(cosphi)
                    else:
                        cr = np.cross(r12, r13)
                        phi = np.arctan2(np.sqrt(np.sum(cr * cr, -1)), np.sum(r12 * r13, -1))
                dc = 1e-13 * (1 + (d1 / np.minimum(d2, d3)) ** 2 + (d2 / d3 + d3 / d2)
                              + scale * scale / np.maximum(d2 * d3, 1e-300) * 1e-2)
                ptol = np.minimum(np.sqrt(dc) * 3, dc / np.maximum(np.abs(np.sin(phi)), 1e-30)) * 3
                kp, npn = bins.lin(phi, bins.min_phi, bins.max_phi, bins.nphi_bins, ptol,
                                   abs(bins.max_phi - np.pi) < 1e-9)
                k = np.where((k2 < 0) | (k3 < 0) | (kp < 0), -1,
                             (k2 * bins.nbins + k3) * bins.nphi_bins + kp)
                # phi sweeps counter-clockwise from d2 (P1P3) to d3 (P1P2), so (P1,P3,P2) is CCW
                sel = ~ccw
                inp = (phi >= bins.min_phi - ptol - 1e-8) & (phi <= bins.max_phi + ptol + 1e-8)
                amb = n2 | n3 | npn | flatamb | (d1 <= err)
                ambs = amb & inr2 & inr3 & inp & (sel | flatamb)
                sure = sel & ~amb & (k >= 0)
                second = phi
            else:
                k = np.where((k2 < 0) | (k3 < 0), -1, k2 * bins.nbins + k3)
                amb = n2 | n3
                ambs = amb & inr2 & inr3
                sure = ~amb & (k >= 0)
                # Coincident P2, P3 of one catalog are excluded (except possibly from ntri)
                cat = np.repeat(np.arange(len(cats)), cats)
                co = (d1 == 0) & (cat[T[:, 1]] == cat[T[:, 2]])
                nco = np.bincount(k[co & sure], minlength=bins.nbins ** 2)
                nsure = int(np.sum(co & sure))
                sure &= ~co
                if coloc:
                    ambs |= co & (k >= 0)
    q = dict(ntri=np.ones(len(T)), weight=www)
    logs = [np.log(np.where(x > 0, x, 1.)) for x in (d1, d2, d3)]
    q.update(d1=www * d1, d2=www * d2, d3=www * d3, l1=www * logs[0], l2=www * logs[1],
             l3=www * logs[2])
    if bt == 'LogRUV':
        q.update(u=www * u, v=www * third)
    elif bt == 'LogSAS':
        q.update(u=www * second)
    f1, f2, f3 = (fields[T[:, i]] if fields is not None else None for i in range(3))
    if bt == 'LogMultipole':
        if coords == 'flat' and metric == 'Periodic':
            e2 = (r12[:, 0] + 1j * r12[:, 1]) / d3
            e3 = (r13[:, 0] + 1j * r13[:, 1]) / d2
        else:
            e2 = expdir(coords, a, b)
            e3 = expdir(coords, a, c)
        e = e2 * np.conj(e3)      # phi from d2 (towards P3) to d3 (towards P2)
    if letters == 'KKK':
        q['zeta'] = www * f1 * f2 * f3
    elif letters == 'GGG':
        if bt == 'LogMultipole':
            bis = e2 + e3
            bis = bis / np.where(np.abs(bis) > 0, np.abs(bis), 1)
            x1, x2, x3 = bis, None, None
            if coords == 'flat' and wrapproj:
                x2, x3 = e2, e3
            else:
                x2, x3 = expdir(coords, b, a), expdir(coords, c, a)
        else:
            if coords == 'flat':
                cen = (a + b + c) / 3
                if metric == 'Periodic' and wrapproj:
                    cen = a + (r12 + r13) / 3
            else:
                un = [x / np.sqrt(np.sum(x * x, -1))[:, None] for x in (a, b, c)]
                cen = un[0] + un[1] + un[2]
            if metric == 'Periodic' and coords == 'flat' and wrapproj:
                x1 = expdir(coords, a, cen)
                x2 = expdir(coords, a + r12, cen)
                x3 = expdir(coords, a + r13, cen)
            else:
                x1, x2, x3 = expdir(coords, a, cen), expdir(coords, b, cen), expdir(coords, c, cen)
        z1 = f1 * np.conj(x1) ** 2
        z2 = f2 * np.conj(x2) ** 2
        z3 = f3 * np.conj(x3) ** 2
        q['gam0'] = www * z1 * z2 * z3
        q['gam1'] = www * np.conj(z1) * z2 * z3
        q['gam2'] = www * z1 * np.conj(z2) * z3
        q['gam3'] = www * z1 * z2 * np.conj(z3)
    res = {}
    ks = k[sure]
    if bt == 'LogMultipole':
        # Terms with P2 = P3 are subtracted off, which leaves rounding of this order.
        ww = np.abs(w) * (1. if fields is None else np.maximum(1., np.abs(fields)))
        extra = np.sum(ww) * np.sum(ww ** 2)
        n1d = np.arange(-bins.max_n, bins.max_n + 1)
        n2 = bins.nbins ** 2
        for name, x in q.items():
            multi = name in ('weight', 'zeta', 'gam0', 'gam1', 'gam2', 'gam3')
            mag = np.bincount(ks, np.abs(x[sure]), n2).reshape(bins.nbins, bins.nbins)
            sl = float(np.sum(np.abs(x[ambs])))
            if multi:
                out = np.zeros((n2, len(n1d)), dtype=complex)
                for i, n in enumerate(n1d):
                    y = (x * e ** (-n))[sure]
                    out[:, i] = np.bincount(ks, y.real, n2) + 1j * np.bincount(ks, y.imag, n2)
                res[name] = (out.reshape(S), sl, mag[:, :, None] + np.zeros(S) + (extra * 1e-3 if multi else 0))
            else:
                s = np.bincount(ks, x[sure], n2).reshape(bins.nbins, bins.nbins)
                res[name] = (s[:, :, None] + np.zeros(S), sl, mag[:, :, None] + np.zeros(S))
    else:
        for name, x in q.items():
            y = x[sure]
            s = np.bincount(ks, y.real, nb)
            if np.iscomplexobj(x):
                s = s + 1j * np.bincount(ks, y.imag, nb)
            mag = np.bincount(ks, np.abs(y), nb)
            res[name] = (s.reshape(S), float(np.sum(np.abs(x[ambs & np.isfinite(x)]))),
                         mag.reshape(S))
    if bt == 'LogMultipole':
        s, sl, mag = res['ntri']
        res['ntri'] = (s, sl + nco.reshape(bins.nbins, bins.nbins)[:, :, None], mag)
    res['_stats'] = dict(coincident=nsure if bt == 'LogMultipole' else 0, tri=int(np.sum(sure)), ambiguous=int(np.sum(ambs)),
                         all=len(T), bins=len(np.unique(ks)))
    return res
