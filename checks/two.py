"""Shared two-point comparison of the real code with the brute-force oracle."""
import numpy as np
from oracle import pairs as P
from vlib import gen


def corr_class(treecorr, letters):
    return getattr(treecorr, letters + 'Correlation')


def quantities(letters, D1, D2, coords, fields=True, period=None):
    """Function of (d, logd) giving the per-pair arrays that are summed."""
    a, b = letters
    Db = D1 if D2 is None else D2
    ww = D1.w[:, None] * Db.w[None, :]

    def f(d, logd):
        q = dict(npairs=np.ones(d.shape), weight=ww, wr=ww * d, wlogr=ww * logd)
        if not fields or letters == 'NN':
            return q
        v1 = D1.field(a)[:, None]
        v2 = Db.field(b)[None, :]
        if a in 'NK' and b in 'NK':
            q['xi'] = ww * v1 * v2
            return q
        ph1, ph2 = phases(coords, D1.p, Db.p, period)
        s = P.SPIN[b]
        z2 = v2 * np.conj(ph2) ** s if s else v2
        if b == 'G' and a in 'NK':
            z2 = -z2
        if a in 'NK':
            q['xi'] = ww * v1 * z2
            return q
        z1 = v1 * np.conj(ph1) ** s if s else v1
        q['xip'] = ww * z1 * np.conj(z2)
        q['xim'] = ww * z1 * z2
        return q
    return f


def phases(coords, p1, p2, period=None):
    z1, z2 = P.phases(coords, p1, p2, period)
    if coords == 'flat':
        return z1, z2
    # On the sky TreeCorr's x axis points west (as seen from inside, east is to the left).
    return -np.conj(z1), -np.conj(z2)


def finalize_means(bins, res, coords, metric):
    W = res['weight'][0]
    ok = W != 0
    mr = np.zeros(len(W))
    ml = np.zeros(len(W))
    mr[ok] = res['wr'][0][ok] / W[ok]
    ml[ok] = res['wlogr'][0][ok] / W[ok]
    if coords == 'spherical' and metric == 'Euclidean':
        mr[ok] = 2 * np.arcsin(np.minimum(mr[ok] / 2, 1))
        ml[ok] = np.log(2 * np.arcsin(np.minimum(np.exp(ml[ok]) / 2, 1)))
    mr[ok] /= bins.unit
    ml[ok] -= np.log(bins.unit)
    return ok, mr, ml


def compare(mon, c, corr, letters, D1, D2, bins, res, what='', exact=True, ftol=1e-10,
            means='exact', fields=True):
    """Compares a finalized correlation with the oracle's sums."""
    S = bins.shape
    nb = bins.ntot_bins
    npairs, nsl, _ = res['npairs']
    W, Wsl, Wmag = res['weight']
    rel = ftol
    g = np.asarray(corr.npairs, dtype=float).ravel()
    good = mon.check(corr.npairs.shape == S, what + 'npairs shape', got=corr.npairs.shape, want=S)
    if not good:
        return False
    good = mon.between(what + 'npairs', g, npairs - 0., npairs + nsl)
    w = corr.weight.ravel()
    good &= mon.between(what + 'weight', w, W - rel * Wmag, W + Wsl + rel * Wmag)
    sharp = Wsl == 0
    ok, mr, ml = finalize_means(bins, res, c['coords'], c['metric'])
    has = ok & sharp
    if means == 'exact':
        t = 1e-9
        if c['coords'] == 'spherical' and c['metric'] == 'Euclidean':
            t = 1e-6  # near 180 degrees arcsin amplifies rounding
            t = np.where(mr * bins.unit < 3.0, 3e-9, 1e-5)[has]
        zero = (res['wr'][0] == 0)[has]
        good &= mon.close(what + 'meanr', corr.meanr.ravel()[has], mr[has], 1e-300, rtol=t)
        good &= mon.close(what + 'meanlogr', corr.meanlogr.ravel()[has][~zero], ml[has][~zero],
                          1e-9 if np.isscalar(t) else t[~zero], rtol=1e-9)
    mon.count('bins_with_pairs', np.sum(ok))
    mon.count('pairs_accounted', res['_stats']['pairs'])
    mon.count('pairs_excluded', res['_stats']['out'])
    mon.count('pairs_at_edges', res['_stats']['ambiguous'])
    # bins without weight report their nominal centre
    empty = (W + Wsl + Wmag) == 0
    if np.any(empty):
        good &= mon.equal(what + 'meanr of empty bins', corr.meanr.ravel()[empty],
                          corr.rnom.ravel()[empty])
        good &= mon.equal(what + 'meanlogr of empty bins', corr.meanlogr.ravel()[empty],
                          corr.logr.ravel()[empty])
    if not fields or letters == 'NN':
        return good
    a, b = letters

    def fld(name, attr_re, attr_im, sign=1):
        ok_ = True
        s, sl, mag = res[name]
        v = np.zeros(nb, dtype=complex)
        v[has] = s[has] / W[has]
        tol = np.zeros(nb)
        tol[has] = (sl[has] + rel * mag[has]) / np.abs(W[has])
        got = getattr(corr, attr_re).ravel()
        ok_ &= mon.close(what + attr_re, got[has], v.real[has], tol[has] + 1e-300)
        if np.any(empty):
            ok_ &= mon.equal(what + attr_re + ' of empty bins', got[empty], 0 * got[empty])
        if attr_im:
            got = getattr(corr, attr_im).ravel()
            ok_ &= mon.close(what + attr_im, got[has], v.imag[has], tol[has] + 1e-300)
        mon.count('field_bins_compared', np.sum(has))
        return ok_
    if a in 'NK':
        xi = 'xi'
        im = 'xi_im' if b not in 'NK' else None
        if letters[0] == 'N':
            xi = 'raw_xi' if hasattr(corr, 'raw_xi') else 'xi'
        good &= fld('xi', 'xi', im)
    else:
        # In an auto-correlation the order of the two points is arbitrary, so the imaginary part
        # of xi+ is only defined up to the sign of each pair's contribution.
        if D2 is None:
            good &= fld('xip', 'xip', None)
            if bins.bin_type == 'TwoD':
                pass
        else:
            good &= fld('xip', 'xip', 'xip_im')
        good &= fld('xim', 'xim', 'xim_im')
    return good


def run_corr(treecorr, letters, D1, D2, kw, cat_kw=None, **extra):
    k = dict(kw)
    metric = k.pop('metric', None)
    k.update(extra)
    corr = corr_class(treecorr, letters)(metric=metric, **k)
    c1 = D1.catalog(treecorr, **(cat_kw or {}))
    if D2 is None:
        corr.process(c1)
    else:
        corr.process(c1, D2.catalog(treecorr, **(cat_kw or {})))
    return corr
