"""C03: with slop, pairs leak at most the allowed slop across bin edges; field mixing is bounded."""
import numpy as np
from oracle import pairs as P
from vlib import gen
from checks import two

RULE = ('Random catalogs (20-500 points) and configurations with bin_slop in {default, 0.05..5} and '
        'angle_slop in {default, 0.03..1}: for every contiguous range of bins (every cell for '
        'TwoD) the pair count and weight lie between the brute-force counts for the range shrunk '
        'and widened by the slop; with bin_slop=0 and angle_slop=a the flat field sums stay within '
        'the phase bound of a. Non-trivial: result differs from the exact one, or slop > 0 with '
        'pairs; signature (coords, metric, bin type, slop, geometry, letters).')
ASSUMPTIONS = ['for Rperp, OldRperp and Rlens the leakage bound is widened by 30% (sizes are '
               'scaled to first order) and wide-angle geometries are left out']
MIN_EVENTS = dict(ranges_checked=50000, runs_with_leakage=50)


def cases(tier, seed):
    q = gen.prng('C03', seed)
    n = 2500 if tier == 'quick' else 25000
    out = []
    for i in range(n):
        c = gen.two_point_case(q, 'slop', sizes=(20, 60, 150, 300, 500))
        c['letters'] = q.choice(['NN', 'NN', 'KK', 'NK', 'NG', 'NV', 'NT', 'NQ', 'KG', 'KV', 'GG', 'VV',
                                 'TT', 'QQ', 'ZZ', 'KZ'])
        if c['letters'][0] != c['letters'][1]:
            c['auto'] = False
        if c['metric'] in ('Rperp', 'FisherRperp', 'OldRperp', 'Rlens'):
            c['geom'] = c['geom2'] = q.choice(['farbox', 'cone'])
        c['brute'] = q.choice([False, False, False, False, False, True, 1, 2])
        c['weights'] = q.choice(['none', 'dyadic'])
        c['bin_slop'] = q.choice([None, None, 0.05, 0.2, 0.5, 1., 1., 2., 5., 0.])
        c['angle_slop'] = q.choice([None, None, 0.03, 0.1, 0.3, 1., 0.])
        c['slop_only_angle'] = c['bin_slop'] == 0.
        out.append(c)
    return out


def expected_slop(c, bins, corr, mon):
    """b and a as documented."""
    bs, unit = bins.bin_size, bins.unit
    if c['brute'] is True:
        return 0., 0.
    if c['bin_slop'] is None:
        if bins.bin_type == 'Log':
            b = min(bs, 0.1)
        else:
            # For Linear and TwoD: bin_slop defaults to 1 unless that is too large a fraction.
            b = corr.b * unit
        a = 0.1
    else:
        b = bs * c['bin_slop']
        a = 1.
    if bins.bin_type != 'Log' and c['bin_slop'] is not None:
        b *= unit
    if c['angle_slop'] is not None:
        a = c['angle_slop']
    return b, a


def run(c, mon):
    import treecorr
    D1, D2, bins, kw, period, rp = gen.resolve(c)
    for k in ('bin_slop', 'angle_slop'):
        if c[k] is not None:
            kw[k] = c[k]
    corr = two.run_corr(treecorr, c['letters'], D1, D2, kw)
    b, a = expected_slop(c, bins, corr, mon)
    if bins.bin_type == 'Log' and c['brute'] is not True:
        mon.close('corr.b', corr.b, b, 1e-12, 1e-9)
    res = P.two_point(bins, c['coords'], c['metric'], D1.p, D1.p if D2 is None else D2.p,
                      D2 is None, two.quantities(c['letters'], D1, D2, c['coords'], True, period),
                      period, zero_sep='ambiguous', **rp)
    m = res['_mat']
    Db = D1 if D2 is None else D2
    ww = D1.w[:, None] * Db.w[None, :]
    sure = m['ok'] & ~m['okamb']
    maybe = m['ok'] | m['okamb']
    npairs = np.asarray(corr.npairs, dtype=float)
    weight = np.asarray(corr.weight)
    mon.equal('npairs whole numbers', npairs, np.round(npairs))
    leak = b
    if c['metric'] in ('Rperp', 'FisherRperp', 'OldRperp', 'Rlens'):
        leak = b * 1.3
    if bins.bin_type == 'TwoD':
        check_2d(mon, bins, m, sure, maybe, ww, npairs, weight, b)
    else:
        check_1d(mon, bins, m, sure, maybe, ww, npairs, weight, leak)
    exact = res['npairs'][0]
    if np.any(np.abs(npairs.ravel() - exact) > res['npairs'][1]):
        mon.count('runs_with_leakage')
        mon.count('pairs_leaked', np.sum(np.abs(npairs.ravel() - exact)))
    if b == 0. and c['coords'] == 'flat' and c['metric'] == 'Euclidean':
        check_angle(mon, c, corr, bins, res, a)
    for k in ('coords', 'metric', 'bin_type', 'bin_slop', 'angle_slop', 'letters'):
        mon.cover(k, c[k])
    if res['_stats']['pairs'] > 0 and b > 0:
        mon.nontrivial((c['coords'], c['metric'], c['bin_type'], c['bin_slop'], c['angle_slop'],
                        c['geom'], c['letters']))


def check_1d(mon, bins, m, sure, maybe, ww, npairs, weight, b):
    e = bins.edges
    tol = 1e-9
    if bins.bin_type == 'Log':
        bb = b * (1 + 1e-9)
        lo_out = e * max(0., 1 - bb) * (1 - tol)       # lowest r that may be counted above e
        hi_out = e * np.exp(bb) * (1 + tol)            # highest r that may be counted below e
    else:
        lo_out = e - b * (1 + 1e-9) - tol * e[-1]
        hi_out = e + b * (1 + 1e-9) + tol * e[-1]
    d = m['d']
    err = m['err']
    n = bins.nbins

    def cumul(x, mask, wt):
        dd = (d + x * err)[mask]
        o = np.argsort(dd, kind='stable')
        return dd[o], np.concatenate([[0.], np.cumsum(wt[mask][o])])
    one = np.ones(d.shape)
    for what, wt, got in (('npairs', one, npairs), ('weight', ww, weight)):
        ds, cs = cumul(0, sure, wt)
        dm, cm = cumul(0, maybe, wt)
        G = np.concatenate([[0.], np.cumsum(got)])
        i = np.arange(n)[:, None]
        k = np.arange(n)[None, :] + 1
        tot = G[k] - G[i]
        # pairs certainly in bins i..k-1
        low = (cs[np.searchsorted(ds, lo_out[k], side='left')]
               - cs[np.searchsorted(ds, hi_out[i], side='right')])
        up = (cm[np.searchsorted(dm, hi_out[k], side='right')]
              - cm[np.searchsorted(dm, lo_out[i], side='left')])
        mask = k > i
        t = 1e-7 * (1 + cm[-1]) if what == 'weight' else 0.
        mon.count('ranges_checked', np.sum(mask))
        g = tot[mask]
        mon.between('%s of a range of bins within the slop' % what, g,
                    np.maximum(low[mask], 0.) - t, up[mask] + t)


def check_2d(mon, bins, m, sure, maybe, ww, npairs, weight, b):
    e = bins.edges
    n = bins.nbins
    bb = b * (1 + 1e-9) + 1e-9 * bins.max_sep
    ms = bins.min_sep
    dx, dy, d = m['dx'], m['dy'], m['d']

    def table(mask, wt, shift):
        # counts of pairs in every cell shrunk (shift<0) or widened (shift>0)
        out = np.zeros((n, n))
        X = dx[mask]
        Y = dy[mask]
        R = d[mask]
        W = wt[mask]
        if ms > 0:
            if shift > 0:
                sel = R >= ms - shift
            else:
                sel = R >= ms - shift
            X, Y, R, W = X[sel], Y[sel], R[sel], W[sel]
        for j in range(n):
            sy = (Y >= e[j] - shift) & (Y <= e[j + 1] + shift)
            xs = np.sort(X[sy])
            o = np.argsort(X[sy], kind='stable')
            cw = np.concatenate([[0.], np.cumsum(W[sy][o])])
            hi = np.searchsorted(xs, e[1:] + shift, side='right')
            lo = np.searchsorted(xs, e[:-1] - shift, side='left')
            out[j] = np.maximum(cw[hi] - cw[np.minimum(lo, hi)], 0.)
        return out
    nz = d > 0
    one = np.ones(d.shape)
    for what, wt, got in (('npairs', one, npairs), ('weight', ww, weight)):
        low = table(sure & nz & (d > 2 * bb), wt, -bb)
        if 2 * bb >= e[1] - e[0]:
            low[:] = 0.
        # coincident points may be taken together with others nearby
        up = table(maybe & (nz | (bb > 0)), wt, bb)
        t = 1e-7 * (1 + np.max(up)) if what == 'weight' else 0.
        mon.count('ranges_checked', n * n)
        mon.between('%s of a TwoD cell within the slop' % what, got, low - t, up + t)
    # no pair counted twice
    tot = np.sum(maybe & (nz | (bb > 0)))
    mon.check(np.sum(npairs) <= tot, 'TwoD total', got=np.sum(npairs), want=tot)


def check_angle(mon, c, corr, bins, res, a):
    """bin_slop=0 (exact membership): field sums deviate at most by the phase error of angle a."""
    l1, l2 = c['letters']
    W, sl, mag = res['weight']
    has = (W != 0) & (sl == 0)
    if not np.any(has) or c['letters'] == 'NN':
        return
    th = np.arcsin(min(a, 1.)) * (1 + 1e-9)
    s = P.SPIN[l2] or 0

    def cmp(name, re, im, phase):
        f = np.where(phase >= np.pi, 2., 2 * np.sin(min(phase, np.pi) / 2))
        S, fs, fm = res[name]
        got = getattr(corr, re).ravel() + 1j * (getattr(corr, im).ravel() if im else 0)
        want = S[has] / W[has]
        if im is None:
            want = want.real
        tol = (fm[has] * (f + 2e-9)) / np.abs(W[has])
        mon.count('angle_bounds_checked', np.sum(has))
        mon.check(bool(np.all(np.abs(got[has] - want) <= tol + 1e-300)),
                  '%s %s within the angle slop bound' % (c['letters'], name),
                  got=got[has], want=want, tol=tol)
    if l1 in 'NK':
        cmp('xi', 'xi', 'xi_im' if l2 not in 'NK' else None, s * th)
    else:
        cmp('xip', 'xip', 'xip_im' if not c['auto'] else None, 0.)
        cmp('xim', 'xim', 'xim_im', 2 * s * th)
