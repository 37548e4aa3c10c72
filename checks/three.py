"""Shared three-point generator, driver and comparison with the brute-force oracle."""
import numpy as np
from oracle import pairs as P
from oracle import tri as T
from vlib import gen

GEOM = {'flat': ['uniform', 'uniform', 'cluster', 'strip', 'scales', 'dups', 'offset'],
        'spherical': ['fullsky', 'patch', 'pole', 'rawrap', 'smallpatch', 'dups'],
        '3d': ['box', 'farbox', 'cone', 'widecone', 'shell', 'dups']}


def case(q, tag, bin_types, sizes=(3, 4, 6, 10, 16), letters=('NNN', 'KKK', 'GGG')):
    c = dict(tag=tag, seed=q.randrange(2 ** 31), bin_type=q.choice(bin_types))
    c['coords'] = q.choice(['flat', 'flat', 'spherical', '3d'])
    c['metric'] = q.choice(dict(flat=['Euclidean', 'Euclidean', 'Periodic'],
                                spherical=['Euclidean', 'Arc'],
                                **{'3d': ['Euclidean', 'Euclidean', 'Arc', 'Periodic']}
                                )[c['coords']])
    c['letters'] = q.choice(letters)
    if c['metric'] == 'Periodic' and c['coords'] == '3d' and c['bin_type'] != 'LogRUV':
        # the sense of rotation as seen from the origin is not periodic
        c['metric'] = 'Euclidean'
    c['ncat'] = q.choice([1, 1, 2, 3])
    c['ordered'] = q.random() < 0.5
    c['n'] = [q.choice(sizes) for _ in range(c['ncat'])]
    c['geom'] = q.choice(GEOM[c['coords']])
    c['geom2'] = c['geom'] if q.random() < 0.75 else q.choice(GEOM[c['coords']])
    c['weights'] = q.choice(['none', 'dyadic', 'dyadic', 'zeros'])
    c['split_method'] = q.choice(['mean', 'median', 'middle', 'random'])
    c['brute'] = q.choice([False, False, False, True])
    c['min_top'] = q.choice([None, None, 0, 1, 3])
    c['max_top'] = q.choice([None, None, 3, 10])
    if c['min_top'] is not None and c['max_top'] is not None:
        c['max_top'] = max(c['max_top'], c['min_top'])
    c['threads'] = q.choice([1, 1, 2])
    c['nbins'] = q.choice([1, 2, 3, 5])
    c['lo'] = q.choice([0.0, 0.05, 0.3])
    c['hi'] = q.choice([0.4, 0.8, 1.0])
    c['style'] = q.choice(['xyz', 'radecr'])
    if c['coords'] == '3d':
        c['pscale'] = q.choice([1., 1., 0.01, 100.])
    c['sep_units'] = None
    c['unit'] = None
    if c['coords'] == 'spherical' or (c['metric'] == 'Arc'):
        c['sep_units'] = q.choice([None, 'radians', 'degrees', 'arcmin'])
    if c['coords'] == 'spherical':
        c['unit'] = q.choice(['radians', 'degrees', 'hours'])
    elif c['coords'] == 'flat' and q.random() < 0.15:
        c['unit'] = q.choice(['degrees', 'arcmin'])
        c['sep_units'] = q.choice(['degrees', 'arcsec'])
    c['nu'] = q.choice([1, 2, 3])
    c['nv'] = q.choice([1, 2, 3])
    c['urange'] = q.choice([(0., 1.), (0., 1.), (0.2, 0.9), (0.5, 1.), (0.1, 0.4)])
    c['vrange'] = q.choice([(0., 1.), (0., 1.), (0.1, 0.8), (0.4, 1.), (0., 0.3)])
    c['nphi'] = q.choice([1, 2, 4])
    c['prange'] = q.choice([(0., 1.), (0., 1.), (0.1, 0.7), (0.5, 1.), (0., 0.3), (0.35, 0.9)])
    c['phi_units'] = q.choice([None, None, 'radians', 'degrees'])
    c['max_n'] = q.choice([0, 1, 2, 5])
    return c


def resolve(c):
    """Returns list of Data, Bins3, kwargs, period."""
    Ds = []
    for i, n in enumerate(c['n']):
        Ds.append(gen.Data(c['seed'] + 7919 * i, c['coords'], n, c['geom' if i == 0 else 'geom2'],
                           c['weights'], c.get('unit'), c.get('style'), fields='KG',
                           pscale=c.get('pscale', 1.)))
    r = np.random.RandomState(c['seed'] % 100003)
    allp = np.concatenate([D.p for D in Ds])
    period = (0, 0, 0)
    kw = dict(bin_type=c['bin_type'])
    if c['metric'] == 'Periodic':
        ext = np.max(np.ptp(allp, axis=0)) or 1.
        per = float(ext * r.choice([0.8, 1.0, 1.3, 2.5]))
        # d2 + d3 <= period/2, otherwise the wrapped sides need not close into a triangle
        c = dict(c, hi=c['hi'] * 0.5)
        kw['period'] = per
        period = (per, per, per if c['coords'] == '3d' else 0)
    d, _, _, _, _ = P.separations(c['coords'], c['metric'], allp, allp, period)
    dd = np.sort(d[d > 1e-7 * (np.max(d) or 1.)])
    if len(dd) == 0:
        dd = np.array([1.])
    unit = P.ANGLE[c['sep_units']] if c.get('sep_units') else 1.
    mn = np.quantile(dd, c['lo']) * r.choice([0.5, 0.9])
    mx = np.quantile(dd, c['hi']) * 1.05
    mx = max(mx, mn * 1.3)
    if c['metric'] == 'Arc':
        mx = min(mx, np.pi)
    if c['metric'] == 'Periodic':
        mx = min(mx, 0.2499 * per)
        mn = min(mn, mx / 1.3)
    spec = dict(min_sep=float(mn / unit), max_sep=float(mx / unit), nbins=c['nbins'])
    b = dict(spec)
    if c['bin_type'] == 'LogRUV':
        x = dict(min_u=c['urange'][0], max_u=c['urange'][1], nubins=c['nu'],
                 min_v=c['vrange'][0], max_v=c['vrange'][1], nvbins=c['nv'])
        spec.update(x)
        b.update(x)
    elif c['bin_type'] == 'LogSAS':
        u = P.ANGLE[c['phi_units']] if c['phi_units'] else 1.
        lo, hi = [v * np.pi for v in c['prange']]
        spec.update(nphi_bins=c['nphi'])
        if lo > 0 or r.rand() < 0.5:
            spec['min_phi'] = float(lo / u)
        if hi < np.pi or r.rand() < 0.5:
            spec['max_phi'] = float(hi / u)
        if c['phi_units']:
            spec['phi_units'] = c['phi_units']
        b.update(min_phi=lo, max_phi=hi, nphi_bins=c['nphi'])
    else:
        spec.update(max_n=c['max_n'])
        b.update(max_n=c['max_n'])
    bins = T.Bins3(c['bin_type'], unit=unit, **b)
    kw.update(spec)
    if c.get('sep_units'):
        kw['sep_units'] = c['sep_units']
    kw['split_method'] = c['split_method']
    kw['brute'] = c['brute']
    for k in ('min_top', 'max_top'):
        if c.get(k) is not None:
            kw[k] = c[k]
    kw['num_threads'] = c['threads']
    return Ds, bins, kw, period


def oracle(c, Ds, bins, period, letters=None, wrapproj=True, coloc=False):
    letters = letters or c['letters']
    kept = []
    for D in Ds:
        k = D.w != 0
        kept.append((D.p[k], D.w[k], None if letters[0] == 'N' else D.field(letters[0])[k]))
    p = np.concatenate([x[0] for x in kept])
    w = np.concatenate([x[1] for x in kept])
    f = None if letters[0] == 'N' else np.concatenate([x[2] for x in kept])
    return T.three_point(bins, c['coords'], c['metric'], p, w, f, [len(x[1]) for x in kept],
                         c['ordered'], letters, period, wrapproj, coloc)


def run_corr(treecorr, c, Ds, kw, algo=None, letters=None):
    letters = letters or c['letters']
    cls = getattr(treecorr, letters + 'Correlation')
    corr = cls(**kw)
    cats = [D.catalog(treecorr) for D in Ds]
    if len(cats) == 2:
        corr.process(cats[0], cats[1], metric=c['metric'], ordered=c['ordered'], algo=algo)
    elif len(cats) == 3:
        corr.process(*cats, metric=c['metric'], ordered=c['ordered'], algo=algo)
    else:
        corr.process(cats[0], metric=c['metric'], algo=algo)
    return corr


def means(bins, res, c):
    """Finalized mean quantities from the oracle sums: dict name -> (value, tolerance)."""
    W = res['weight'][0]
    if bins.bin_type == 'LogMultipole':
        W = W[:, :, bins.max_n].real[:, :, None] + np.zeros(bins.shape)
    ok = W != 0
    m = {}
    for k in ('d1', 'd2', 'd3', 'l1', 'l2', 'l3', 'u', 'v'):
        if k in res:
            m[k] = np.zeros(bins.shape)
            m[k][ok] = res[k][0][ok] / W[ok]
    chord = c['coords'] == 'spherical' and c['metric'] == 'Euclidean'
    if chord:
        if bins.bin_type == 'LogSAS':
            with np.errstate(all='ignore'):
                cp = (np.cos(m['u']) - 0.25 * m['d2'] * m['d3']) / np.sqrt(
                    (1 - m['d2'] ** 2 / 4) * (1 - m['d3'] ** 2 / 4))
            m['cosphi'] = cp
            m['u'] = np.arccos(np.clip(cp, -1, 1))
        for k in ('d1', 'd2', 'd3'):
            m[k] = 2 * np.arcsin(np.minimum(m[k] / 2, 1))
        for k in ('l1', 'l2', 'l3'):
            m[k] = np.log(2 * np.arcsin(np.minimum(np.exp(m[k]) / 2, 1)))
    for k in ('d1', 'd2', 'd3'):
        m[k] /= bins.unit
    for k in ('l1', 'l2', 'l3'):
        m[k] -= np.log(bins.unit)
    return ok, m


def compare(mon, c, corr, bins, res, what='', with_means=True, letters=None):
    letters = letters or c['letters']
    bt = bins.bin_type
    if not mon.check(corr.ntri.shape == bins.shape, what + 'ntri shape', got=corr.ntri.shape,
                     want=bins.shape):
        return False
    nt, nsl, _ = res['ntri']
    good = mon.between(what + 'ntri', corr.ntri, nt - 1e-9 * (nt if bt == 'LogMultipole' else 0),
                       nt + nsl + 1e-9 * (nt if bt == 'LogMultipole' else 0))
    W, wsl, wmag = res['weight']
    # projections onto the sky lose some digits
    wt = 1e-11 if c['coords'] == 'flat' else 1e-9
    if bt == 'LogMultipole':
        good &= mon.close(what + 'weightr', corr.weightr, W.real, wsl + wt * wmag)
        good &= mon.close(what + 'weighti', corr.weighti, W.imag, wsl + wt * wmag)
    else:
        good &= mon.between(what + 'weight', corr.weight, W - 1e-11 * wmag, W + wsl + 1e-11 * wmag)
    mon.count('triangles_accounted', res['_stats']['tri'])
    mon.count('triangles_excluded', res['_stats']['all'] - res['_stats']['tri'])
    mon.count('triangles_at_edges', res['_stats']['ambiguous'])
    ok, m = means(bins, res, c)
    sharp = wsl == 0
    if not sharp:
        mon.count('cases_with_edge_triangles')
        return good
    if with_means:
        chord = c['coords'] == 'spherical' and c['metric'] == 'Euclidean'
        rt = 1e-9
        at = 0.
        if chord:
            # arcsin amplifies rounding near 180 degrees
            rt = np.where(m['d2'] * bins.unit + m['d3'] * bins.unit < 5., 1e-8, 1e-5)[ok]
        names = [('meand2', 'd2'), ('meanlogd2', 'l2'), ('meand3', 'd3'), ('meanlogd3', 'l3')]
        if bt != 'LogMultipole':
            names += [('meand1', 'd1'), ('meanlogd1', 'l1')]
        for a, k in names:
            r = rt
            if chord and k in ('d1', 'l1'):
                r = np.where(m['d1'] * bins.unit < 3., 1e-8, 1e-5)[ok]
            # d's are held in single precision nowhere, but rounding of far-away positions matters
            pos = 1e-13 * max(np.max(np.abs(corr_scale(c))), 1e-300)
            atol = pos if k[0] == 'd' else 1e-8
            good &= mon.close(what + a, getattr(corr, a)[ok], m[k][ok], atol / bins.unit
                              if k[0] == 'd' else atol, rtol=r)
        if bt == 'LogRUV':
            good &= mon.close(what + 'meanu', corr.meanu[ok], m['u'][ok], 1e-9)
            good &= mon.close(what + 'meanv', corr.meanv[ok], m['v'][ok], 1e-7)
        elif bt == 'LogSAS':
            u = P.ANGLE[c['phi_units']] if c['phi_units'] else 1.
            tol = 3e-7
            if chord:
                with np.errstate(all='ignore'):
                    tol = 3e-7 + np.minimum(1e-10 / np.maximum(np.abs(np.sin(m['u'])), 1e-5), 1e-3)
                    tol = np.where(m['d2'] * bins.unit + m['d3'] * bins.unit < 5., tol, 1e-3)[ok]
            good &= mon.close(what + 'meanphi', corr.meanphi[ok], m['u'][ok] / u, tol / u)
        mon.count('mean_bins_compared', np.sum(ok))
    empty = (wmag == 0) if bt != 'LogMultipole' else (nt == 0)
    if np.any(empty) and bt == 'LogSAS':
        u = P.ANGLE[c['phi_units']] if c['phi_units'] else 1.
        good &= mon.close(what + 'meanphi of empty bins', corr.meanphi[empty],
                          corr.phi[empty] / u, 1e-12, rtol=1e-12)
    if np.any(empty):
        good &= mon.close(what + 'meand2 of empty bins', corr.meand2[empty],
                          (corr.rnom if bt == 'LogRUV' else corr.d2nom)[empty], 0, rtol=1e-12)
    ft = 1e-10 if c['coords'] == 'flat' else 3e-9
    names = dict(KKK=['zeta'], GGG=['gam0', 'gam1', 'gam2', 'gam3'], NNN=[])[letters]
    for nm in names:
        s, sl, mag = res[nm]
        got = getattr(corr, nm)
        if bt == 'LogMultipole':
            good &= mon.close(what + nm, got, s, sl + ft * mag)
        else:
            v = np.zeros(s.shape, dtype=s.dtype)
            t = np.zeros(s.shape)
            v[ok] = s[ok] / W[ok]
            t[ok] = ft * mag[ok] / np.abs(W[ok])
            good &= mon.close(what + nm, got[ok], v[ok], t[ok] + 1e-300)
            good &= mon.equal(what + nm + ' of empty bins', got[empty], 0 * got[empty])
        mon.count('field_bins_compared', np.sum(ok))
    return good


def corr_scale(c):
    return dict(flat=3000., spherical=1.).get(c['coords'], 200. * c.get('pscale', 1.))


def cover(mon, c, res):
    for k in ('coords', 'metric', 'bin_type', 'letters', 'ncat', 'ordered', 'brute', 'geom',
              'split_method'):
        mon.cover(k, c[k])
    if res['_stats']['tri'] > 0:
        mon.nontrivial((c['bin_type'], c['letters'], c['coords'], c['metric'], c['ncat'],
                        c['ordered'], c['brute'], c['geom']))
