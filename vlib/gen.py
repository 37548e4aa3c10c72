"""Seeded generators of catalogs and two-point configurations (values mostly dyadic, so that the
extension's single-precision cell data are exact)."""
import random
import numpy as np
from oracle import pairs as P

LETTERS2 = ['NN', 'NK', 'NZ', 'NV', 'NG', 'NT', 'NQ', 'KK', 'KZ', 'KV', 'KG', 'KT', 'KQ',
            'ZZ', 'VV', 'GG', 'TT', 'QQ']
COLS = dict(N=[], K=['k'], Z=['z1', 'z2'], V=['v1', 'v2'], G=['g1', 'g2'], T=['t1', 't2'],
            Q=['q1', 'q2'])


def flat_points(r, n, geom):
    if geom == 'uniform':
        p = r.uniform(-10, 10, (n, 2))
    elif geom == 'cluster':
        c = r.uniform(-10, 10, (max(1, n // 12), 2))
        p = c[r.randint(0, len(c), n)] + r.normal(0, 0.3, (n, 2))
    elif geom == 'lattice':
        p = r.randint(-6, 7, (n, 2)).astype(float)
    elif geom == 'line':
        t = r.uniform(-10, 10, n)
        p = np.stack([t, 0.25 * t + 1], axis=1)
    elif geom == 'dups':
        q = r.uniform(-10, 10, (max(1, n // 3), 2))
        p = q[r.randint(0, len(q), n)]
    elif geom == 'scales':
        p = r.normal(0, 1, (n, 2)) * 10. ** r.uniform(-3, 2, (n, 1))
    elif geom == 'offset':
        p = r.uniform(-10, 10, (n, 2)) + np.array([3000., -2000.])
    elif geom == 'strip':
        p = np.stack([r.uniform(-50, 50, n), r.uniform(-0.5, 0.5, n)], axis=1)
    else:
        raise ValueError(geom)
    return p


FLAT = ['uniform', 'cluster', 'lattice', 'line', 'dups', 'scales', 'offset', 'strip']
SPH = ['fullsky', 'patch', 'pole', 'rawrap', 'smallpatch', 'dups']
THREED = ['box', 'farbox', 'cone', 'widecone', 'shell', 'lattice', 'dups']


def sph_points(r, n, geom):
    """ra, dec in radians"""
    if geom == 'fullsky':
        ra = r.uniform(0, 2 * np.pi, n)
        dec = np.arcsin(r.uniform(-1, 1, n))
    elif geom == 'patch':
        ra = r.uniform(0.4, 1.0, n)
        dec = r.uniform(-0.3, 0.3, n)
    elif geom == 'smallpatch':
        ra = r.uniform(2.4, 2.42, n)
        dec = r.uniform(0.7, 0.715, n)
    elif geom == 'pole':
        ra = r.uniform(0, 2 * np.pi, n)
        dec = (np.pi / 2 - np.abs(r.normal(0, 0.2, n)) - 1e-4)
        if r.rand() < 0.3:
            dec = -dec
    elif geom == 'rawrap':
        ra = r.uniform(-0.3, 0.3, n) + 2 * np.pi * r.randint(-1, 2, n)
        dec = r.uniform(0.5, 1.0, n)
    elif geom == 'dups':
        m = max(1, n // 3)
        i = r.randint(0, m, n)
        ra = r.uniform(0.4, 1.0, m)[i]
        dec = r.uniform(-0.3, 0.3, m)[i]
    else:
        raise ValueError(geom)
    return ra, dec


def threed_points(r, n, geom):
    if geom == 'box':
        return r.uniform(-10, 10, (n, 3))
    if geom == 'farbox':
        return r.uniform(-10, 10, (n, 3)) + np.array([50., 80., 30.])
    if geom in ('cone', 'widecone'):
        w = 0.15 if geom == 'cone' else 0.8
        d = r.normal(0, w, (n, 3)) + np.array([1., 0.3, 0.2])
        d /= np.sqrt(np.sum(d * d, axis=1))[:, None]
        return d * r.uniform(20, 100, (n, 1))
    if geom == 'shell':
        d = r.normal(0, 1, (n, 3))
        d /= np.sqrt(np.sum(d * d, axis=1))[:, None]
        return d * r.uniform(90, 100, (n, 1))
    if geom == 'lattice':
        p = r.randint(-4, 5, (n, 3)).astype(float)
        return p + np.array([20., 0, 0])
    if geom == 'dups':
        q = r.uniform(-10, 10, (max(1, n // 3), 3)) + np.array([30., 0, 0])
        return q[r.randint(0, len(q), n)]
    raise ValueError(geom)


def dyadic(r, n, lim=64, den=32.):
    return r.randint(-lim, lim + 1, n) / den


class Data(object):
    """Raw arrays for a Catalog, with the oracle's own positions (internal units), weights,
    fields."""

    def __init__(self, seed, coords, n, geom, weights='dyadic', unit=None, style=None,
                 fields='KZVGTQ', positions=None, fexact=True, pscale=1.):
        r = np.random.RandomState(seed % (2 ** 32))
        self.coords = coords
        self.kw = {}
        self.n = n
        if coords == 'flat':
            p = flat_points(r, n, geom) if positions is None else positions
            u = P.ANGLE[unit] if unit else 1.
            self.kw.update(x=p[:, 0].copy(), y=p[:, 1].copy())
            if unit:
                self.kw.update(x_units=unit, y_units=unit)
            self.p = np.concatenate([p * u, np.zeros((n, 1))], axis=1)
        elif coords == 'spherical':
            ra, dec = sph_points(r, n, geom) if positions is None else positions
            unit = unit or 'radians'
            u = P.ANGLE[unit]
            self.kw.update(ra=ra / u, dec=dec / u, ra_units=unit, dec_units=unit)
            self.p = P.sph(ra / u * u, dec / u * u)
        else:
            p = threed_points(r, n, geom) if positions is None else positions
            p = p * pscale
            if style == 'radecr':
                rr = np.sqrt(np.sum(p * p, axis=1))
                ra = np.arctan2(p[:, 1], p[:, 0])
                dec = np.arcsin(p[:, 2] / rr)
                unit = unit or 'degrees'
                u = P.ANGLE[unit]
                self.kw.update(ra=ra / u, dec=dec / u, r=rr, ra_units=unit, dec_units=unit)
                self.p = P.sph(ra / u * u, dec / u * u) * rr[:, None]
            else:
                self.kw.update(x=p[:, 0].copy(), y=p[:, 1].copy(), z=p[:, 2].copy())
                self.p = p
        if weights == 'none':
            self.w = np.ones(n)
        elif weights == 'dyadic':
            self.w = r.randint(1, 65, n) / 16.
            self.kw['w'] = self.w.copy()
        elif weights == 'zeros':
            self.w = r.randint(0, 5, n) / 4.
            if not np.any(self.w):
                self.w[0] = 1.
            self.kw['w'] = self.w.copy()
        elif weights == 'real':
            self.w = r.uniform(0.1, 3., n)
            self.kw['w'] = self.w.copy()
        self.f = {}
        for c in fields:
            cols = COLS[c]
            vals = [dyadic(r, n) if fexact else r.normal(0, 1, n) for _ in cols]
            for name, v in zip(cols, vals):
                self.kw[name] = v
            self.f[c] = vals[0] if c == 'K' else vals[0] + 1j * vals[1]

    def catalog(self, treecorr, only=None, **kw):
        d = dict(self.kw)
        d.update(kw)
        return treecorr.Catalog(**d)

    def field(self, letter):
        return np.ones(self.n) if letter == 'N' else self.f[letter]

    def keep(self, mask):
        """Drops rows (oracle side)."""
        self.p = self.p[mask]
        self.w = self.w[mask]
        self.f = {k: v[mask] for k, v in self.f.items()}
        self.n = len(self.w)


def prng(*key):
    return random.Random(repr(key))


def rstate(*key):
    return np.random.RandomState(random.Random(repr(key)).randrange(2 ** 32))


METRICS = dict(flat=['Euclidean', 'Euclidean', 'Periodic'],
               spherical=['Euclidean', 'Arc'],
               **{'3d': ['Euclidean', 'Rperp', 'FisherRperp', 'OldRperp', 'Rlens', 'Arc',
                         'Periodic']})
GEOM = {'flat': FLAT, 'spherical': SPH, '3d': THREED}


def two_point_case(q, tag, sizes=(0, 1, 2, 3, 5, 8, 20, 50, 90, 150), metric=None, coords=None,
                   bin_type=None):
    """Random two-point configuration as a JSON-able dict."""
    c = dict(tag=tag, seed=q.randrange(2 ** 31))
    c['coords'] = coords or q.choice(['flat', 'flat', 'spherical', '3d', '3d'])
    c['metric'] = metric or q.choice(METRICS[c['coords']])
    c['auto'] = c['metric'] != 'Rlens' and q.random() < 0.45
    c['geom'] = q.choice(GEOM[c['coords']])
    c['geom2'] = c['geom'] if q.random() < 0.7 else q.choice(GEOM[c['coords']])
    c['n1'] = max(1, q.choice(sizes))
    c['n2'] = max(1, q.choice(sizes))
    bt = ['Log', 'Log', 'Linear']
    if c['coords'] == 'flat' and c['metric'] == 'Euclidean':
        bt += ['TwoD', 'TwoD']
    c['bin_type'] = bin_type or q.choice(bt)
    c['nbins'] = q.choice([1, 2, 3, 5, 8, 13, 20])
    c['lo'] = q.choice([0.0, 0.0, 0.02, 0.1, 0.3])
    c['hi'] = q.choice([0.3, 0.6, 0.9, 1.0, 1.2])
    c['spec'] = q.choice(['mmn', 'mmn', 'mmb', 'mnb', 'Mnb'])
    c['weights'] = q.choice(['none', 'dyadic', 'dyadic', 'zeros'])
    c['split_method'] = q.choice(['mean', 'median', 'middle', 'random'])
    c['brute'] = q.choice([False, False, False, False, True, 1, 2])
    c['min_top'] = q.choice([None, None, 0, 1, 3, 5])
    c['max_top'] = q.choice([None, None, 0, 2, 10, 20])
    c['threads'] = q.choice([1, 1, 1, 2, 3])
    if c['min_top'] is not None and c['max_top'] is not None:
        c['max_top'] = max(c['max_top'], c['min_top'])
    c['unit'] = None
    if c['coords'] == 'spherical':
        c['unit'] = q.choice(['radians', 'degrees', 'arcmin', 'hours', 'arcsec', 'deg'])
        c['sep_units'] = q.choice([None, 'radians', 'degrees', 'arcmin', 'arcsec'])
    elif c['coords'] == 'flat':
        c['sep_units'] = None
        if q.random() < 0.25:
            c['unit'] = q.choice(['degrees', 'arcmin', 'arcsec', 'radians'])
            c['sep_units'] = q.choice(['degrees', 'arcmin', 'arcsec', 'radians'])
    else:
        c['style'] = q.choice(['xyz', 'xyz', 'radecr'])
        if 'lattice' not in (c['geom'], c['geom2']):
            c['pscale'] = q.choice([1., 1., 1., 0.001, 1000.])
        c['sep_units'] = q.choice([None, 'degrees', 'radians']) if c['metric'] == 'Arc' else None
        if q.random() < 0.35:
            c['rpar'] = q.choice(['sym', 'sym', 'asym', 'minonly', 'maxonly'])
            if c['auto']:
                c['rpar'] = 'sym'
    return c


def resolve(c):
    """Builds the data and the numeric binning for a case.  Returns D1, D2, bins, kwargs."""
    D1 = Data(c['seed'], c['coords'], c['n1'], c['geom'], c['weights'], c.get('unit'),
              c.get('style'), pscale=c.get('pscale', 1.))
    D2 = None
    if not c['auto']:
        D2 = Data(c['seed'] + 7919, c['coords'], c['n2'], c['geom2'], c['weights'], c.get('unit'),
                  c.get('style'), pscale=c.get('pscale', 1.))
    period = (0, 0, 0)
    kw = dict(metric=c['metric'], bin_type=c['bin_type'])
    r = np.random.RandomState(c['seed'] % 100003)
    if c['metric'] == 'Periodic':
        both = D1.p if D2 is None else np.concatenate([D1.p, D2.p])
        ext = np.max(np.ptp(both, axis=0)) or 1.
        u = 1.
        if r.rand() < 0.5:
            per = float(ext * r.choice([0.5, 1.0, 1.3]))
            kw['period'] = per
            period = (per,) * 3
        else:
            pp = [float(ext * v) for v in r.choice([0.4, 0.8, 1.0, 1.5], 3)]
            kw['xperiod'], kw['yperiod'] = pp[0], pp[1]
            if c['coords'] == '3d':
                kw['zperiod'] = pp[2]
            period = tuple(pp)
        if c['coords'] == 'flat':
            period = (period[0], period[1], 0)
    p2 = D1.p if D2 is None else D2.p
    d, err, rpar, dx, dy = P.separations(c['coords'], c['metric'], D1.p, p2, period)
    dd = d[np.isfinite(d) & (d > 1e-7 * (np.max(d) if d.size else 0))]
    if len(dd) == 0:
        dd = np.array([1.])
    dd = np.sort(dd)
    unit = P.ANGLE[c['sep_units']] if c.get('sep_units') else 1.
    mn = np.quantile(dd, c['lo']) * r.choice([0.5, 0.9, 1.0])
    if c['metric'] == 'Arc' and c['coords'] != 'flat':
        mx = np.quantile(dd, min(1., c['hi'])) * 1.05
    else:
        mx = np.quantile(dd, min(1., c['hi'])) * (1.05 if c['hi'] <= 1 else 1.5)
    if c['metric'] == 'Periodic':
        mx = min(mx, 1.2 * np.max(dd))
    if c['geom'] == 'lattice':
        mn, mx = np.round(mn) or 1., np.round(mx) + 1
    mn /= unit
    mx /= unit
    mx = max(mx, mn * 1.2)
    nb = c['nbins']
    bt = c['bin_type']
    if bt == 'Linear' and c['lo'] == 0. and r.rand() < 0.4:
        mn = 0.
    if bt == 'TwoD':
        mx = mx / np.sqrt(2)
        use_min = r.rand() < 0.3
        if mn >= mx:
            use_min = False
        if c['spec'] in ('mmn', 'mnb'):
            spec = dict(max_sep=mx, nbins=nb)
        elif c['spec'] == 'mmb':
            spec = dict(max_sep=mx, bin_size=mx * 2 / nb * 0.97)
        else:
            spec = dict(nbins=nb, bin_size=mx * 2 / nb)
        if use_min:
            spec['min_sep'] = mn * 0.5
    else:
        bs = np.log(mx / mn) / nb if bt == 'Log' else (mx - mn) / nb
        if c['spec'] == 'mmn':
            spec = dict(min_sep=mn, max_sep=mx, nbins=nb)
        elif c['spec'] == 'mmb':
            spec = dict(min_sep=mn, max_sep=mx, bin_size=bs * 0.93)
        elif c['spec'] == 'mnb':
            spec = dict(min_sep=mn, nbins=nb, bin_size=bs)
        else:
            spec = dict(max_sep=mx, nbins=nb, bin_size=bs * 0.9)
    spec = {k: (int(v) if k == 'nbins' else float(v)) for k, v in spec.items()}
    kw.update(spec)
    bins = P.Bins(bt, unit=unit, **spec)
    if c.get('sep_units'):
        kw['sep_units'] = c['sep_units']
    rp = {}
    if c.get('rpar'):
        ra = np.sort(np.abs(rpar[np.isfinite(rpar)]).ravel())
        s = float(np.quantile(ra, r.choice([0.3, 0.5, 0.8]))) * 1.0001 + 1e-6 * c.get('pscale', 1.)
        if c['rpar'] == 'sym':
            rp = dict(min_rpar=-s, max_rpar=s)
        elif c['rpar'] == 'asym':
            rp = dict(min_rpar=-s * 0.3, max_rpar=s)
        elif c['rpar'] == 'minonly':
            rp = dict(min_rpar=s * 0.5)
        else:
            rp = dict(max_rpar=s * 0.5)
        kw.update(rp)
    for k in ('split_method', 'brute'):
        kw[k] = c[k]
    for k in ('min_top', 'max_top'):
        if c.get(k) is not None:
            kw[k] = c[k]
    kw['num_threads'] = c.get('threads', 1)
    return D1, D2, bins, kw, period, rp
