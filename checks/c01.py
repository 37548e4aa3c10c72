"""C01: two-point pair accounting against a brute-force oracle, no slop."""
import numpy as np
from oracle import pairs as P
from vlib import gen
from checks import two

RULE = ('Random catalogs (8 flat, 6 spherical, 7 3-d geometries incl. lattices, duplicates, poles, '
        'RA wrap), every metric/coordinate/bin type, rpar limits, periods, units, split methods, '
        'tree depths, brute modes; bin_slop=0 or brute. Non-trivial: at least one pair inside and '
        'the signature (coords, metric, bin type, auto, brute, geometry, rpar, split) is distinct.')
ASSUMPTIONS = ['pairs within rounding (3e-12 relative) of a bin edge may fall on either side']
MIN_EVENTS = dict(pairs_accounted=20000)


def cases(tier, seed):
    q = gen.prng('C01', seed)
    n = 6000 if tier == 'quick' else 60000
    out = []
    for i in range(n):
        sizes = (1, 2, 3, 5, 20, 50, 90, 150) if i % 12 else (300, 400)
        c = gen.two_point_case(q, 'rand', sizes=sizes)
        c['letters'] = q.choice(['NN', 'NN', 'KK', 'NK', 'NG', 'GG', 'KG', 'ZZ'])
        if c['auto'] and c['letters'][0] != c['letters'][1]:
            c['letters'] = 'NN'
        c['angle_slop'] = q.choice([None, 0., 0.])
        out.append(c)
    return out


def run(c, mon):
    import treecorr
    D1, D2, bins, kw, period, rp = gen.resolve(c)
    kw['bin_slop'] = 0.
    if c['angle_slop'] is not None:
        kw['angle_slop'] = c['angle_slop']
    if c['brute'] is True and c['seed'] % 3 == 0:
        kw['bin_slop'] = 1.
    for D in (D1, D2):
        if D is not None and c['weights'] == 'zeros':
            D.kw['w'] = D.w.copy()
    corr = two.run_corr(treecorr, c['letters'], D1, D2, kw)
    for D in (D1, D2):
        if D is not None:
            D.keep(D.w != 0)
    # Zero separations can only be inside the range for Linear binning from 0; whether an object
    # paired with a coincident one counts there is not specified.
    res = P.two_point(bins, c['coords'], c['metric'], D1.p, D1.p if D2 is None else D2.p,
                      D2 is None, two.quantities(c['letters'], D1, D2, c['coords'], False),
                      period, zero_sep='ambiguous', **rp)
    exact = c['angle_slop'] == 0. or c['brute'] is True
    two.compare(mon, c, corr, c['letters'], D1, D2, bins, res, fields=False,
                means='exact' if exact else None)
    if not exact:
        inside_means(mon, corr, bins, res, c)
    for k in ('coords', 'metric', 'bin_type', 'brute', 'split_method', 'letters', 'geom', 'spec'):
        mon.cover(k, c[k])
    mon.cover('combo', '%s/%s/%s/%s' % (c['coords'], c['metric'], c['bin_type'], c.get('rpar')))
    if res['_stats']['pairs'] > 0:
        mon.nontrivial((c['coords'], c['metric'], c['bin_type'], c['auto'], c['brute'],
                        c['geom'], c.get('rpar'), c['split_method']))


def inside_means(mon, corr, bins, res, c):
    """With bin_slop=0 but angle_slop>0 every mean must still lie inside its bin."""
    if bins.bin_type == 'TwoD' or c['coords'] == 'spherical':
        return
    W, sl, _ = res['weight']
    has = (W > 0) & (sl == 0)
    lo = bins.edges[:-1][has] / bins.unit
    hi = bins.edges[1:][has] / bins.unit
    mon.between('meanr inside bin', corr.meanr.ravel()[has], lo * (1 - 1e-9), hi * (1 + 1e-9))
