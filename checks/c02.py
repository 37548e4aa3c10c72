"""C02: two-point field estimators against definitional sums, all field combinations."""
import numpy as np
from oracle import pairs as P
from vlib import gen
from checks import two
from vlib.mon import Mon

RULE = ('Random catalogs and configurations as in C01 for each of the 18 field combinations, '
        'bin_slop=0 and angle_slop=0 (or brute): every xi / xi_im / xip / xim component of every '
        'bin against brute-force sums of projected field values. Non-trivial: at least one pair '
        'inside the range; signature (letters, coords, metric, bin type, auto, brute, geometry).')
ASSUMPTIONS = ['the imaginary part of xip of an auto-correlation is not compared (pair order is '
               'arbitrary)', 'coincident points and points exactly at a pole have no direction']
MIN_EVENTS = dict(field_bins_compared=4000)
POLAR = ('pole',)


def cases(tier, seed):
    q = gen.prng('C02', seed)
    n = 4000 if tier == 'quick' else 40000
    out = []
    for i in range(n):
        sizes = (2, 3, 5, 20, 50, 90, 150) if i % 15 else (300, 400)
        c = gen.two_point_case(q, 'fields', sizes=sizes)
        c['letters'] = gen.LETTERS2[i % len(gen.LETTERS2)]
        if c['letters'] == 'NN':
            c['letters'] = q.choice(['GG', 'NG', 'ZZ', 'VV', 'NK'])
        if c['letters'][0] != c['letters'][1]:
            c['auto'] = False
        if 'lattice' in (c['geom'], c['geom2']) and c.get('style'):
            # objects exactly along one line of sight have no defined direction
            c['style'] = 'xyz'
        c['angle_slop'] = 0.
        c['swap'] = False
        out.append(c)
    return out


def run(c, mon):
    import treecorr
    D1, D2, bins, kw, period, rp = gen.resolve(c)
    kw['bin_slop'] = 0.
    kw['angle_slop'] = 0.
    if c['brute'] is True and c['seed'] % 2:
        kw.pop('angle_slop')
        kw['bin_slop'] = 2.
    corr = two.run_corr(treecorr, c['letters'], D1, D2, kw)
    for D in (D1, D2):
        if D is not None:
            D.keep(D.w != 0)
    def oracle(per):
        return P.two_point(bins, c['coords'], c['metric'], D1.p, D1.p if D2 is None else D2.p,
                           D2 is None, two.quantities(c['letters'], D1, D2, c['coords'], True,
                                                      per),
                           period, zero_sep='ambiguous', **rp)
    res = oracle(period)
    n = len(mon.fails)
    two.compare(mon, c, corr, c['letters'], D1, D2, bins, res, ftol=2e-9)
    if c['coords'] == 'flat' and c['metric'] == 'Periodic' and len(mon.fails) > n:
        # Known: the projection direction of a pair that wraps around ignores the wrapping.
        # Anything that this does not fully explain is still a violation.
        alt = Mon()
        if two.compare(alt, c, corr, c['letters'], D1, D2, bins, oracle(None), ftol=2e-9):
            del mon.fails[n:]
            mon.finding('C02-periodic-projection', '%sCorrelation with metric=Periodic projects '
                        'the fields of pairs that wrap around along the unwrapped separation'
                        % c['letters'])
    for k in ('coords', 'metric', 'bin_type', 'brute', 'split_method', 'letters', 'geom', 'auto'):
        mon.cover(k, c[k])
    mon.cover('combo', '%s/%s/%s/%s' % (c['letters'], c['coords'], c['metric'], c['bin_type']))
    if res['_stats']['pairs'] > 0:
        mon.nontrivial((c['letters'], c['coords'], c['metric'], c['bin_type'], c['auto'],
                        c['brute'], c['geom']))
