"""C17: random-subtracting estimators and shot-noise variances against their formulas."""
import numpy as np
from vlib import gen
from vlib.gen import Data

RULE = ('Random data and random catalogs (any size and weights, flat, spherical and 3-d, one or '
        'several catalogs, with and without patches), counts of data and randoms from the real '
        'code; xi, zeta, compensated xi, weights, tot and shot variances are recomputed from the '
        'bin sums and the input columns.  Non-trivial: some bin has data and randoms, and the '
        '(statistic, form, auto/cross, bin type, patches, weights) is distinct.')
ASSUMPTIONS = ['the bin sums themselves are judged by C01, C02, C04 and C05; patch-based variances '
               'by C07']
MIN_EVENTS = dict(nn=150, comp=150, shot2=150, nnn=30, shot3=60, bins_compared=3000)


def cases(tier, seed):
    q = gen.prng('C17', seed)
    out = []
    n = 5000 if tier == 'quick' else 60000
    kinds = ['nn', 'nn', 'comp', 'comp', 'shot2', 'nnn', 'shot3', 'shot3']
    for i in range(n):
        c = dict(kind=kinds[i % len(kinds)], seed=q.randrange(2 ** 31))
        c['coords'] = q.choice(['flat', 'spherical', '3d'])
        c['metric'] = 'Euclidean'
        if c['coords'] == 'spherical':
            c['metric'] = q.choice(['Euclidean', 'Arc'])
        c['auto'] = q.random() < 0.5
        c['weights'] = q.choice(['none', 'dyadic', 'dyadic', 'zeros', 'mixed'])
        c['patch'] = q.choice([0, 0, 1, 2, 3])      # 0 none, 1 data+randoms, 2 data only, 3 both sides
        c['nlist'] = q.choice([1, 1, 1, 2, 3])
        c['order'] = q.randrange(4)
        c['geom'] = q.choice({'flat': ['uniform', 'cluster', 'strip'],
                              'spherical': ['patch', 'fullsky', 'pole'],
                              '3d': ['box', 'cone']}[c['coords']])
        if c['kind'] in ('nn', 'comp', 'shot2'):
            c['n'] = [q.choice([2, 5, 20, 60, 200]) for _ in range(2)]
            c['nr'] = [q.choice([3, 30, 100, 400]) for _ in range(2)]
            c['bin_type'] = q.choice(['Log', 'Linear'] + (['TwoD'] if c['coords'] == 'flat' else []))
            c['nbins'] = q.choice([1, 4, 9])
            c['form'] = q.choice(['rr', 'rr+dr', 'rr+rd', 'rr+dr+rd', 'rr+dr+rd'])
        else:
            c['n'] = [q.choice([5, 12, 25]) for _ in range(3)]
            c['nr'] = [q.choice([6, 12, 30]) for _ in range(3)]
            c['bin_type'] = q.choice(['LogRUV', 'LogSAS', 'LogMultipole'])
            c['nbins'] = q.choice([1, 3, 4])
            c['form'] = q.choice(['rrr', 'rrr+drr+rdd', 'rrr+drr+rdd', 'bad'])
            c['ncat'] = q.choice([1, 1, 2, 3])
        if c['kind'] == 'comp':
            c['letter'] = q.choice('KZVGTQ')
        if c['kind'] == 'shot2':
            c['letters'] = q.choice([l for l in gen.LETTERS2 if l != 'NN'])
            if c['letters'][0] != c['letters'][1]:
                c['auto'] = False
        if c['kind'] == 'shot3':
            c['letters'] = q.choice(['KKK', 'GGG'])
        out.append(c)
    return out


def make(c, k, n, fields):
    w = c['weights']
    if w == 'mixed':
        w = ['none', 'dyadic', 'zeros'][(c['seed'] + k) % 3]
    if n < 10 and w == 'zeros':
        w = 'dyadic'
    D = Data(c['seed'] + 104729 * k, c['coords'], n, c['geom'], w,
             'degrees' if c['coords'] == 'spherical' else None, 'xyz', fields=fields)
    if np.sum(D.w) == 0:
        D.w[:] = 1.
        D.kw['w'] = D.w.copy()
    return D


def sep_range(Ds, r):
    p = np.concatenate([D.p for D in Ds])
    m = p[r.permutation(len(p))[:80]]
    d = np.sqrt(np.sum((m[:, None] - m[None]) ** 2, axis=2))
    d = np.sort(d[d > 1e-9])
    if len(d) == 0:
        return 0.1, 1.
    lo = d[int(len(d) * r.choice([0, 0.05, 0.2]))] * 0.9
    hi = d[int((len(d) - 1) * r.choice([0.4, 0.7, 1.0]))] * 1.02
    return lo, max(hi, lo * 1.5)


def splits(D, nlist):
    lab = np.arange(D.n) % nlist
    return np.min([np.sum(D.w[lab == j]) for j in range(nlist)]) > 0


def catalogs(treecorr, c, D, patched, centers=None, nlist=1):
    """The Catalog (or list of them) for D, plus the total weight by definition."""
    kw = {}
    if patched:
        kw['patch_centers'] = centers
    if nlist == 1:
        return D.catalog(treecorr, **kw)
    lab = np.arange(D.n) % nlist
    if not splits(D, nlist):
        return D.catalog(treecorr, **kw)
    out = []
    for j in range(nlist):
        k2 = {k: (v[lab == j] if isinstance(v, np.ndarray) and len(v) == D.n else v)
              for k, v in D.kw.items()}
        out.append(treecorr.Catalog(**k2))
    return out


def var_of(D, letter):
    """Weighted variance per component of a field, by definition."""
    if letter == 'N':
        return 1.
    f = D.f[letter]
    w = D.w
    comps = [f] if letter == 'K' else [f.real, f.imag]
    v = []
    for x in comps:
        x = np.asarray(x, dtype=float)
        m = np.sum(w * x) / np.sum(w)
        v.append(np.sum(w ** 2 * (x - m) ** 2) / np.sum(w))
    return float(np.mean(v))


def centers_for(D, r):
    k = min(4, D.n)
    return D.p[r.permutation(D.n)[:k]][:, :2 if D.coords == 'flat' else 3].copy()


def bins2(c, Ds, r):
    lo, hi = sep_range(Ds, r)
    kw = dict(bin_type=c['bin_type'], metric=c['metric'], bin_slop=float(r.choice([0, 1])))
    if c['coords'] == 'spherical':
        kw['sep_units'] = 'radians'
    if c['bin_type'] == 'TwoD':
        kw.update(max_sep=hi, nbins=c['nbins'])
    else:
        kw.update(min_sep=lo, max_sep=hi, nbins=c['nbins'])
    return kw


def mean_w(x):
    n = np.sum(x.npairs if hasattr(x, 'npairs') else x.ntri)
    return np.sum(x.weight) / n if n > 0 else 1.


def tol(a, *scale):
    s = sum(np.abs(np.asarray(x, dtype=float)) for x in scale)
    return 1e-11 * s + 1e-13 * (np.max(np.abs(s)) if np.size(s) else 0) + 1e-300


def run(c, mon):
    import treecorr
    r = np.random.RandomState(c['seed'] % (2 ** 32))
    globals()['run_' + c['kind']](c, mon, treecorr, r)
    mon.count(c['kind'])
    for k in ('kind', 'coords', 'bin_type', 'weights', 'patch', 'form', 'nlist'):
        mon.cover(k, c[k])


def run_nn(c, mon, treecorr, r):
    D1 = make(c, 1, c['n'][0], '')
    D2 = None if c['auto'] else make(c, 2, c['n'][1], '')
    R1 = make(c, 3, c['nr'][0], '')
    R2 = None if c['auto'] else make(c, 4, c['nr'][1], '')
    Ds = [D for D in (D1, D2, R1, R2) if D is not None]
    kw = bins2(c, Ds, r)
    cen = centers_for(R1, r)
    pd = c['patch'] > 0
    pr = c['patch'] in (1, 3)
    if c['patch'] == 2 and c['auto'] is False:
        pr = False
    nl = c['nlist'] if not pd else 1
    if not all(splits(D, nl) for D in Ds):
        nl = 1
    d1 = catalogs(treecorr, c, D1, pd, cen, nl)
    d2 = None if D2 is None else catalogs(treecorr, c, D2, pd, cen, nl)
    r1 = catalogs(treecorr, c, R1, pr, cen, nl if not pr else 1)
    r2 = None if R2 is None else catalogs(treecorr, c, R2, pr, cen, nl if not pr else 1)
    NN = treecorr.NNCorrelation

    def go(a, b):
        x = NN(**kw)
        x.process(a) if b is None else x.process(a, b)
        return x
    dd = go(d1, d2)
    rr = go(r1, r2)
    dr = go(d1, r1 if r2 is None else r2)
    rd = go(r1, d1 if d2 is None else d2)
    s = lambda D: np.sum(D.w)
    tot = dict(dd=0.5 * s(D1) ** 2 if D2 is None else s(D1) * s(D2),
               rr=0.5 * s(R1) ** 2 if R2 is None else s(R1) * s(R2),
               dr=s(D1) * s(R1 if R2 is None else R2),
               rd=s(R1) * s(D1 if D2 is None else D2))
    for nm, x in (('dd', dd), ('rr', rr), ('dr', dr), ('rd', rd)):
        mon.close('tot of ' + nm, x.tot, tot[nm], 1e-10 * tot[nm])
    forms = ['rr', 'rr+dr', 'rr+rd', 'rr+dr+rd']
    seq = [c['form']] if c['order'] == 0 else [forms[c['order']], c['form']]
    for form in seq:
        a = dict(rr=rr)
        if 'dr' in form:
            a['dr'] = dr
        if 'rd' in form:
            a['rd'] = rd
        ret = dd.calculateXi(**a)
    mon.check(len(ret) == 2 and ret[0] is dd.xi, 'calculateXi returns xi')
    f = {k: tot['dd'] / tot[k] for k in ('rr', 'dr', 'rd')}
    RR = rr.weight * f['rr']
    DR = dr.weight * f['dr']
    RD = rd.weight * f['rd']
    W = dd.weight
    w = {k: mean_w(x) for k, x in (('dd', dd), ('rr', rr), ('dr', dr), ('rd', rd))}
    if c['form'] == 'rr':
        num, mag = W - RR, W + RR
        fac = 1 + f['rr'] * w['rr'] / w['dd']
    elif c['form'] == 'rr+dr':
        num, mag = W - 2 * DR + RR, W + 2 * DR + RR
        fac = 1 + 2 * f['dr'] * w['dr'] / w['dd'] + f['rr'] * w['rr'] / w['dd']
    elif c['form'] == 'rr+rd':
        num, mag = W - 2 * RD + RR, W + 2 * RD + RR
        fac = 1 + 2 * f['rd'] * w['rd'] / w['dd'] + f['rr'] * w['rr'] / w['dd']
    else:
        num, mag = W - DR - RD + RR, W + DR + RD + RR
        fac = (1 + f['dr'] * w['dr'] / w['dd'] + f['rd'] * w['rd'] / w['dd']
               + f['rr'] * w['rr'] / w['dd'])
    ok = rr.weight != 0
    mon.close('xi ' + c['form'], dd.xi[ok], (num / np.where(ok, RR, 1))[ok],
              1e-10 * (mag / np.where(ok, RR, 1))[ok])
    mon.check(np.all(np.isfinite(dd.xi)), 'xi finite where the randoms have no pairs')
    mon.close('getStat', dd.getStat(), dd.xi.ravel(), 0.)
    mon.close('getWeight', dd.getWeight(), RR.ravel(), 1e-10 * RR.ravel())
    want = np.zeros_like(RR)
    want[ok] = w['dd'] * fac ** 2 / RR[ok]
    mon.close('varxi ' + c['form'], dd.varxi, want, 1e-9 * want)
    mon.close('returned varxi', ret[1], want, 1e-9 * want)
    mon.close('cov', np.diag(dd.cov), want.ravel(), 1e-9 * want.ravel())
    if not c['auto']:
        mon.cover('cross', c['form'])
    mon.count('bins_compared', np.sum(ok))
    if np.any(ok & (W != 0)):
        mon.nontrivial(('nn', c['form'], c['auto'], c['bin_type'], c['patch'], c['weights']))


FULL = dict(K='K', Z='Z', V='V', G='G', T='T', Q='Q')
RNAME = dict(K='rk', Z='rz', V='rv', G='rg', T='rt', Q='rq')


def run_comp(c, mon, treecorr, r):
    L = c['letter']
    D1 = make(c, 1, c['n'][0], '')
    S = make(c, 2, c['n'][1], L)
    R1 = make(c, 3, c['nr'][0], '')
    kw = bins2(c, [D1, S, R1], r)
    cen = centers_for(S, r)
    pd = c['patch'] > 0
    pr = c['patch'] in (1, 3)
    nl = c['nlist'] if not pd else 1
    if not all(splits(D, nl) for D in (D1, S, R1)):
        nl = 1
    d1 = catalogs(treecorr, c, D1, pd and c['patch'] != 3, cen, nl)
    s1 = catalogs(treecorr, c, S, pd, cen, nl)
    r1 = catalogs(treecorr, c, R1, pr and c['patch'] != 3, cen, nl if not pd else 1)
    cls = getattr(treecorr, 'N' + L + 'Correlation')
    dk = cls(**kw)
    dk.process(d1, s1)
    rk = cls(**kw)
    rk.process(r1, s1)
    raw, rraw = dk.raw_xi.copy(), rk.raw_xi.copy()
    im = L != 'K'
    v = var_of(S, L)

    def shot(x):
        out = np.zeros_like(x.weight)
        m = x.weight != 0
        out[m] = v / x.weight[m]
        return out
    v1, v2 = shot(dk), shot(rk)
    mon.close('varxi before calculateXi', dk.varxi, v1, 1e-9 * v1)
    mon.equal('xi before calculateXi', dk.xi, raw)
    seq = {0: [1], 1: [0, 1], 2: [1, 0], 3: [1, 1]}[c['order']]
    for flag in seq:
        ret = dk.calculateXi(**({RNAME[L]: rk} if flag else {}))
    flag = seq[-1]
    names = ['xi'] + (['xi_im'] if im else [])
    for j, nm in enumerate(names):
        want = getattr(dk, 'raw_' + nm) - (getattr(rk, 'raw_' + nm) if flag else 0)
        mag = np.abs(getattr(dk, 'raw_' + nm)) + np.abs(getattr(rk, 'raw_' + nm))
        mon.close('compensated ' + nm, getattr(dk, nm), want, 1e-13 * mag)
        mon.close('returned ' + nm, ret[j], want, 1e-13 * mag)
    mon.equal('raw_xi unchanged', dk.raw_xi, raw)
    mon.equal('raw_xi of the randoms unchanged', rk.raw_xi, rraw)
    mon.close('raw_varxi', dk.raw_varxi, v1, 1e-9 * v1)
    want = v1 + (v2 if flag else 0)
    mon.close('compensated varxi', dk.varxi, want, 1e-9 * want)
    mon.close('returned varxi', ret[-1], want, 1e-9 * want)
    mon.close('shot-noise cov', np.diag(dk.cov), want.ravel(), 1e-9 * want.ravel())
    mon.close('shot-noise estimate_cov', dk.estimate_cov('shot'), want.ravel(),
              1e-9 * want.ravel())
    ok = (dk.weight != 0) & (rk.weight != 0)
    mon.count('bins_compared', np.sum(ok))
    mon.cover('letter', L)
    if np.any(ok):
        mon.nontrivial(('comp', L, flag, c['bin_type'], c['patch'], c['weights'], c['order']))


def run_shot2(c, mon, treecorr, r):
    a, b = c['letters']
    D1 = make(c, 1, c['n'][0], a.replace('N', ''))
    D2 = None if c['auto'] else make(c, 2, c['n'][1], b.replace('N', ''))
    kw = bins2(c, [D for D in (D1, D2) if D is not None], r)
    cen = centers_for(D1, r)
    pd = c['patch'] > 0
    nl = c['nlist'] if not pd else 1
    user = {}
    if r.rand() < 0.25:
        nl = 1
        for x in {a, b} - {'N'}:
            user['var' + x.lower()] = float(r.choice([0.5, 0.0, 2.]))
    if user:
        kc = dict(patch_centers=cen) if pd else {}
        d1 = D1.catalog(treecorr, **kc, **{k: v for k, v in user.items() if k[-1] == a.lower()})
        d2 = None if D2 is None else D2.catalog(
            treecorr, **kc, **{k: v for k, v in user.items() if k[-1] == b.lower()})
    else:
        d1 = catalogs(treecorr, c, D1, pd, cen, nl)
        d2 = None if D2 is None else catalogs(treecorr, c, D2, pd, cen, nl)
    x = getattr(treecorr, c['letters'] + 'Correlation')(**kw)
    x.process(d1) if d2 is None else x.process(d1, d2)
    va = user.get('var' + a.lower(), None) if a != 'N' else 1.
    vb = user.get('var' + b.lower(), None) if b != 'N' else 1.
    va = var_of(D1, a) if va is None else va
    vb = var_of(D1 if D2 is None else D2, b) if vb is None else vb
    num = va * vb * (2 if a not in 'NK' else 1)
    W = x.weight
    ok = W != 0
    want = np.zeros_like(W)
    want[ok] = num / W[ok]
    for nm in (['varxi'] if a in 'NK' else ['varxip', 'varxim']):
        mon.close('shot %s of %s' % (nm, c['letters']), getattr(x, nm), want, 1e-9 * want)
    cov = x.cov
    ww = np.concatenate([want.ravel()] * (1 if a in 'NK' else 2))
    mon.close('shot cov', cov, np.diag(ww), 1e-9 * np.diag(ww))
    mon.close('shot cov_diag', x.cov_diag, ww, 1e-9 * ww)
    mon.equal('getWeight', np.asarray(x.getWeight()).ravel(),
              np.concatenate([W.ravel()] * (1 if a in 'NK' else 2)))
    stat = x.xi.ravel() if a in 'NK' else np.concatenate([x.xip.ravel(), x.xim.ravel()])
    mon.equal('getStat', x.getStat(), stat)
    mon.count('bins_compared', np.sum(ok))
    mon.cover('letters', c['letters'])
    if np.any(ok):
        mon.nontrivial(('shot2', c['letters'], c['auto'], c['bin_type'], c['patch'], c['weights'],
                        bool(user)))


def bins3(c, Ds, r):
    lo, hi = sep_range(Ds, r)
    kw = dict(bin_type=c['bin_type'], metric=c['metric'], bin_slop=1.)
    if c['coords'] == 'spherical':
        kw['sep_units'] = 'radians'
        hi = min(hi, 1.)
        lo = min(lo, 0.5)
    kw.update(min_sep=lo, max_sep=hi, nbins=c['nbins'])
    if c['bin_type'] == 'LogRUV':
        kw.update(nubins=2, nvbins=2)
    elif c['bin_type'] == 'LogSAS':
        kw.update(nphi_bins=3, algo=str(r.choice(['triangle', 'multipole'])))
        if kw['algo'] == 'multipole':
            kw['max_n'] = 5
    else:
        kw.update(max_n=2)
    return kw


def split3(kw):
    k = dict(kw)
    return k, {x: k.pop(x) for x in ('algo', 'max_n') if x in k and kw['bin_type'] == 'LogSAS'}


def run_nnn(c, mon, treecorr, r):
    D = [make(c, 1 + j, c['n'][j], '') for j in range(c['ncat'])]
    R = [make(c, 11 + j, c['nr'][j], '') for j in range(c['ncat'])]
    if c['form'] == 'bad' and c['seed'] % 3 and c['bin_type'] == 'LogMultipole':
        c = dict(c, form='rrr')
    kw, pk = split3(bins3(c, D + R, r))
    pd = c['patch'] > 0 and c['ncat'] == 1
    pr = pd and c['patch'] in (1, 3)
    cen = centers_for(R[0], r)
    NNN = treecorr.NNNCorrelation
    if pk.get('algo') == 'multipole' or c['bin_type'] == 'LogMultipole':
        pd = pr = False
    d = [catalogs(treecorr, c, x, pd, cen) for x in D]
    q = [catalogs(treecorr, c, x, pr, cen) for x in R]

    def go(*a):
        x = NNN(**kw)
        x.process(*a, **pk)
        return x
    ddd = go(*d)
    rrr = go(*q)
    s = lambda D: np.sum(D.w)

    def tot(*a):
        if len(a) == 1:
            return s(a[0]) ** 3 / 6.
        if len(a) == 2:
            return s(a[0]) * s(a[1]) ** 2 / 2.
        return s(a[0]) * s(a[1]) * s(a[2])
    T = dict(ddd=tot(*D), rrr=tot(*R))
    mon.close('tot of ddd', ddd.tot, T['ddd'], 1e-10 * T['ddd'])
    mon.close('tot of rrr', rrr.tot, T['rrr'], 1e-10 * T['rrr'])
    drr = rdd = None
    if c['form'] != 'rrr':
        drr = go(d[0], q[-1])
        rdd = go(q[0], d[-1])
        T['drr'] = tot(D[0], R[-1])
        T['rdd'] = tot(R[0], D[-1])
        mon.close('tot of drr', drr.tot, T['drr'], 1e-10 * T['drr'])
        mon.close('tot of rdd', rdd.tot, T['rdd'], 1e-10 * T['rdd'])
    if c['bin_type'] == 'LogMultipole':
        mon.raises('calculateZeta of multipoles', TypeError, lambda: ddd.calculateZeta(rrr=rrr))
        return
    if c['form'] == 'bad':
        mon.raises('only drr', TypeError, lambda: ddd.calculateZeta(rrr=rrr, drr=drr))
        mon.raises('only rdd', TypeError, lambda: ddd.calculateZeta(rrr=rrr, rdd=rdd))
    a = dict(rrr=rrr)
    if c['form'] == 'rrr+drr+rdd':
        a.update(drr=drr, rdd=rdd)
    if c['order']:
        ddd.calculateZeta(rrr=rrr)
        ddd.varzeta
    ret = ddd.calculateZeta(**a)
    f = {k: T['ddd'] / T[k] for k in T}
    RR = rrr.weight * f['rrr']
    w0 = mean_w(ddd)
    if 'drr' in a:
        num = ddd.weight - rdd.weight * f['rdd'] + drr.weight * f['drr'] - RR
        mag = (np.abs(ddd.weight) + np.abs(rdd.weight * f['rdd']) + np.abs(drr.weight * f['drr'])
               + np.abs(RR))
        fac = (1 + f['drr'] * mean_w(drr) / w0 + f['rdd'] * mean_w(rdd) / w0
               + f['rrr'] * mean_w(rrr) / w0)
    else:
        num = ddd.weight - RR
        mag = np.abs(ddd.weight) + np.abs(RR)
        fac = 1 + f['rrr'] * mean_w(rrr) / w0
    ok = rrr.weight != 0
    den = np.where(ok, RR, 1)
    mon.close('zeta', ddd.zeta[ok], (num / den)[ok], 1e-9 * (mag / np.abs(den))[ok])
    mon.check(np.all(np.isfinite(ddd.zeta)), 'zeta finite where the randoms have no triangles')
    want = np.zeros(RR.shape)
    want[ok] = w0 * fac ** 2 / np.abs(RR[ok])
    mon.close('varzeta', ddd.varzeta, want, 1e-8 * np.abs(want))
    mon.close('returned varzeta', ret[1], want, 1e-8 * np.abs(want))
    mon.equal('returned zeta', ret[0], ddd.zeta)
    mon.close('getWeight', ddd.getWeight(), np.abs(RR).ravel(), 1e-10 * np.abs(RR).ravel())
    mon.equal('getStat', ddd.getStat(), ddd.zeta.ravel())
    mon.count('bins_compared', np.sum(ok))
    if np.any(ok & (ddd.weight != 0)):
        mon.nontrivial(('nnn', c['form'], c['ncat'], c['bin_type'], pk.get('algo'), pd, pr,
                        c['weights']))


def run_shot3(c, mon, treecorr, r):
    L = c['letters'][0]
    D = [make(c, 1 + j, c['n'][j], L) for j in range(c['ncat'])]
    kw, pk = split3(bins3(c, D, r))
    pd = c['patch'] > 0 and c['ncat'] == 1
    if c['bin_type'] == 'LogMultipole' or pk.get('algo') == 'multipole':
        pd = False
    cen = centers_for(D[0], r)
    nl = c['nlist'] if not pd and c['bin_type'] != 'LogMultipole' and 'algo' not in pk else 1
    d = [catalogs(treecorr, c, x, pd, cen, nl if c['ncat'] == 1 else 1) for x in D]
    x = getattr(treecorr, c['letters'] + 'Correlation')(**kw)
    x.process(*d, **pk)
    E = {1: [0, 0, 0], 2: [0, 1, 1], 3: [0, 1, 2]}[c['ncat']]
    num = np.prod([var_of(D[e], L) for e in E])
    if L == 'G':
        num *= 4
    if c['bin_type'] != 'LogRUV':
        num *= 2
    W = x.weight
    ok = W != 0
    want = np.zeros(W.shape)
    want[ok] = num / np.abs(W[ok])
    if c['bin_type'] == 'LogMultipole':
        # only n=0 has a real weight, and it is the one for which this is a variance
        sl = (Ellipsis, kw['max_n'])
        ok = ok[sl]
        want = want[sl]
    else:
        sl = Ellipsis
    for nm in (['varzeta'] if L == 'K' else ['vargam%d' % j for j in range(4)]):
        mon.close('shot ' + nm, np.real(getattr(x, nm)[sl]), want, 1e-9 * np.abs(want))
    mon.count('bins_compared', np.sum(ok))
    mon.cover('letters', c['letters'])
    if np.any(ok):
        mon.nontrivial(('shot3', c['letters'], c['ncat'], c['bin_type'], pk.get('algo'), pd,
                        c['weights']))
