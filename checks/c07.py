"""C07: patch-based covariances equal their first-principles definitions."""
import inspect
import itertools
import logging
import numpy as np
from vlib import gen
from checks import three, two
from checks.c06 import subset

RULE = ('Random patched two- and three-point runs (all statistics, bin types, metrics; any subset of '
        'the catalogs patched; global and local; patches next to each other or far apart), with '
        'random catalogs for counts and compensated cross-correlations in every combination of '
        'patched and unpatched, several statistics together and user functions. Every design row '
        'is compared with the statistic of the += sum of freshly processed pieces, every '
        'covariance with its formula, and all of it again after later changes of the object. '
        'Non-trivial: at least two design rows differ and the signature is distinct.')
ASSUMPTIONS = ['+= and process of single patches are right (C01-C06, C15)',
               'bootstrap indices are drawn by rng.choice(arange(npatch), npatch, replace=True)']
MIN_EVENTS = dict(rows_compared=4000, covariances=500, three_point_runs=100)

METHODS = ['jackknife', 'sample', 'bootstrap', 'marked_bootstrap']
LET2 = ['NN', 'NN', 'NN', 'NG', 'NG', 'NK', 'NK', 'NZ', 'NV', 'NT', 'NQ', 'KK', 'KG', 'KZ', 'KV',
        'KT', 'KQ', 'GG', 'ZZ', 'VV', 'TT', 'QQ']


def cases(tier, seed):
    q = gen.prng('C07', seed)
    out = []
    n = 1000 if tier == 'quick' else 12000
    for i in range(n):
        if i % 4 < 3:
            c = gen.two_point_case(q, '2pt', sizes=(30, 50, 80))
            c['letters'] = q.choice(LET2)
            if c['auto'] and c['letters'][0] != c['letters'][1]:
                c['letters'] = q.choice(['NN', 'NN', 'KK', 'GG', 'ZZ', 'VV', 'TT', 'QQ'])
            c['ncat'] = 1 if c['auto'] else 2
            c['nbins'] = q.choice([1, 2, 3, 4])
            # Positions that repeat or are regular give separations that are exactly on the edge
            # of a bin, where which bin is used may depend on the order of the two objects.
            for g in ('geom', 'geom2'):
                if c[g] in ('lattice', 'dups', 'line'):
                    c[g] = dict(flat='uniform', spherical='patch', **{'3d': 'box'})[c['coords']]
            c['randoms'] = c['letters'][0] == 'N' and q.random() < 0.75
            c['rand'] = [q.choice(['none', 'unpatched', 'patched', 'patched']) for _ in range(3)]
            c['multi'] = q.random() < 0.25
        else:
            c = three.case(q, '3pt', ['LogRUV', 'LogSAS', 'LogSAS', 'LogMultipole'],
                           (12, 16))
            c['nbins'] = q.choice([1, 2, 3])
            c['algo'] = 'triangle'
            if c['geom'] == 'dups':
                c['geom'] = dict(flat='uniform', spherical='patch', **{'3d': 'box'})[c['coords']]
            c['geom2'] = c['geom']
            if c['bin_type'] == 'LogMultipole':
                c['algo'] = None
            c['randoms'] = (c['letters'] == 'NNN' and c['ncat'] == 1
                            and c['bin_type'] != 'LogMultipole')
            c['rand'] = [q.choice(['none', 'unpatched', 'patched', 'patched']) for _ in range(2)]
            c['multi'] = False
        c['weights'] = q.choice(['none', 'dyadic', 'dyadic'])
        c['npatch'] = q.choice([2, 3, 4, 5]) if c['tag'] == '2pt' else q.choice([2, 3, 4])
        c['spatial'] = q.random() < 0.5
        pat = [p for p in itertools.product([True, False], repeat=c['ncat']) if any(p)]
        c['patched'] = list(pat[0] if q.random() < 0.5 else q.choice(pat))
        c['local'] = q.random() < 0.25
        if c['bin_type'] == 'LogMultipole':
            c['local'] = True
        if c['local'] and c['tag'] == '3pt':
            c['ordered'] = True
        c['func'] = q.choice([None, None, 'meanr', 'weight', 'complex', 'mix'])
        c['methods'] = [m for m in METHODS if q.random() < 0.6] or ['jackknife']
        c['nboot'] = q.choice([2, 5, 9])
        c['history'] = q.choice([None, 'again', 'more', 'more', 'randoms'])
        out.append(c)
    return out


def split(D, r):
    """Two halves of the rows of D."""
    o = r.permutation(D.n)
    h = D.n // 2
    return np.sort(o[:h]), np.sort(o[h:])


class Cat:
    """One catalog of the case: its rows, and its patches as separately built catalogs."""

    def __init__(self, treecorr, D, idx, c, patched, salt):
        self.treecorr = treecorr
        self.D = D
        self.idx = idx
        K = c['npatch']
        r = np.random.RandomState((c['seed'] + salt) % 2 ** 31)
        kw = subset(D, idx)
        n = len(idx)
        self.patched = patched
        if patched:
            if c['spatial']:
                p = D.p[idx]
                # the same division of space for all catalogs
                lo, hi = np.min(D.p, axis=0), np.max(D.p, axis=0)
                ax = int(np.argmax(hi - lo))
                x = (p[:, ax] - lo[ax]) / ((hi - lo)[ax] or 1.)
                lab = np.minimum((x * K).astype(int), K - 1)
            else:
                lab = r.randint(0, K, n)
            # every patch has some objects
            for k, j in enumerate(r.permutation(n)[:K]):
                lab[j] = k
            self.K = K
            self.whole = treecorr.Catalog(patch=lab, **kw)
            self.parts = [treecorr.Catalog(**subset(D, idx[lab == k])) for k in range(K)]
        else:
            self.K = 1
            self.whole = treecorr.Catalog(**kw)
            self.parts = [self.whole]
        self.all = treecorr.Catalog(**kw)


def ones_finalize(M):
    n = len(inspect.signature(M.finalize).parameters)
    M.finalize(*([1.] * n))


def pieces2(make, A, B, local, twod):
    """Raw (not finalized) results for every pair of patches."""
    out = {}
    if B is None:
        for i, ci in enumerate(A.parts):
            if local:
                p = make()
                p.process(ci, A.all, finalize=False)
                if hasattr(p, 'tot') and twod:
                    p.tot /= 2
                out[i, i] = p
                continue
            p = make()
            p.process(ci, finalize=False)
            out[i, i] = p
            for j in range(i + 1, A.K):
                p = make()
                p.process(ci, A.parts[j], finalize=False)
                if twod:
                    t = p.tot if hasattr(p, 'tot') else 0
                    p.process(A.parts[j], ci, initialize=False, finalize=False)
                    if hasattr(p, 'tot'):
                        p.tot = t
                out[i, j] = p
        return out
    for i, ci in enumerate(A.parts):
        if local:
            if A.K > 1:
                p = make()
                p.process(ci, B.all, finalize=False)
                out[(i, i) if B.K > 1 else (i, 0)] = p
                continue
        for j, cj in enumerate(B.parts):
            p = make()
            p.process(ci, cj, finalize=False)
            out[i, j] = p
    return out


def pieces3(make, cats, c, ordered):
    out = {}
    opt = dict(algo=c['algo'], metric=c['metric'])
    A = cats[0]
    if len(cats) == 1:
        for i in range(A.K):
            if c['local']:
                out[i, i, i] = p = make()
                p.process(A.parts[i], A.all, ordered=True, finalize=False, **opt)
                continue
            out[i, i, i] = p = make()
            p.process(A.parts[i], finalize=False, **opt)
        if c['local']:
            return out
        for i, j in itertools.combinations(range(A.K), 2):
            out[i, j, j] = p = make()
            p.process(A.parts[i], A.parts[j], ordered=False, finalize=False, **opt)
            out[i, i, j] = p = make()
            p.process(A.parts[j], A.parts[i], ordered=False, finalize=False, **opt)
        for i, j, k in itertools.combinations(range(A.K), 3):
            out[i, j, k] = p = make()
            p.process(A.parts[i], A.parts[j], A.parts[k], ordered=False, finalize=False, **opt)
        return out
    B = cats[1]
    if len(cats) == 2:
        if c['local']:
            for i in range(A.K):
                out[i, i, i] = p = make()
                p.process(A.parts[i], B.all, ordered=True, finalize=False, **opt)
            return out
        for i in range(A.K):
            for j in range(B.K):
                out[i, j, j] = p = make()
                p.process(A.parts[i], B.parts[j], ordered=ordered, finalize=False, **opt)
                for k in range(j + 1, B.K):
                    out[i, j, k] = p = make()
                    p.process(A.parts[i], B.parts[j], B.parts[k], ordered=ordered, finalize=False,
                              **opt)
                    if ordered:
                        t = getattr(p, 'tot', 0)
                        p.process(A.parts[i], B.parts[k], B.parts[j], ordered=True,
                                  initialize=False, finalize=False, **opt)
                        if hasattr(p, 'tot'):
                            p.tot = t
        return out
    C = cats[2]
    if c['local']:
        for i in range(A.K):
            out[i, i, i] = p = make()
            p.process(A.parts[i], B.all, C.all, ordered=True, finalize=False, **opt)
        return out
    for i in range(A.K):
        for j in range(B.K):
            for k in range(C.K):
                out[i, j, k] = p = make()
                p.process(A.parts[i], B.parts[j], C.parts[k], ordered=ordered, finalize=False,
                          **opt)
    return out


def mult(keys, patched, method, row):
    """How often each key enters the given row."""
    out = {}
    for key in keys:
        idx = [k for k, p in zip(key, patched) if p]
        if method == 'jackknife':
            m = 0 if row in idx else 1
        elif method == 'sample':
            m = int(idx[0] == row)
        elif method == 'marked_bootstrap':
            m = int(np.sum(np.equal(row, idx[0])))
        else:
            m = 1
            for k in set(idx):
                m *= int(np.sum(np.equal(row, k)))
        if m:
            out[key] = m
    return out


def recombine(make, P, m):
    M = make()
    for key, k in m.items():
        if key in P:
            for _ in range(k):
                M += P[key]
    return M


class Stat:
    """One statistic: the object computed by treecorr and the model made from pieces."""

    def __init__(self, corr, make, P, patched):
        self.corr, self.make, self.P, self.patched = corr, make, P, patched
        self.rand = None

    def model(self, m, method):
        """Finalized model object for the given multiplicities (or None if undefined)."""
        M = recombine(self.make, self.P, m)
        ones_finalize(M)
        if self.rand is None:
            return M
        if 'rg' in self.rand:
            R = self.rand['rg']
            if R.K1 == 1 and self.patched[0]:
                mr = {(0, k[1]): n for k, n in m.items() if k[0] == k[1]}
            else:
                mr = m
            N = recombine(self.make, R.P, mr)
            ones_finalize(N)
            M.xi = M.xi - N.xi
            if hasattr(M, 'xi_im'):
                M.xi_im = M.xi_im - N.xi_im
            return M
        # counts
        three_ = len(next(iter(self.P))) == 3
        rr = self.rand['rrr' if three_ else 'rr']
        if rr.K1 == 1:
            N = rr.whole
            if not all(self.patched):
                # Nothing but DD says how much of the area is left.
                M.tot = M.tot
            else:
                e = 1. / 3 if three_ else 0.5
                auto = [k for k in self.P if len(set(k)) == 1]
                frac = (sum(self.P[k].tot ** e * m.get(k, 0) for k in auto) /
                        sum(self.P[k].tot ** e for k in auto))
                M.tot = sum(p.tot for p in self.P.values()) * frac
        else:
            N = recombine(self.make, rr.P, m)
        kw = dict(rrr=N) if three_ else dict(rr=N)
        for nm in ('dr', 'rd', 'drr', 'rdd'):
            if nm in self.rand:
                R = self.rand[nm]
                mm = m
                if nm == 'dr' and R.K2 == 1 and all(self.patched):
                    mm = {(k[0], 0): n for k, n in m.items() if k[0] == k[1]}
                if nm == 'rd' and R.K1 == 1 and all(self.patched):
                    mm = {(0, k[1]): n for k, n in m.items() if k[0] == k[1]}
                if nm == 'drr' and R.K2 == 1:
                    mm = {(k[0], 0, 0): n for k, n in m.items() if len(set(k)) == 1}
                if nm == 'rdd' and R.K1 == 1:
                    mm = {}
                    for k, n in m.items():
                        if k[0] == k[1] or k[0] == k[2]:
                            kk = (0, k[1], k[2])
                            mm[kk] = mm.get(kk, 0) + n
                kw[nm] = recombine(self.make, R.P, mm)
        if any(x.tot == 0 for x in kw.values()):
            return None
        if three_:
            M.calculateZeta(**kw)
        else:
            M.calculateXi(**kw)
        return M


class Rand:
    pass


def stat_func(c, three_):
    f = c['func']
    nr = 'meand2' if three_ else 'meanr'
    if f is None:
        return None
    if f == 'meanr':
        return lambda x: getattr(x, nr).ravel()
    if f == 'weight':
        return lambda x: np.concatenate([np.real(x.weight.ravel()), np.real(x.weight.ravel()) ** 2])
    if f == 'complex':
        if three_:
            return lambda x: x.weight.ravel() * (1 + 2j) + x.meand3.ravel()
        return lambda x: (x.xi + 1j * x.xi_im).ravel() if hasattr(x, 'xi_im') else \
            x.weight.ravel() * (1 + 0.5j) - 1j * getattr(x, nr).ravel()
    return lambda x: np.array([np.sum(np.real(x.weight)), np.sum(getattr(x, nr) *
                                                                np.real(x.weight)) ** 2 + 1])


def run(c, mon):
    import treecorr
    logging.disable(logging.CRITICAL)
    if c['tag'] == '2pt':
        D1, D2, bins, kw, period, rp = gen.resolve(c)
        Ds = [D1] if D2 is None else [D1, D2]
    else:
        Ds, bins, kw, period = three.resolve(dict(c))
    kw.update(bin_slop=0, angle_slop=0, num_bootstrap=c['nboot'])
    kw['sep_units'] = kw.get('sep_units')
    if kw['sep_units'] is None:
        del kw['sep_units']
    r = np.random.RandomState(c['seed'] % 99991)
    if c['tag'] == '2pt' and c['metric'] == 'Periodic' and c['letters'] not in ('NN', 'NK', 'KK') \
            and c['coords'] == 'flat':
        pass
    # data and randoms
    data, rand = [], []
    for k, D in enumerate(Ds):
        a, b = split(D, r)
        data.append(Cat(treecorr, D, a, c, c['patched'][k], 11 * k))
        rand.append((D, b))
    stats = []
    if c['tag'] == '2pt':
        lets = [c['letters']]
        if c['multi']:
            a, b = c['letters']
            more = [x for x in LET2 if (x[0] == x[1]) == (a == b) or len(Ds) == 2]
            lets.append(more[r.randint(len(more))])
        for L in lets:
            stats.append(build2(treecorr, c, L, kw, data, rand, Ds))
    else:
        stats.append(build3(treecorr, c, kw, data, rand, Ds))
    if any(s is None for s in stats):
        mon.count('skipped')
        return
    mon.count('%s_runs' % ('two_point' if c['tag'] == '2pt' else 'three_point'))
    one = len(stats) == 1
    f1 = stat_func(c, c['tag'] == '3pt')
    if f1 is None:
        f = lambda cs: np.concatenate([x.getStat() for x in cs])
        func = None
    else:
        func = (lambda cs: np.concatenate([f1(x) for x in cs]))
        f = func
    for s in stats:
        s.corr_before = snapshot(s.corr)
    differ = checks(treecorr, c, mon, stats, func, f, f1, one)
    for s in stats:
        same_snap(mon, s.corr_before, snapshot(s.corr))
    history(treecorr, c, mon, stats, func, f, f1, one, data, kw)
    for d in ('coords', 'metric', 'bin_type', 'letters', 'ncat', 'local', 'func', 'spatial',
              'history', 'multi'):
        mon.cover(d, c[d])
    mon.cover('patched', c['patched'])
    if c['randoms']:
        mon.cover('rand', (c['letters'], tuple(c['rand'])))
    if differ:
        mon.nontrivial((c['bin_type'], c['letters'], c['coords'], c['metric'], tuple(c['patched']),
                        c['local'], c['func'], tuple(c['rand']) if c['randoms'] else None,
                        c['multi'], tuple(c['methods'])))


def snapshot(corr):
    out = {}
    for nm in ('npairs', 'ntri', 'weight', 'meanr', 'meanlogr', 'meand1', 'meand2', 'meanu', 'xi',
               'xi_im', 'xip', 'xim', 'xip_im', 'xim_im', 'zeta', 'gam0', 'gam1', 'gam2', 'gam3',
               'raw_xi', 'raw_xi_im', 'tot', 'varxi', 'varxip', 'varzeta'):
        try:
            v = getattr(corr, nm, None)
        except Exception:
            v = None
        out[nm] = np.array(v) if v is not None else None
    for nm in ('_rr', '_dr', '_rd', '_rg', '_rrr', '_drr', '_rdd', '_rz', '_rk'):
        x = getattr(corr, nm, None)
        if x is not None:
            out[nm] = (np.array(x.weight), np.array(getattr(x, 'tot', 0)),
                       np.array(getattr(x, 'xi', 0) if getattr(x, 'xi', 0) is not None else 0))
    return out


def same_snap(mon, a, b):
    for k in a:
        x, y = a[k], b.get(k)
        if x is None or y is None:
            mon.check(x is None and y is None, 'unchanged %s' % k)
        elif isinstance(x, tuple):
            for u, v in zip(x, y):
                mon.check(np.array_equal(u, v, equal_nan=True), 'unchanged %s' % k, got=v, want=u)
        else:
            mon.check(np.array_equal(x, y, equal_nan=True), 'unchanged %s' % k, got=y, want=x)


def build2(treecorr, c, L, kw, data, rand, Ds):
    cls = two.corr_class(treecorr, L)
    seed = c['seed'] % 1000

    def make():
        return cls(rng=np.random.RandomState(seed), **kw)
    corr = make()
    A, B = data[0], data[1] if len(data) > 1 else None
    if B is None and L[0] != L[1]:
        B = A
        return None
    opt = dict(patch_method='local') if c['local'] else {}
    if c['local'] and not A.patched:
        # with nothing to divide, local works on the first catalog only
        return None
    twod = c['bin_type'] == 'TwoD'
    corr.process(*[x.whole for x in data], **opt)
    P = pieces2(make, A, B, c['local'], twod)
    patched = [A.patched, A.patched if B is None else B.patched]
    s = Stat(corr, make, P, patched)
    s.twod = twod
    if L == 'NN':
        s.rand = randoms_nn(treecorr, c, make, s, data, rand, opt, twod)
        if s.rand is None:
            return None
    elif c['randoms'] and L[0] == 'N' and not c['local']:
        kind = c['rand'][0]
        if kind == 'none' or B is None:
            return s
        R = Rand()
        D, b = rand[0]
        rc = Cat(treecorr, D, b, c, kind == 'patched' and A.patched, 977)
        R.K1 = rc.K
        rg = make()
        rg.process(rc.whole, B.whole)
        if rg.npatch1 not in (1, corr.npatch1) or rg.npatch2 != corr.npatch2 or not len(rg.results):
            return s
        R.P = pieces2(make, rc, B, False, twod)
        s.rand = dict(rg=R)
        s.calc = lambda: corr.calculateXi(**{'r' + L[1].lower(): rg})
        s.calc()
    return s


def randoms_nn(treecorr, c, make, s, data, rand, opt, twod):
    corr = s.corr
    A, B = data[0], data[1] if len(data) > 1 else None
    kinds = c['rand']
    rcats = []
    for k, (D, b) in enumerate(rand):
        rcats.append(Cat(treecorr, D, b, c, data[k].patched, 1013 + k))
    flat = [Cat(treecorr, D, b, c, False, 5) for D, b in rand]
    out = {}
    rr = make()
    R = Rand()
    if kinds[0] == 'unpatched' or c['local']:
        rr.process(*[x.whole for x in flat])
        R.K1, R.whole = 1, rr
    else:
        if not all(s.patched):
            # RR of one patched catalog is not distinguished from an unpatched one
            rr.process(*[x.whole for x in flat])
            R.K1, R.whole = 1, rr
        else:
            rr.process(*[x.whole for x in rcats])
            R.K1 = rcats[0].K
            R.P = pieces2(make, rcats[0], rcats[1] if B is not None else None, False, twod)
    out['rr'] = R
    kw = dict(rr=rr)
    if twod or c['local']:
        # the cross terms are consistent with DD in number only for the global method
        kinds = [kinds[0], 'none', 'none']
    Bd = B if B is not None else A
    Br = rcats[1] if B is not None else rcats[0]
    Bf = flat[1] if B is not None else flat[0]
    if kinds[1] != 'none':
        x = Br if kinds[1] == 'patched' else Bf
        if A.patched and (x.patched or Bd.patched):
            dr = make()
            dr.process(A.whole, x.whole)
            R = Rand()
            R.K1, R.K2 = A.K, x.K
            R.P = pieces2(make, A, x, False, twod)
            if len(dr.results) and dr.npatch1 == corr.npatch1 and dr.npatch2 in (1, corr.npatch2):
                out['dr'] = R
                kw['dr'] = dr
    if kinds[2] != 'none':
        x = rcats[0] if kinds[2] == 'patched' else flat[0]
        if Bd.patched and (x.patched or A.patched):
            rd = make()
            rd.process(x.whole, Bd.whole)
            R = Rand()
            R.K1, R.K2 = x.K, Bd.K
            R.P = pieces2(make, x, Bd, False, twod)
            if len(rd.results) and rd.npatch2 == corr.npatch2 and rd.npatch1 in (1, corr.npatch1):
                out['rd'] = R
                kw['rd'] = rd
    if rr.tot == 0:
        return None
    s.calc = lambda: corr.calculateXi(**kw)
    s.calc()
    return out


def build3(treecorr, c, kw, data, rand, Ds):
    cls = getattr(treecorr, c['letters'] + 'Correlation')
    seed = c['seed'] % 1000

    def make():
        return cls(rng=np.random.RandomState(seed), **kw)
    corr = make()
    opt = dict(algo=c['algo'], metric=c['metric'])
    opt['patch_method'] = 'local' if c['local'] else 'global'
    if c['local'] and not all(c['patched']):
        return None
    o2 = dict(opt)
    if len(data) > 1:
        o2['ordered'] = c['ordered']
    corr.process(*[x.whole for x in data], **o2)
    P = pieces3(make, data, c, c['ordered'])
    patched = [x.patched for x in data]
    patched = [patched[0]] * 3 if len(data) == 1 else patched + patched[1:] if len(data) == 2 \
        else patched
    if hasattr(corr, 'tot') and c['local'] and len(data) == 1:
        for p in P.values():
            p.tot = p.tot / 3.
    s = Stat(corr, make, P, patched)
    if c['letters'] == 'NNN':
        if not c['randoms']:
            s.noxi = True
            return s
        D, b = rand[0]
        kinds = c['rand']
        pr = Cat(treecorr, D, b, c, True, 1013)
        fl = Cat(treecorr, D, b, c, False, 5)
        out = {}
        R = Rand()
        rrr = make()
        if kinds[0] == 'patched' and not c['local']:
            rrr.process(pr.whole, **opt)
            R.K1, R.P = pr.K, pieces3(make, [pr], dict(c, local=False), False)
        else:
            rrr.process(fl.whole, algo=c['algo'], metric=c['metric'])
            R.K1, R.whole = 1, rrr
        if rrr.tot == 0 or not np.any(rrr.weight):
            s.noxi = True
            return s
        out['rrr'] = R
        kw2 = dict(rrr=rrr)
        if kinds[1] != 'none' and not c['local']:
            x = pr if kinds[1] == 'patched' else fl
            A = data[0]
            drr, rdd = make(), make()
            drr.process(A.whole, x.whole, ordered=False, **opt)
            rdd.process(x.whole, A.whole, ordered=False, **opt)
            for nm, u, v in (('drr', A, x), ('rdd', x, A)):
                R = Rand()
                R.K1, R.K2 = u.K, v.K
                R.P = pieces3(make, [u, v], dict(c, local=False), False)
                out[nm] = R
            kw2.update(drr=drr, rdd=rdd)
        s.rand = out
        s.calc = lambda: corr.calculateZeta(**kw2)
        s.calc()
    return s


def rows_for(c, stats, method, rng):
    K = c['npatch']
    if method in ('jackknife', 'sample'):
        return list(range(K))
    return [rng.choice(np.arange(K), size=K, replace=True) for _ in range(c['nboot'])]


def all_keys(s):
    keys = set(s.P)
    if s.rand:
        for nm, R in s.rand.items():
            if hasattr(R, 'P') and (R.K1 != 1 or not all(s.patched)) and getattr(R, 'K2', 2) != 1:
                keys |= set(R.P)
    return keys


def checks(treecorr, c, mon, stats, func, f, f1, one):
    """Compares the design matrices and covariances of the given statistics."""
    differ = False
    noxi = any(getattr(s, 'noxi', False) for s in stats)
    if noxi and func is None:
        return False
    for method in c['methods']:
        for s in stats:
            s.corr._rng = np.random.RandomState(c['seed'] % 1000)
        if len(c['patched']) and not one and len(set(s.corr._get_npatch() for s in stats)) > 1:
            continue
        corrs = [s.corr for s in stats]
        rng = np.random.RandomState(c['seed'] % 1000)
        rows = rows_for(c, stats, method, rng)
        want, wt, ok, scale = [], [], [], []
        for row in rows:
            Ms = []
            for s in stats:
                m = mult(all_keys(s), s.patched, method, row)
                m = {k: n for k, n in m.items()}
                Ms.append(s.model(m, method))
            if any(M is None for M in Ms) or not all(np.any(M.weight) for M in Ms):
                want.append(None)
                ok.append(False)
                wt.append(0)
                continue
            want.append(f(Ms))
            wt.append(sum(np.sum(M.getWeight()) for M in Ms))
            ok.append(True)
        if one and c['seed'] % 2:
            args = (corrs[0],)
            dm = lambda: corrs[0].build_cov_design_matrix(method, func=f1)
            cv = lambda: corrs[0].estimate_cov(method, func=f1)
        else:
            dm = lambda: treecorr.build_multi_cov_design_matrix(corrs, method, func=func)
            cv = lambda: treecorr.estimate_multi_cov(corrs, method, func=func)
        if not all(ok):
            mon.count('rows_undefined', len(ok) - sum(ok))
        with np.errstate(all='ignore'):
            v, w = dm()
        mon.check(v.shape[0] == len(rows), 'number of rows', method=method, got=v.shape[0],
                  want=len(rows))
        if v.shape[0] != len(rows):
            continue
        big = max([np.max(np.abs(x[np.isfinite(x)])) if np.any(np.isfinite(x)) else 0.
                   for x in want if x is not None] + [0.])
        # xi is a difference of normalized counts
        floor = 1e-12 if any(s.rand is not None for s in stats) else 0.
        for k, x in enumerate(want):
            if not ok[k]:
                continue
            good = np.isfinite(x) & (np.abs(x) < 1e12)
            mon.close('%s row' % method, v[k][good], x[good], 1e-9 * big + floor, rtol=1e-8)
            mon.count('rows_compared')
            mon.close('%s row weight' % method, w[k], wt[k], 0, rtol=1e-9)
        if all(ok) and len(want) > 1 and np.ptp(np.abs(np.array(want)), axis=0).max() > 0:
            differ = True
        if big < 1e-9:
            continue
        if not all(ok) or not np.all(np.isfinite(v)) or not np.all(np.isfinite(np.array(want))):
            continue
        for s in stats:
            s.corr._rng = np.random.RandomState(c['seed'] % 1000)
        V = np.array(want)
        n = len(rows)
        d = V - np.mean(V, axis=0)
        if method == 'sample' and np.any(np.array(wt) == 0):
            mon.raises('sample without data', (RuntimeError,), cv)
            continue
        C = cv()
        if method == 'jackknife':
            W = (1 - 1. / n) * np.conj(d).T.dot(d)
        elif method == 'sample':
            ww = np.array(wt) / np.sum(wt)
            W = np.conj(d).T.dot(ww[:, None] * d) / (n - 1)
        else:
            W = np.conj(d).T.dot(d) / (n - 1)
        tol = 1e-8 * np.sqrt(np.outer(np.diag(W).real, np.diag(W).real)) + 1e-15 * big ** 2 + \
            1e-9 * big * np.max(np.abs(d))
        mon.count('covariances')
        mon.close('%s covariance' % method, C, W, tol)
        mon.close('%s covariance is Hermitian' % method, C, np.conj(C).T, 1e-13 * np.abs(W).max())
        if not (method == 'sample' and np.min(wt) < 0):
            ev = np.linalg.eigvalsh(0.5 * (C + np.conj(C).T))
            mon.check(ev.min() >= -1e-9 * max(ev.max(), 0) - tol.max(), '%s positive' % method,
                      ev=ev)
        # reproducible from the seed
        for s in stats:
            s.corr._rng = np.random.RandomState(c['seed'] % 1000)
        C2 = cv()
        mon.check(np.array_equal(C, C2), '%s is reproducible' % method, got=C2, want=C)
    return differ


def history(treecorr, c, mon, stats, func, f, f1, one, data, kw):
    """Later changes of the data are followed."""
    s = stats[0]
    h = c['history']
    if h is None or getattr(s, 'noxi', False):
        return
    if h == 'randoms' and (s.rand is None or 'rr' not in s.rand or c['tag'] == '3pt'):
        return
    m = c['methods'][0]
    corr = s.corr

    def cov(x):
        x._rng = np.random.RandomState(3)
        with np.errstate(all='ignore'):
            return x.estimate_cov(m)
    opt = dict(patch_method='local') if c['local'] else {}
    if c['tag'] == '3pt':
        opt.update(algo=c['algo'], metric=c['metric'])
        if not c['local']:
            opt['patch_method'] = 'global'
    args = [x.whole for x in data]
    rev = None
    if h == 'randoms':
        rr = s.make()
        rr.process(*[x.whole for x in data])
        corr.calculateXi(rr=rr)
        fresh = s.make()
        fresh.process(*args, **opt)
        fresh.calculateXi(rr=rr)
    else:
        # some other data with the same patches
        D = data[0].D
        half = [treecorr.Catalog(patch=x.whole.patch, npatch=None, **subset(x.D, x.idx))
                if False else x.whole for x in data]
        less = [x.whole.copy() if False else x.whole for x in data]
        some = [treecorr.Catalog(**dict(subset(x.D, x.idx[::-1])), **(
            dict(patch=np.asarray(x.whole.patch)) if x.patched else {})) for x in data]
        if h == 'again':
            corr.process(*some, **opt)
            fresh = s.make()
            fresh.process(*some, **opt)
        else:
            fresh = s.make()
            for x in (corr, fresh):
                x.process(*args, initialize=True, finalize=False, **opt)
                if x is corr:
                    # the covariance of what there is so far
                    try:
                        cov(x.copy())
                        x._ok
                    except Exception:
                        pass
                x.process(*some, initialize=False, finalize=True, **opt)
        if s.rand is not None:
            # new correlation: the estimators have to be run again
            s.calc()
            calc_on(s, fresh)
    a, b = snapshot(corr), snapshot(fresh)
    if not np.any(b['weight']):
        return
    mon.count('histories')
    C, W = [], []
    for x, y in ((corr, C), (fresh, W)):
        try:
            y.append(cov(x))
        except RuntimeError as e:
            y.append(str(e))
    C, W = C[0], W[0]
    if isinstance(C, str) or isinstance(W, str):
        mon.check(isinstance(C, str) and isinstance(W, str), 'error after %s' % h, got=C, want=W)
        return
    ok = np.isfinite(W)
    mon.close('covariance after %s' % h, C[ok], W[ok], 1e-20 + 1e-12 * np.abs(W[ok]).max() if np.any(ok)
              else 0, rtol=1e-9)
    mon.close('cov property after %s' % h, np.nan_to_num(corr.cov), np.nan_to_num(fresh.cov), 1e-20,
              rtol=1e-9)


def calc_on(s, x):
    """Runs the estimator of s on another object."""
    cell = s.calc.__closure__
    names = s.calc.__code__.co_freevars
    env = dict(zip(names, [q.cell_contents for q in cell]))
    if 'rg' in env:
        x.calculateXi(**{'r' + env['L'][1].lower(): env['rg']})
    elif 'kw2' in env:
        x.calculateZeta(**env['kw2'])
    else:
        x.calculateXi(**env['kw'])
