"""C06: processing patch by patch gives the result of processing the whole catalogs."""
import logging
import os
import shutil
import numpy as np
from oracle import pairs as P
from oracle import tri as T
from vlib import gen
from checks import three, two

RULE = ('Random two- and three-point configurations (every statistic, bin type, metric and coordinate '
        'system; no slop) processed both as whole catalogs and as patches: patches assigned at '
        'random, spatially, by kmeans, by centers, with missing numbers, one object each or very '
        'uneven; only one side patched; given as a Catalog, as its list of patches, as separately '
        'built catalogs, as the concatenated patches of two catalogs, as plain lists, as files with '
        'low_mem, as saved patch files; global and local; incremental calls. '
        'Non-trivial: pairs counted and the configuration signature is distinct.')
ASSUMPTIONS = ['separations within rounding of a bin edge may fall on either side',
               'angle_slop=0', 'no coincident points for the multipole algorithm (see C05)',
               'a patch never consists of zero-weight objects only with keep_zero_weight=True '
               '(the constructor rejects it)']
MIN_EVENTS = dict(two_point_runs=500, three_point_runs=300, patch_results=3000)

SCHEMES = ['random', 'random', 'spatial', 'spatial', 'kmeans', 'gaps', 'each', 'giant', 'centers']
FORMS = ['cat', 'cat', 'cat', 'patches', 'list', 'multi', 'plain', 'savedir', 'file']


def cases(tier, seed):
    q = gen.prng('C06', seed)
    out = []
    n = 2600 if tier == 'quick' else 40000
    for i in range(n):
        if i % 5 < 3:
            c = gen.two_point_case(q, '2pt', sizes=(2, 3, 6, 12, 25, 50, 90))
            c['letters'] = q.choice(gen.LETTERS2)
            if c['auto'] and c['letters'][0] != c['letters'][1]:
                c['letters'] = q.choice(['NN', 'NN', 'KK', 'ZZ', 'VV', 'GG', 'TT', 'QQ'])
            c['ncat'] = 1 if c['auto'] else 2
        else:
            c = three.case(q, '3pt', ['LogRUV', 'LogSAS', 'LogSAS', 'LogMultipole'],
                           (2, 4, 8, 14))
            c['algo'] = q.choice([None, 'triangle', 'multipole'])
            if c['bin_type'] == 'LogRUV':
                c['algo'] = q.choice([None, 'triangle'])
            if c['bin_type'] == 'LogMultipole':
                c['algo'] = None
            if multipole(c):
                c['geom'] = 'uniform' if c['geom'] == 'dups' and c['coords'] == 'flat' else c['geom']
                if c['geom'] == 'dups':
                    c['geom'] = 'patch' if c['coords'] == 'spherical' else 'box'
                if c['geom2'] == 'dups':
                    c['geom2'] = c['geom']
        if c['tag'] == '3pt':
            # the same catalog twice
            c['repeat'] = q.choice([None, None, (0, 1), (0, 2), (1, 2)]) \
                if c['ncat'] == 3 and not multipole(c) else None
        c['npatch'] = q.choice([1, 2, 2, 3, 4, 6])
        c['scheme'] = q.choice(SCHEMES)
        c['form'] = [q.choice(FORMS) for _ in range(3)]
        c['patched'] = [q.random() < 0.75 for _ in range(3)]
        if not any(c['patched'][:c['ncat']]):
            c['patched'][0] = True
        c['low_mem'] = q.random() < 0.5
        c['local'] = q.choice([None, None, 'global', 'local'])
        c['incremental'] = q.random() < 0.2
        c['cat_cov'] = q.random() < 0.1
        out.append(c)
    return out


def multipole(c):
    return c['bin_type'] == 'LogMultipole' or (c['bin_type'] == 'LogSAS'
                                               and c.get('algo') != 'triangle')


def subset(D, idx):
    kw = {}
    for k, v in D.kw.items():
        kw[k] = v[idx] if isinstance(v, np.ndarray) else v
    return kw


def labels(D, c, r, K):
    """Patch numbers for the rows; every number 0..K-1 present on a row with weight for
    schemes without gaps."""
    n = D.n
    s = c['scheme']
    if s in ('random', 'kmeans'):
        lab = r.randint(0, K, n)
    elif s in ('spatial', 'centers'):
        ax = r.randint(0, 2)
        o = np.argsort(np.argsort(D.p[:, ax], kind='stable'), kind='stable')
        lab = (o * K) // n
    elif s == 'gaps':
        lab = r.choice([0, K // 2, K - 1], n)
    elif s == 'each':
        lab = np.arange(n) % K
    elif s == 'giant':
        lab = np.full(n, K - 1)
        lab[r.randint(0, n)] = 0
    lab = np.asarray(lab, dtype=int)
    # npatch is deduced from the largest label
    ok = np.flatnonzero(D.w != 0)
    lab[ok[r.randint(0, len(ok))]] = K - 1
    return lab


def col_kw(D):
    kw = {}
    for k in D.kw:
        if k in ('ra_units', 'dec_units', 'x_units', 'y_units'):
            kw[k] = D.kw[k]
        else:
            kw[k + '_col'] = k
    return kw


def deliver(treecorr, D, c, K, form, scratch, name, mon):
    """Returns what to pass to process."""
    r = np.random.RandomState((c['seed'] + len(name) * 17 + K) % (2 ** 32))
    if form == 'plain':
        lab = labels(D, dict(c, scheme='random'), r, K)
        # drop pieces without weight
        return [treecorr.Catalog(**subset(D, np.flatnonzero(lab == k)))
                for k in range(K) if np.any(D.w[lab == k] != 0)]
    kept = int(np.sum(D.w != 0))
    if c['scheme'] == 'kmeans' and form in ('cat', 'patches', 'savedir') and K <= kept and \
            kept == D.n and len(np.unique(D.p, axis=0)) >= K:
        kw = dict(npatch=K, rng=np.random.RandomState(5))
        mon.cover('assignment', 'kmeans')
    elif c['scheme'] == 'centers' and form in ('cat', 'patches', 'savedir', 'file'):
        cen = c['_centers']
        kw = dict(patch_centers=cen)
        mon.cover('assignment', 'centers')
    else:
        kw = dict(patch=labels(D, c, r, K))
        mon.cover('assignment', 'labels')
    if K == 1 and 'patch' in kw:
        kw = dict(patch=0)
    if form == 'list' and isinstance(kw.get('patch'), np.ndarray):
        lab = kw['patch']
        return [treecorr.Catalog(patch=int(k), npatch=K, **subset(D, np.flatnonzero(lab == k)))
                for k in r.permutation(K) if np.any(D.w[lab == k] != 0)]
    if form == 'multi' and isinstance(kw.get('patch'), np.ndarray):
        lab = kw['patch']
        half = r.rand(D.n) < 0.5
        out = []
        for m in (half, ~half):
            for k in range(K):
                if np.any(D.w[m & (lab == k)] != 0):
                    out.append(treecorr.Catalog(patch=k, npatch=K,
                                                **subset(D, np.flatnonzero(m & (lab == k)))))
        return out
    if form == 'savedir':
        d = os.path.join(scratch, name)
        os.makedirs(d)
        return D.catalog(treecorr, save_patch_dir=d, **kw)
    if form == 'file':
        fn = os.path.join(scratch, name + '.fits')
        if 'patch' in kw and not isinstance(kw['patch'], np.ndarray):
            kw['patch'] = np.zeros(D.n, dtype=int)
        D.catalog(treecorr, **kw).write(fn)
        ck = col_kw(D)
        if 'patch' in kw:
            ck['patch_col'] = 'patch'
        else:
            ck.update(kw)
        if np.all(D.w[D.w != 0] == 1):
            ck.pop('w_col', None)
        return treecorr.Catalog(fn, **ck)
    cat = D.catalog(treecorr, **kw)
    if form == 'patches':
        return cat.get_patches()
    return cat


def run(c, mon):
    import treecorr
    logging.disable(logging.CRITICAL)
    scratch = os.path.join(os.environ['VERIF_SCRATCH'], 'c06')
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        (run2 if c['tag'] == '2pt' else run3)(treecorr, c, mon, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def centers(c, D):
    """Some distinct objects of the first catalog."""
    r = np.random.RandomState(c['seed'] % 1000)
    p = np.unique(D.p[D.w != 0], axis=0)
    k = min(len(p), c['npatch'])
    p = p[r.choice(len(p), k, replace=False)]
    if c['coords'] == 'flat':
        p = p[:, :2]
    elif c['coords'] == '3d' and c.get('style') == 'radecr':
        # positions with r are assigned by their direction only
        p = p / np.sqrt(np.sum(p * p, axis=1))[:, None]
    return np.ascontiguousarray(p)


def inputs(treecorr, c, mon, Ds, scratch, local):
    K = c['npatch']
    c['_centers'] = centers(c, Ds[0])
    if c['scheme'] == 'centers':
        K = len(c['_centers'])
    kept = min(int(np.sum(D.w != 0)) for D in Ds)
    if c['scheme'] == 'each':
        K = min(kept, 12)
    out = []
    any_patched = False
    for i, D in enumerate(Ds):
        if not c['patched'][i]:
            out.append(D.catalog(treecorr))
            continue
        form = c['form'][i]
        if form == 'plain' and (len(Ds) > 1):
            form = 'list'       # lists without patches must match in length
        x = deliver(treecorr, D, c, K, form, scratch, 'cat%d' % i, mon)
        mon.cover('form', form)
        out.append(x)
    return out


def npatch_of(x):
    if isinstance(x, list):
        return x[0].npatch if x[0].npatch != 1 else len(x)
    return x.npatch


def run2(treecorr, c, mon, scratch):
    D1, D2, bins, kw, period, rp = gen.resolve(c)
    Ds = [D1] if D2 is None else [D1, D2]
    letters = c['letters']
    kw['bin_slop'] = 0
    kw['angle_slop'] = 0
    whole = two.run_corr(treecorr, letters, D1, D2, kw)
    args = inputs(treecorr, c, mon, Ds, scratch, c['local'] == 'local')
    ns = [npatch_of(x) for x in args]
    if len(ns) > 1 and ns[0] != ns[1] and min(ns) > 1:
        mon.count('unmatched_patches')
        return
    cls = two.corr_class(treecorr, letters)
    k = dict(kw)
    metric = k.pop('metric')
    corr = cls(metric=metric, **k)
    opt = dict(low_mem=c['low_mem'])
    if c['local']:
        opt['patch_method'] = c['local']
    parts = 1
    if c['incremental'] and isinstance(args[0], list) and len(args[0]) > 1:
        # several calls that together cover everything
        a = args[0]
        if D2 is None:
            if c['local'] != 'local' and c['bin_type'] != 'TwoD':
                h = len(a) // 2
                # two auto-correlations and the cross-correlation of the two halves
                A, B = a[:h], a[h:]
                if len(A) == len(B) or min(len(A), len(B)) == 1:
                    corr.process(A, initialize=True, finalize=False, **opt)
                    corr.process(B, initialize=False, finalize=False, **opt)
                    corr.process(A, B, initialize=False, finalize=True, **opt)
                    parts = 3
        else:
            for j, x in enumerate(a):
                corr.process(x, args[1], initialize=(j == 0), finalize=(j == len(a) - 1), **opt)
            parts = len(a)
    if parts == 1:
        corr.process(*args, **opt)
    mon.count('two_point_runs')
    mon.count('patch_results', len(corr.results))
    mon.cover('calls', min(parts, 3))
    factor = 1.
    if c['local'] == 'local' and D2 is None and len(corr.results) > 0:
        factor = 2.
    fmax = 1.
    for L, D in zip(letters, Ds if D2 is not None else [D1, D1]):
        if L != 'N':
            fmax = fmax * np.max(np.abs(D.field(L)))

    slack = [None]

    def ambiguous():
        if slack[0] is None:
            res = P.two_point(bins, c['coords'], c['metric'], D1.p, D1.p if D2 is None else D2.p,
                              D2 is None, two.quantities(letters, D1, D2, c['coords'], False), period,
                              zero_sep='ambiguous', **rp)
            slack[0] = res
        return slack[0]
    if c['bin_type'] == 'Linear' and D2 is None and c['local'] == 'local' and bins.edges[0] <= 0 \
            and np.array_equal(corr.npairs[1:], 2 * whole.npairs[1:]):
        extra = corr.npairs[0] - 2 * whole.npairs[0] - np.sum(D1.w != 0)
        # coincident objects may count or not
        if extra == 0 or abs(extra) <= 2 * ambiguous()['npairs'][1][0]:
            mon.finding('C06-local-selfpairs', 'Linear bins from 0, patch_method=local: objects '
                        'are paired with themselves')
            return
    same2(mon, c, corr, whole, factor, fmax, ambiguous, parts)
    for d in ('coords', 'metric', 'bin_type', 'letters', 'auto', 'scheme', 'low_mem', 'local',
              'incremental'):
        mon.cover(d, c[d])
    mon.cover('patched', c['patched'][:len(Ds)])
    if np.any(whole.npairs):
        mon.nontrivial((c['bin_type'], letters, c['coords'], c['metric'], c['auto'], c['scheme'],
                        tuple(c['form'][:len(Ds)]), c['low_mem'], c['local']))


def close(a, b):
    return np.allclose(a, b, rtol=1e-9, atol=1e-9 * np.max(np.abs(b), initial=0))


def same2(mon, c, a, b, factor, fmax, ambiguous, parts):
    f = factor
    if c['bin_type'] == 'TwoD' and factor != 1:
        # an auto-correlation puts each pair into both cells anyway
        f = 1.
    # Pairs at a bin edge or coincident objects may count or not, so equal numbers need not be the
    # same pairs.
    if not np.array_equal(a.npairs, b.npairs * f) or not close(a.weight, b.weight * f):
        res = ambiguous()
        sl = res['npairs'][1].reshape(b.npairs.shape)
        if np.any(sl):
            mon.count('cases_at_bin_edges')
            mon.check(np.all(np.abs(a.npairs - b.npairs * f) <= sl * f), 'npairs', got=a.npairs,
                      want=b.npairs * f, slack=sl)
            return
        if not np.array_equal(a.npairs, b.npairs * f):
            mon.fail('npairs', got=a.npairs, want=b.npairs * f)
            return
    mon.count('values_compared', a.npairs.size)
    mon.close('weight', a.weight, b.weight * f, 0, rtol=1e-11)
    mon.close('meanr', a.meanr, b.meanr, 0, rtol=1e-9)
    mon.close('meanlogr', a.meanlogr, b.meanlogr, 1e-9, rtol=1e-9)
    if hasattr(a, 'tot'):
        mon.close('tot', a.tot, b.tot * f, 0, rtol=1e-11)
    names = [x for x in ('xi', 'xi_im', 'xip', 'xip_im', 'xim', 'xim_im', 'raw_xi')
             if c['letters'] != 'NN' and hasattr(a, x)]
    if c['letters'][0] not in 'NK' and c['auto']:
        names = [x for x in names if x != 'xip_im']
    for nm in names:
        u, v = getattr(a, nm), getattr(b, nm)
        if u is None or v is None:
            mon.check(u is None and v is None, nm + ' set')
            continue
        k = len(mon.fails)
        mon.close(nm, u, v, 3e-10 * fmax, rtol=1e-9)
        if len(mon.fails) > k and np.any(ambiguous()['npairs'][1]):
            # as above, with pairs of equal weights
            del mon.fails[k:]
            mon.count('cases_at_bin_edges')
    if parts == 1:
        for nm in ('varxi', 'varxip', 'varxim'):
            if hasattr(a, nm) and c['letters'] != 'NN':
                mon.close(nm, getattr(a, nm), getattr(b, nm) / f, 0, rtol=1e-8)


def run3(treecorr, c, mon, scratch):
    bt = c['bin_type']
    cc = dict(c)
    Ds, bins, kw, period = three.resolve(cc)
    letters = c['letters']
    kw['bin_slop'] = 0
    kw['angle_slop'] = 0
    mp = multipole(c)
    rep = c.get('repeat')
    if rep:
        Ds = list(Ds)
        Ds[rep[1]] = Ds[rep[0]]
        c['form'][rep[1]] = c['form'][rep[0]]
        c['patched'][rep[1]] = c['patched'][rep[0]]
    cls = getattr(treecorr, letters + 'Correlation')
    opt = dict(metric=c['metric'], algo=c['algo'])
    if len(Ds) > 1:
        opt['ordered'] = c['ordered']
    if bt == 'LogSAS' and mp:
        opt['max_n'] = c['max_n'] + 1
    whole = cls(**kw)
    whole.process(*[D.catalog(treecorr) for D in Ds], **opt)
    args = inputs(treecorr, c, mon, Ds, scratch, True)
    if rep:
        args[rep[1]] = args[rep[0]]
        mon.count('repeated_catalogs')
    ns = [npatch_of(x) for x in args]
    if len(set(n for n in ns if n > 1)) > 1:
        mon.count('unmatched_patches')
        return
    opt['low_mem'] = c['low_mem']
    if c['local'] and not (mp and c['local'] == 'global'):
        opt['patch_method'] = c['local']
    corr = cls(**kw)
    parts = 1
    if c['incremental'] and isinstance(args[0], list) and len(Ds) > 1:
        a = args[0]
        for j, x in enumerate(a):
            corr.process(x, *args[1:], initialize=(j == 0), finalize=(j == len(a) - 1), **opt)
        parts = len(a)
        if bt == 'LogSAS' and mp and parts > 1:
            # only the last call survives
            last = cls(**kw)
            last.process(a[-1], *args[1:], **opt)
            if close(corr.weight, last.weight):
                if not close(corr.weight, whole.weight):
                    mon.finding('C06-sas-incremental', 'LogSAS with the multipole algorithm: '
                                'initialize=False discards the earlier calls')
                return
    else:
        corr.process(*args, **opt)
    mon.count('three_point_runs')
    mon.count('patch_results', len(corr.results))
    mon.cover('calls', min(parts, 3))
    same3(mon, c, corr, whole, Ds, mp, parts,
          lambda: three.oracle(dict(c, bin_type=bt), Ds, bins, period, letters='NNN'))
    for d in ('coords', 'metric', 'bin_type', 'letters', 'ncat', 'ordered', 'scheme', 'low_mem',
              'local', 'algo'):
        mon.cover(d, c[d])
    mon.cover('patched3', c['patched'][:len(Ds)])
    if np.any(whole.ntri):
        mon.nontrivial((bt, c['algo'], letters, c['coords'], c['metric'], c['ncat'], c['ordered'],
                        c['scheme'], tuple(c['form'][:len(Ds)]), c['low_mem'], c['local']))


def same3(mon, c, a, b, Ds, mp, parts, oracle):
    L = letters3(c)
    n3 = [Ds[0]] * 3 if len(Ds) == 1 else [Ds[0], Ds[1], Ds[1]] if len(Ds) == 2 else Ds
    # the most that all triangles together could contribute to one bin
    big = np.prod([np.sum(D.w) for D in n3]) * 6
    fm = 1. if L == 'N' else np.prod([np.max(np.abs(D.field(L))) for D in n3])
    eps = 1e-13 * big if mp else 0
    ok = np.abs(b.weight) > 1e5 * eps if mp else np.ones(b.weight.shape, dtype=bool)
    tol = 0
    if mp:
        # In LogSAS, ntri is shared out by the signed weights of the phi bins.
        tot = np.abs(np.sum(b.weight, axis=2)) if c['bin_type'] == 'LogSAS' else \
            np.max(np.abs(b.weight), axis=2)
        amp = np.max(np.abs(b.weight), axis=2) / np.maximum(tot, 1e-30)
        tol = np.sum(np.abs(b.ntri), axis=2) * (1e-8 * (1 + amp) + eps * (1 + amp) /
                                                np.maximum(tot, 1e-30))
        tol = tol[:, :, None] * np.ones(b.ntri.shape)
    if not np.all(np.abs(a.ntri - b.ntri) <= tol):
        if mp:
            mon.fail('ntri', got=a.ntri, want=b.ntri)
            return
        res = oracle()
        sl = res['ntri'][1]
        if np.any(sl):
            mon.count('cases_at_bin_edges')
            mon.check(np.all(np.abs(a.ntri - b.ntri) <= sl), 'ntri', got=a.ntri, want=b.ntri,
                      slack=sl)
            return
        mon.fail('ntri', got=a.ntri, want=b.ntri)
        return
    mon.count('values_compared', a.ntri.size)
    mon.close('weight', a.weight, b.weight, eps, rtol=1e-10)
    if hasattr(a, 'tot'):
        mon.close('tot', a.tot, b.tot, 0, rtol=1e-11)
    names = ['meand2', 'meanlogd2', 'meand3', 'meanlogd3']
    if c['bin_type'] != 'LogMultipole':
        names += ['meand1', 'meanlogd1']
    if c['bin_type'] == 'LogRUV':
        names += ['meanu', 'meanv']
    for nm in names:
        if mp and c['bin_type'] == 'LogSAS' and nm in ('meand1', 'meanlogd1'):
            continue
        mon.close(nm, getattr(a, nm)[ok], getattr(b, nm)[ok], 1e-8 if 'log' in nm or nm in 'meanv'
                  else 1e-13, rtol=1e-8)
    for nm in dict(KKK=['zeta'], GGG=['gam0', 'gam1', 'gam2', 'gam3'], NNN=[])[c['letters']]:
        if c['bin_type'] == 'LogMultipole':
            # not divided by the weight
            mon.close(nm, getattr(a, nm), getattr(b, nm), 10 * eps * fm, rtol=1e-9)
            continue
        t = 10 * eps * fm / np.abs(b.weight[ok]) if mp else 3e-9 * fm
        mon.close(nm, getattr(a, nm)[ok], getattr(b, nm)[ok], t, rtol=1e-9)
    if parts == 1 and c['letters'] != 'NNN' and not mp:
        for nm in dict(KKK=['varzeta'], GGG=['vargam0', 'vargam3'])[c['letters']]:
            mon.close(nm, getattr(a, nm), getattr(b, nm), 0, rtol=1e-8)


def letters3(c):
    return c['letters'][0]
