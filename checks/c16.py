"""C16: field queries (count_near, get_near) and sample_pairs against brute force."""
import numpy as np
from vlib import gen
from oracle import pairs as P
from checks.c14 import positions, weights

VARIANTS = ['o3']
RULE = ("count_near/get_near: the sorted, distinct indices of exactly the objects within sep of the "
        "query point, for every field type, tree setting and way of giving the coordinates. "
        "sample_pairs with bin_slop=0: min(n, number of pairs in range) distinct pairs whose true "
        "separations are in the range, with their true separations when cells are leaves; with slop "
        "within the slop; the same for the same seed; each pair with equal frequency (z-test over "
        "many seeds).")
ASSUMPTIONS = ["Objects within rounding of the separation limits may be in or out.",
               "Uniformity is a statistical test with |z| < 6 for every pair over 400 seeds."]
MIN_EVENTS = dict(near_queries=1500, sample_calls=600, uniform_runs=60, pairs_checked=20000,
                  full_samples=100, partial_samples=100)
CASE_TIMEOUT = 120


def cases(tier, seed):
    q = gen.prng('C16', seed)
    n = 1400 if tier == 'quick' else 16000
    kinds = ['near', 'sample', 'near', 'sample', 'sample', 'uniform', 'near', 'sample']
    return [dict(kind=kinds[i % len(kinds)], seed=q.randrange(2 ** 31),
                 coords=q.choice(['flat', 'flat', '3d', 'spherical', '3dra'])) for i in range(n)]


def run(c, mon):
    import treecorr
    q = gen.prng('C16', c['seed'])
    r = np.random.RandomState(c['seed'] % (2 ** 32))
    mon.count(c['kind'])
    globals()['run_' + c['kind']](c, mon, q, r, treecorr)


LET = ['N', 'K', 'Z', 'V', 'G', 'T', 'Q']


def forms(q, coords, x, sep, want_all=False):
    """Ways to give a query point at internal position x (2 or 3 numbers) and separation sep (internal;
    an angle for spherical): list of (name, args, kwargs)."""
    import coord
    out = []
    if coords == 'flat':
        out += [('args', (x[0], x[1], sep), {}), ('sep kw', (x[0], x[1]), dict(sep=sep)),
                ('kw', (), dict(x=x[0], y=x[1], sep=sep))]
    if coords == '3d':
        out += [('args', (x[0], x[1], x[2], sep), {}), ('sep kw', tuple(x), dict(sep=sep)),
                ('kw', (), dict(x=x[0], y=x[1], z=x[2], sep=sep))]
    if coords in ('3d', 'spherical'):
        rr = np.sqrt(np.sum(np.asarray(x) ** 2))
        ra = np.arctan2(x[1], x[0])
        dec = np.arctan2(x[2], np.sqrt(x[0] ** 2 + x[1] ** 2))
        cc = coord.CelestialCoord(ra * coord.radians, dec * coord.radians)
        u1 = q.choice(['deg', 'degrees', 'rad', 'hours', 'arcmin'])
        u2 = q.choice(['deg', 'rad', 'arcsec'])
        U = {k: coord.AngleUnit.from_name(k) / coord.radians
             for k in ['deg', 'degrees', 'rad', 'hours', 'arcmin', 'arcsec']}
        a, d = ra / U[u1], dec / U[u2]
        if coords == '3d':
            out += [('cc', (cc,), dict(r=rr, sep=sep)), ('cc r', (cc, rr), dict(sep=sep)),
                    ('cc r sep', (cc, rr, sep), {}),
                    ('angles', (cc.ra, cc.dec, rr), dict(sep=sep)),
                    ('angles sep', (cc.ra, cc.dec, rr, sep), {}),
                    ('angles kw', (), dict(ra=cc.ra, dec=cc.dec, r=rr, sep=sep)),
                    ('units', (a, d), dict(r=rr, sep=sep, ra_units=u1, dec_units=u2)),
                    ('units r', (a, d, rr), dict(sep=sep, ra_units=u1, dec_units=u2)),
                    ('units r sep', (a, d, rr, sep), dict(ra_units=u1, dec_units=u2)),
                    ('units kw', (), dict(ra=a, dec=d, r=rr, sep=sep, ra_units=u1, dec_units=u2))]
        else:
            u3 = q.choice(['deg', 'rad', 'arcmin'])
            s = sep / U[u3]
            sa = sep * coord.radians
            out += [('cc', (cc,), dict(sep=sa)), ('cc sep', (cc, sa), {}),
                    ('cc units', (cc, s), dict(sep_units=u3)),
                    ('angles', (cc.ra, cc.dec, sa), {}),
                    ('angles kw', (), dict(ra=cc.ra, dec=cc.dec, sep=s, sep_units=u3)),
                    ('units', (a, d), dict(sep=sa, ra_units=u1, dec_units=u2)),
                    ('units sep', (a, d, s), dict(ra_units=u1, dec_units=u2, sep_units=u3)),
                    ('units kw', (), dict(ra=a, dec=d, sep=s, ra_units=u1, dec_units=u2,
                                          sep_units=u3))]
    return out


def run_near(c, mon, q, r, treecorr):
    n = q.choice([1, 2, 3, 10, 50, 200, 700])
    kw, p, geom = positions(q, r, c['coords'], n)
    wk = weights(q, r, n, kw)
    for k in ['k', 'z1', 'z2', 'v1', 'v2', 'g1', 'g2', 't1', 't2', 'q1', 'q2']:
        kw[k] = r.uniform(-1, 1, n)
    keep = np.ones(n, dtype=bool)
    if 'w' in kw and not kw.get('keep_zero_weight', False):
        keep = (kw.get('wpos', kw['w']) != 0)
    p = p[keep]
    cat = treecorr.Catalog(**kw)
    L = q.choice(LET)
    scale = np.max(np.abs(p)) + 1e-300
    ext = np.max(p.max(axis=0) - p.min(axis=0)) + 1e-3
    fk = dict(split_method=q.choice(['mean', 'median', 'middle', 'random']))
    coords = {'3dra': '3d'}.get(c['coords'], c['coords'])
    if c['coords'] in ('3d', '3dra') and q.random() < 0.25:
        fk['coords'] = 'spherical'
        coords = 'spherical'
        nrm = np.sqrt(np.sum(p * p, axis=1))
        if np.min(nrm) < 1e-8 * np.max(nrm):
            return
        p = p / nrm[:, None]
        scale = ext = 1.
    if q.random() < 0.4:
        fk['min_size'] = q.choice([1e-9, 0.01, 0.1, 0.5]) * ext
    if q.random() < 0.3:
        fk['max_size'] = q.choice([0.05, 0.5]) * ext
    if q.random() < 0.4:
        fk['max_top'] = q.choice([0, 1, 3, 10])
        if q.random() < 0.4:
            fk['min_top'] = q.choice([0, 1, 3])
    if q.random() < 0.2:
        fk['brute'] = True
    f = getattr(cat, 'get%sField' % L)(**fk)
    for it in range(4):
        kind = q.choice(['object', 'near', 'far', 'mid'])
        i = r.randint(len(p))
        if kind == 'object':
            x = p[i].copy()
        elif kind == 'near':
            x = p[i] + r.normal(0, 0.02, p.shape[1]) * ext
        elif kind == 'far':
            x = p[i] + r.normal(0, 5, p.shape[1]) * ext
        else:
            x = (p[i] + p[r.randint(len(p))]) / 2 + 1e-6 * ext
        if coords == 'spherical':
            nx = np.sqrt(np.sum(x * x))
            if nx < 1e-3:
                continue
            x = x / nx
            d = 2 * np.arctan2(np.sqrt(np.sum((p - x) ** 2, axis=1)),
                               np.sqrt(np.sum((p + x) ** 2, axis=1)))
            # near 180 degrees the chord loses precision
            err = 1e-13 + 1e-14 / np.maximum(np.cos(d / 2), 1e-7)
        else:
            d = np.sqrt(np.sum((p - x) ** 2, axis=1))
            err = 1e-12 * (scale + np.max(np.abs(x))) + 0 * d
        sd = np.sort(d)
        j = r.randint(len(sd))
        sep = q.choice([sd[j] * 1.0001, sd[j] * 0.999, 0.5 * (sd[j] + sd[-1]), sd[-1] * 1.1,
                        0.3 * ext, 1e-5 * ext, sd[0] * 0.9])
        if coords == 'spherical' and q.random() < 0.06:
            sep = q.choice([np.pi - 0.01, np.pi, 3.5, 5., 7.])
        sure = np.where(d < sep - err)[0]
        maybe = np.where(d <= sep + err)[0]
        if coords == 'spherical' and sep >= np.pi:
            sure = maybe = np.arange(len(p))
        fs = forms(q, coords, [float(v) for v in x], float(sep))
        for name, a, k in [fs[0]] + q.sample(fs, 2):
            mon.count('near_queries')
            got = f.get_near(*a, **dict(k))
            m = f.count_near(*a, **dict(k))
            mon.cover('form', coords + ' ' + name)
            what = '%s field (%s), %s, %s' % (L, coords, 'min_size' if 'min_size' in fk else 'full',
                                              name)
            got = np.asarray(got)
            if got.dtype.kind != 'i' or np.any(np.diff(got) <= 0):
                mon.fail('%s: get_near is not sorted, distinct integers' % what)
                continue
            lost = set(sure) - set(got)
            extra = set(got) - set(maybe)
            if lost or extra:
                mon.fail('%s: get_near lost %d and added %d of %d objects within sep'
                         % (what, len(lost), len(extra), len(sure)),
                         sep=float(sep), d=[float(v) for v in d[sorted(lost | extra)[:4]]])
            if not len(sure) <= m <= len(maybe):
                mon.fail('%s: count_near is %d, expected %d' % (what, m, len(sure)))
            if len(sure) == len(maybe) and m != len(got):
                mon.fail('%s: count_near %d, get_near %d' % (what, m, len(got)))
            mon.count('objects_compared', len(p))
            if 0 < len(sure) < len(p):
                mon.count('partial_queries')
    mon.nontrivial('near-%s-%s-%s-%s-%s' % (c['coords'], coords, geom, wk, '-'.join(sorted(fk))))


def metric_for(q, coords):
    if coords == 'flat':
        return q.choice(['Euclidean', 'Euclidean', 'Periodic'])
    if coords == 'spherical':
        return q.choice(['Euclidean', 'Arc'])
    return q.choice(['Euclidean', 'Arc', 'Rperp', 'OldRperp', 'Rlens', 'Periodic'])


def run_sample(c, mon, q, r, treecorr):
    auto = q.random() < 0.3
    coords = {'3dra': '3d'}.get(c['coords'], c['coords'])
    n1 = q.choice([1, 3, 10, 30, 80])
    n2 = n1 if auto else q.choice([1, 3, 10, 30, 80])
    g = q.choice({'flat': gen.FLAT, '3d': gen.THREED, '3dra': gen.SPH,
                  'spherical': gen.SPH}[c['coords']])
    rs = r.randint(2 ** 31)
    r1 = np.random.RandomState(rs)
    kw1, p1, _ = positions(q, r1, c['coords'], n1, g)
    if auto:
        kw2, p2 = kw1, p1
    else:
        r2 = np.random.RandomState(rs if q.random() < 0.3 else rs + 1)
        kw2, p2, _ = positions(q, r2, c['coords'], n2, g)
    for kw, n in ((kw1, n1), (kw2, n2)):
        if kw is kw1 or not auto:
            if q.random() < 0.4:
                kw['w'] = r.uniform(0.1, 2., n)
            if q.random() < 0.3:
                kw['patch'] = r.randint(0, 3, n)
                kw['npatch'] = 3
    pad = (lambda p: np.concatenate([p, np.zeros((len(p), 1))], axis=1)) if coords == 'flat' else \
        (lambda p: p)
    P1, P2 = pad(p1), pad(p2)
    metric = metric_for(q, coords)
    period = (0, 0, 0)
    conf = {}
    ext = max(np.max(np.ptp(np.concatenate([P1, P2]), axis=0)), 1e-3)
    if metric == 'Periodic':
        L = ext * q.choice([1.0, 1.2])
        period = (L, L, L)
        conf['period'] = L
    d, err, rpar, dx, dy = P.separations(coords, metric, P1, P2, period)
    unit = 1.
    if coords == 'spherical' or metric == 'Arc':
        conf['sep_units'] = q.choice(['deg', 'arcmin', 'radians'])
        unit = P.ANGLE.get(conf['sep_units'], 1.)
    bt = q.choice(['Log', 'Log', 'Linear', 'TwoD']) if coords == 'flat' and metric == 'Euclidean' \
        else q.choice(['Log', 'Linear'])
    if metric == 'Periodic':
        bt = q.choice(['Log', 'Linear'])
    pos = d[d > 0]
    if len(pos) == 0:
        return
    lo, hi = sorted(q.choice(list(np.sort(pos.ravel()))) * q.choice([0.9, 1.001]) for _ in range(2))
    if bt == 'Linear' and q.random() < 0.2 and not auto and np.all(d > 0):
        lo = 0.
    if hi <= lo * 1.0001 or hi <= 1e-8 * ext or (lo > 0 and lo < 1e-7 * ext):
        hi = np.max(pos) * 1.01
        lo = hi * q.choice([0.01, 0.3])
    if metric in ('Rperp', 'OldRperp', 'Rlens', 'Arc') and lo < 1e-4 * hi:
        lo = 1e-4 * hi
    if metric in ('Periodic',) and hi >= period[0] / 2:
        hi = period[0] / 2 * 0.999
        if lo >= hi:
            lo = 0.2 * hi
    if metric == 'Arc' and hi > np.pi:
        hi = np.pi
    # The correlation's own range has nothing to do with the range sampled.
    own = q.random()
    if own < 0.5:
        c0, c1 = (lo if lo > 0 else 0.01 * hi), hi
    else:
        c0, c1 = (lo if lo > 0 else hi / 100.) * q.choice([0.5, 1., 2.]), hi * q.choice([0.3, 1., 3.])
        if c1 <= c0 * 1.01:
            c1 = c0 * 2
    if metric == 'Periodic':
        c1 = min(c1, period[0] * 0.499)
        c0 = min(c0, c1 / 2)
    if metric == 'Arc':
        c1 = min(c1, np.pi)
        c0 = min(c0, c1 / 2)
    mode = q.choice(['exact', 'exact', 'angle', 'brute', 'slop'])
    conf.update(min_sep=c0 / unit, max_sep=c1 / unit, nbins=q.choice([1, 3, 10, 40]), bin_type=bt)
    if bt == 'TwoD':
        conf.pop('min_sep')
    slop = 0.
    if mode == 'exact':
        conf['bin_slop'] = 0
    elif mode == 'angle':
        conf.update(bin_slop=0, angle_slop=0)
    elif mode == 'brute':
        conf['brute'] = True
    else:
        conf['bin_slop'] = q.choice([0.3, 1., 2.])
    if q.random() < 0.2 and coords == '3d' and metric in ('Rperp', 'Rlens', 'Euclidean') \
            and mode != 'slop':
        m = np.median(np.abs(rpar))
        conf.update(max_rpar=m)
    letters = q.choice(['NN', 'NN', 'KK', 'NG', 'GG'])
    for kw, n, l in ((kw1, n1, letters[0]), (kw2, n2, letters[1])):
        for col in gen.COLS[l]:
            if col not in kw:
                kw[col] = r.normal(0, 1, n)
    cls = getattr(treecorr, letters + 'Correlation')
    cat1 = treecorr.Catalog(**kw1)
    cat2 = cat1 if auto and q.random() < 0.7 else treecorr.Catalog(**kw2)
    if q.random() < 0.4:
        # A field of some other size may be around.
        h = q.choice(['corr', 'field', 'sph'])
        mon.cover('cached', h)
        if h == 'field':
            cat1.getNField(min_size=0.3 * ext)
            cat2.getNField(min_size=q.choice([0, 0.3]) * ext)
        elif h == 'sph' and coords == '3d' and metric != 'Periodic' and \
                np.min(np.sum(P1 * P1, axis=1)) > 0:
            cat1.getNField(coords='spherical')
        else:
            k2 = dict(conf)
            for z in ('brute', 'angle_slop', 'max_rpar'):
                k2.pop(z, None)
            k2['bin_slop'] = 4.
            k2['nbins'] = 1
            nn = treecorr.NNCorrelation(**k2)
            f1, f2 = cat1, cat2
            fs = (nn._get_minmax_size())
            cat1.getNField(min_size=fs[0], max_size=fs[1])
            if cat2 is not cat1:
                cat2.getNField(min_size=fs[0], max_size=fs[1])
    conf['metric'] = metric
    T_sure, T_may = in_range(d, err, dx, dy, rpar, bt, lo, hi, conf)
    nT = int(T_sure.sum())
    n = q.choice([1, 2, max(1, nT // 2), max(1, nT - 1), nT, nT + 3, max(1, nT // 5), 5])
    seed = q.randrange(2 ** 31)

    def go(n):
        rng = np.random.RandomState(seed) if seed % 2 else np.random.default_rng(seed)
        corr = cls(rng=rng, **conf)
        return corr, corr.sample_pairs(n, cat1, cat2, min_sep=lo / unit, max_sep=hi / unit)
    corr, (i1, i2, sep) = go(n)
    mon.count('sample_calls')
    what = '%s %s %s %s: ' % (bt, metric, coords, mode)
    if not (len(i1) == len(i2) == len(sep) <= n):
        mon.fail(what + 'lengths %d %d %d for n=%d' % (len(i1), len(i2), len(sep), n))
        return
    i1, i2, sep = np.asarray(i1), np.asarray(i2), np.asarray(sep)
    if np.any(i1 < 0) or np.any(i1 >= n1) or np.any(i2 < 0) or np.any(i2 >= n2):
        mon.fail(what + 'indices out of range')
        return
    if len(set(zip(i1.tolist(), i2.tolist()))) != len(i1):
        mon.fail(what + 'repeated pairs: %d of %d are distinct (of %d in range)'
                 % (len(set(zip(i1.tolist(), i2.tolist()))), len(i1), nT))
    mon.count('pairs_checked', len(i1))
    td = d[i1, i2]
    te = err[i1, i2]
    if mode == 'slop':
        b = corr.b if bt == 'Log' else None
        if bt == 'Log':
            # r_cell in [lo, hi) and |r - r_cell| <= b r_cell, or contained in the range.
            # (The extent of leaves smaller than min_size is ignored, so up to 1.5 b.)
            wide = 1.6
            bad = (td < lo * (1 - wide * b) - te) | (td > hi * (1 + wide * b) + te)
        else:
            b = corr.b * 1.6
            f = np.sqrt(2) if bt == 'TwoD' else 1.
            bad = (td < lo - b - te) | (td > f * (hi + b) + te)
        if metric not in ('OldRperp',) and np.any(bad) and b < 0.6 * (1 if bt == 'Log' else hi):
            mon.fail(what + 'pairs beyond the slop: %r for %r..%r, b=%r'
                     % (td[bad][:4], lo, hi, b))
    else:
        ok = T_may[i1, i2]
        if not np.all(ok):
            mon.fail(what + '%d of %d pairs are not in the range' % ((~ok).sum(), len(ok)),
                     d=[float(v) for v in td[~ok][:4]], lo=lo, hi=hi)
        if len(i1) < min(n, nT) or len(i1) > min(n, int(T_may.sum())):
            mon.fail(what + '%d pairs returned, asked %d of %d' % (len(i1), n, nT))
        if n >= int(T_may.sum()):
            mon.count('full_samples')
            lost = set(zip(*np.where(T_sure))) - set(zip(i1.tolist(), i2.tolist()))
            if lost:
                mon.fail(what + '%d of %d pairs in range are missing though n=%d'
                         % (len(lost), nT, n))
        else:
            mon.count('partial_samples')
        if mode in ('angle', 'brute'):
            tol = te + 1e-9 * hi
            if coords == 'spherical' and metric == 'Euclidean':
                ang = 2 * np.arcsin(np.minimum(td / 2, 1))
                good = (np.abs(sep * unit - td) <= tol) | (np.abs(sep * unit - ang) <= tol)
            else:
                good = np.abs(sep * unit - td) <= tol
            if not np.all(good | (te > 1e-3 * td)):
                mon.fail(what + 'reported separations differ from the true ones: %r, not %r'
                         % ((sep * unit)[~good][:4], td[~good][:4]))
    _, again = go(n)
    same = all(np.array_equal(a, b) for a, b in zip((i1, i2, sep), again))
    mon.check(same, what + 'not reproducible with the same rng')
    mon.nontrivial('sample-%s-%s-%s-%s-%s-%s' % (bt, metric, coords, mode, g, auto))


def in_range(d, err, dx, dy, rpar, bt, lo, hi, conf):
    if bt == 'TwoD':
        m = np.maximum(np.abs(dx), np.abs(dy))
        sure = (d > 0) & (d >= lo + err) & (m < hi - err)
        may = (d >= lo - err) & (m <= hi + err) & (d > 0)
    else:
        sure = (d >= lo + err) & (d < hi - err)
        may = (d >= lo - err) & (d <= hi + err)
        if lo == 0:
            sure |= (d < hi - err)
    if 'max_rpar' in conf:
        e = 1e-12 * (1 + np.max(np.abs(rpar)))
        sure &= rpar <= conf['max_rpar'] - e
        may &= rpar <= conf['max_rpar'] + e
    return sure, may


def run_uniform(c, mon, q, r, treecorr):
    """Clusters with separations well inside or outside of the range, so that the pairs in range are
    the same for every slop; counts how often each is drawn."""
    nc = q.choice([2, 3, 4])
    sizes = [q.choice([1, 2, 3, 5]) for _ in range(nc)]
    cen = np.stack([np.cumsum([0] + [q.choice([3., 4., 30.]) for _ in range(nc - 1)]),
                    np.zeros(nc)], axis=1)
    lab = np.repeat(np.arange(nc), sizes)
    p1 = cen[lab] + r.normal(0, 0.003, (len(lab), 2)) * q.choice([0, 1, 1])
    m = q.choice([2, 4, 6])
    p2 = np.array([0.3, 1.]) + r.normal(0, 0.003, (m, 2))
    if q.random() < 0.5:
        p2[m // 2:] += np.array([2., 3.])
    d = np.sqrt(np.sum((p1[:, None] - p2[None]) ** 2, axis=-1))
    lo, hi = 0.2, 14.
    sel = (d > lo) & (d < hi)
    T = int(sel.sum())
    if T < 4:
        return
    n = max(1, min(T - 1, int(T * q.choice([0.15, 0.3, 0.5, 0.8]))))
    conf = dict(min_sep=lo, max_sep=hi, nbins=q.choice([1, 2, 8]),
                bin_type=q.choice(['Log', 'Linear']))
    mode = q.choice(['slop', 'slop', 'brute', 'exact'])
    conf.update(dict(slop=dict(bin_slop=1), brute=dict(brute=True), exact=dict(bin_slop=0))[mode])
    if mode == 'slop':
        conf['min_top'] = 0
    cat1 = treecorr.Catalog(x=p1[:, 0], y=p1[:, 1])
    cat2 = treecorr.Catalog(x=p2[:, 0], y=p2[:, 1])
    rng = np.random.RandomState(q.randrange(2 ** 31))
    nn = treecorr.NNCorrelation(rng=rng, **conf)
    R = 400
    cnt = np.zeros(d.shape)
    pair = np.zeros(d.shape + d.shape) if d.size <= 60 else None
    for k in range(R):
        i1, i2, sep = nn.sample_pairs(n, cat1, cat2, min_sep=lo, max_sep=hi)
        if len(i1) != n or len(set(zip(i1.tolist(), i2.tolist()))) != n:
            mon.fail('%s: %d distinct of %d pairs for n=%d of %d'
                     % (mode, len(set(zip(i1.tolist(), i2.tolist()))), len(i1), n, T))
            return
        if not np.all(sel[i1, i2]):
            mon.fail('%s: pairs outside of the range' % mode)
            return
        cnt[i1, i2] += 1
    mon.count('uniform_runs')
    pr = n / float(T)
    z = (cnt[sel] - R * pr) / np.sqrt(R * pr * (1 - pr))
    mon.cover('max|z|', '%d' % int(np.max(np.abs(z))))
    if np.max(np.abs(z)) > 6:
        mon.fail('%s %s: sampling is not uniform: %d of %d pairs drawn %s times of %d, expected %.1f'
                 % (conf['bin_type'], mode, n, T, cnt[sel].astype(int).tolist(), R, R * pr))
    chi = np.sum(z ** 2) * (T - 1.) / T
    dof = T - 1.
    if chi > dof + 8 * np.sqrt(2 * dof) + 20:
        mon.fail('%s %s: sampling is not uniform: chi2 %.1f for %d' % (conf['bin_type'], mode, chi, dof))
    mon.nontrivial('uniform-%s-%s-%d-%d' % (conf['bin_type'], mode, T, n))
