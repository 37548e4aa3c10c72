"""C14: patches partition the catalog according to their centers; kmeans; patch files."""
import copy
import os
import numpy as np
from vlib import gen
from oracle import catref, pairs as P

RULE = ('Random positions and centers are given to the real code; every way of getting patches '
        '(constructor with an array or file of centers, one patch at a time, field methods of '
        'every field type, kmeans, patch files, low_mem loading) is compared with brute-force '
        'nearest centers, and the patches of a catalog with its rows.  Each kmeans iteration is '
        'checked against Lloyd steps.  Non-trivial: distinct by coordinates, geometry and route.')
ASSUMPTIONS = ['kmeans centers with wpos different from w are not pinned (cells mix both weights)',
               'labels of points equidistant from two centers to rounding may be either']
MIN_EVENTS = dict(assign=60, kmeans=100, split=100, centers=60, labels_checked=20000,
                  lloyd_steps=80, patches_checked=500)

EPS = 1e-11


def cases(tier, seed):
    q = gen.prng('C14', seed)
    out = []
    n = 1800 if tier == 'quick' else 12000
    kinds = ['assign', 'kmeans', 'split', 'centers', 'kmeans', 'split', 'assign']
    for i in range(n):
        out.append(dict(kind=kinds[i % len(kinds)], seed=q.randrange(2 ** 31),
                        coords=q.choice(['flat', 'flat', '3d', 'spherical', '3dra'])))
    return out


def positions(q, r, coords, n, geom=None):
    """Constructor keywords and the internal positions (n,2 or 3)."""
    if coords == 'flat':
        geom = geom or q.choice(gen.FLAT)
        p = gen.flat_points(r, n, geom)
        kw = dict(x=p[:, 0].copy(), y=p[:, 1].copy())
    elif coords == '3d':
        geom = geom or q.choice(gen.THREED)
        p = gen.threed_points(r, n, geom)
        kw = dict(x=p[:, 0].copy(), y=p[:, 1].copy(), z=p[:, 2].copy())
    else:
        geom = geom or q.choice(gen.SPH)
        ra, dec = gen.sph_points(r, n, geom)
        kw = dict(ra=ra, dec=dec, ra_units='rad', dec_units='rad')
        p = P.sph(ra, dec)
        if coords == '3dra':
            kw['r'] = r.uniform(0.5, 3, n)
            p = p * kw['r'][:, None]
    return kw, p, geom


def weights(q, r, n, kw, neg=False):
    k = q.choice(['none', 'none', 'w', 'zeros', 'wpos'])
    if k == 'w':
        kw['w'] = r.randint(1, 17, n) / 8.
    elif k == 'zeros':
        kw['w'] = r.randint(0, 4, n) / 2.
        kw['w'][0] = 1.
        kw['keep_zero_weight'] = q.random() < 0.7
    elif k == 'wpos':
        kw['w'] = r.randint(1, 17, n) / 8.
        kw['wpos'] = r.randint(1, 17, n) / 8.
    return k


def dist2(p, cen):
    return np.sum((p[:, None, :] - cen[None, :, :]) ** 2, axis=2)


def check_labels(mon, what, p, cen, lab, sure=None):
    """Every label is that of a nearest center.  Returns where the nearest one is unambiguous."""
    lab = np.asarray(lab)
    mon.count('labels_checked', len(lab))
    if len(lab) != len(p):
        mon.fail('%s: %d labels for %d objects' % (what, len(lab), len(p)))
        return
    if len(lab) and (lab.min() < 0 or lab.max() >= len(cen)):
        mon.fail('%s: labels outside 0..npatch-1: %d, %d' % (what, lab.min(), lab.max()))
        return
    d = dist2(p, cen)
    best = np.min(d, axis=1)
    scale = np.max(np.abs(p), axis=1) ** 2 + np.max(np.abs(cen)) ** 2
    mine = d[np.arange(len(p)), lab]
    bad = mine > best + EPS * scale
    if np.any(bad):
        i = int(np.where(bad)[0][0])
        mon.fail('%s: object %d (of %d bad ones) is in patch %d at distance %.9g, but patch %d is '
                 'at %.9g' % (what, i, int(bad.sum()), lab[i], mine[i] ** 0.5,
                              int(np.argmin(d[i])), best[i] ** 0.5))


def rand_centers(q, r, p, m):
    how = q.choice(['points', 'near', 'box', 'far', 'lattice'])
    n, dim = p.shape
    if how == 'points':
        c = p[r.permutation(n)[:m]].copy()
    elif how == 'near':
        c = p[r.randint(0, n, m)] + r.normal(0, 0.1 * (np.ptp(p) + 1e-3), (m, dim))
    elif how == 'lattice':
        lo, hi = np.floor(p.min(axis=0)), np.ceil(p.max(axis=0))
        c = lo + (hi - lo) * r.randint(0, 5, (m, dim)) / 4.
    else:
        lo, hi = p.min(axis=0), p.max(axis=0)
        s = 0.1 if how == 'box' else 3.
        c = r.uniform(lo - s * (hi - lo) - 1e-3, hi + s * (hi - lo) + 1e-3, (m, dim))
    c = np.unique(c, axis=0)
    return c[r.permutation(len(c))], how


def write_columns(path, cols):
    """A catalog file written without treecorr."""
    if path.endswith('fits'):
        import fitsio
        n = len(next(iter(cols.values())))
        a = np.zeros(n, dtype=[(k, 'i8' if k == 'patch' else 'f8') for k in cols])
        for k in cols:
            a[k] = cols[k]
        fitsio.write(path, a, clobber=True)
    elif path.endswith('hdf5'):
        import h5py
        with h5py.File(path, 'w') as f:
            for k in cols:
                f.create_dataset(k, data=cols[k])
    else:
        with open(path, 'w') as f:
            f.write('# ' + ' '.join(cols) + '\n')
            for row in zip(*cols.values()):
                f.write(' '.join('%.17e' % x for x in row) + '\n')


def scratch(name):
    return os.path.join(os.environ['VERIF_SCRATCH'], 'c14_%d_%s' % (os.getpid(), name))


def run(c, mon):
    import treecorr
    q = gen.prng('C14case', c['seed'])
    r = gen.rstate('C14', c['seed'])
    mon.count(c['kind'])
    mon.cover('coords', c['coords'])
    files = []
    try:
        globals()['run_' + c['kind']](c, mon, q, r, treecorr, files)
    finally:
        import shutil
        for f in files:
            if os.path.isdir(f):
                shutil.rmtree(f)
            elif os.path.isfile(f):
                os.remove(f)


FIELD = ['N', 'K', 'Z', 'V', 'G', 'T', 'Q']


def run_assign(c, mon, q, r, treecorr, files):
    n = q.choice([1, 2, 10, 60, 300, 1500])
    kw, p, geom = positions(q, r, c['coords'], n)
    wk = weights(q, r, n, kw)
    m = q.choice([1, 2, 3, 8, 25])
    cen, how = rand_centers(q, r, p, m)
    m = len(cen)
    if c['coords'] == 'spherical':
        cen = cen[np.sum(cen ** 2, axis=1) > 1e-12]
        if len(cen) == 0:
            return
        m = len(cen)
        cen = cen / np.sqrt(np.sum(cen ** 2, axis=1))[:, None]
    for k in ['k', 'z1', 'z2', 'v1', 'v2', 'g1', 'g2', 't1', 't2', 'q1', 'q2']:
        kw[k] = r.uniform(-1, 1, n)
    given = cen
    if q.random() < 0.3:
        given = np.asfortranarray(cen)
    if q.random() < 0.2 and m > 1:
        given = np.repeat(cen, 2, axis=0)[::2]
    if q.random() < 0.3:
        kw['num_threads'] = q.choice([1, 2, 5])
    keep = np.ones(n, dtype=bool)
    if 'w' in kw and not kw.get('keep_zero_weight', False):
        keep = (kw.get('wpos', kw['w']) != 0)
    p = p[keep]
    before = given.copy()
    cat = treecorr.Catalog(patch_centers=given, **kw)
    lab = np.array(cat.patch)
    check_labels(mon, 'Catalog(patch_centers=array)', p, cen, lab)
    mon.equal('npatch', int(cat.npatch), m)
    mon.check(np.array_equal(cat.patch_centers, cen), 'patch_centers differ from those given')
    mon.check(np.array_equal(given, before), 'the centers given were modified')
    # the same through files of centers
    if np.abs(cen).max() < 1e10:
        ext = q.choice(['dat', 'fits', 'hdf5', 'txt'])
        cf = scratch('cen.' + ext)
        files.append(cf)
        cat.write_patch_centers(cf)
        got = cat.read_patch_centers(cf)
        mon.check(got.shape == cen.shape and np.all(np.abs(got - cen) <= 2e-16 * np.abs(cen)),
                  'centers read from a %s file differ by %r' % (ext, np.max(np.abs(got - cen))))
        cat2 = treecorr.Catalog(patch_centers=cf, **kw)
        check_labels(mon, 'Catalog(patch_centers=file)', p, cen, cat2.patch)
        if ext in ('fits', 'hdf5'):
            mon.check(np.array_equal(cat2.patch, lab), 'different labels from a file of centers')
        cfg = dict(patch_centers=cf)
        cat3 = treecorr.Catalog(config=cfg, **kw)
        mon.check(np.array_equal(cat2.patch, cat3.patch), 'patch_centers in config: other labels')
    # one patch at a time: exactly a partition
    rows = np.arange(n)[keep]
    seen = np.zeros(n, dtype=int)
    kw1 = dict(kw)
    kw1['k'] = np.arange(n).astype(float)
    for i in range(m):
        try:
            one = treecorr.Catalog(patch_centers=given, patch=i, **kw1)
        except ValueError as e:
            if 'sumw == 0' not in str(e) and 'zero length' not in str(e):
                raise
            mon.check(np.sum(np.asarray(kw.get('w', np.ones(n)))[rows[lab == i]]) == 0,
                      'patch %d with objects rejected: %s' % (i, e))
            seen[rows[lab == i]] += 1
            continue
        got = np.asarray(one.k).astype(int)
        seen[got] += 1
        mon.count('patches_checked')
        mon.check(np.array_equal(np.sort(got), rows[lab == i]),
                  'Catalog(patch=%d, patch_centers=) has other objects than patch %d of the whole: '
                  '%s, not %s' % (i, i, sorted(set(got) ^ set(rows[lab == i]))[:5], ''))
        mon.equal('patch attribute', one.patch, i)
        mon.equal('npatch of a single patch', int(one.npatch), m)
    mon.check(np.all(seen[keep] == 1), 'single patches do not partition the catalog: %d objects '
              'are in %s patches' % (np.sum(seen[keep] != 1), sorted(set(seen[keep]))))
    # field methods
    L = q.choice(FIELD)
    sm = q.choice(['mean', 'median', 'middle', 'random'])
    fkw = dict(split_method=sm)
    if q.random() < 0.3:
        fkw['max_top'] = q.choice([0, 1, 4])
    if q.random() < 0.3:
        fkw['max_size'] = 1.
    if q.random() < 0.2:
        fkw['brute'] = True
    cat4 = treecorr.Catalog(**kw)
    f = getattr(cat4, 'get%sField' % L)(**fkw)
    got = f.kmeans_assign_patches(given)
    # a point in a spherical field is at unit radius
    check_labels(mon, '%sField.kmeans_assign_patches' % L, p, cen, got)
    d = np.sort(dist2(p, cen), axis=1)
    sure = d[:, 1] - d[:, 0] > 1e-9 * (1 + np.max(np.abs(p)) ** 2 + np.max(np.abs(cen)) ** 2) \
        if m > 1 else np.ones(len(p), dtype=bool)
    mon.check(np.array_equal(got[sure], lab[sure]), 'kmeans_assign_patches differs from Catalog '
              'with patch_centers')
    if len(p) >= 1:
        # rejections
        bad = np.hstack([cen, cen[:, :1]]) if cen.shape[1] == 2 else cen[:, :2]
        mon.raises('centers of the wrong shape', ValueError,
                   lambda: treecorr.Catalog(patch_centers=np.ascontiguousarray(bad), **kw))
        mon.raises('npatch different from the centers', ValueError,
                   lambda: treecorr.Catalog(patch_centers=cen, npatch=m + 1, **kw))
        mon.raises('patch array and patch_centers', ValueError,
                   lambda: treecorr.Catalog(patch_centers=cen, patch=np.zeros(n, int), **kw))
    mon.nontrivial('assign-%s-%s-%s-%s-%s-%d' % (c['coords'], geom, how, wk, L, m))


def lloyd(p, w, cen, sphere):
    """One standard k-means step: the weighted means of the points nearest to each center."""
    d = dist2(p, cen)
    lab = np.argmin(d, axis=1)
    s = np.sort(d, axis=1)
    clear = True
    if d.shape[1] > 1:
        clear = bool(np.all(s[:, 1] - s[:, 0] > 1e-10 * (1 + np.max(np.abs(p)) ** 2)))
    new = np.zeros_like(cen)
    tot = np.zeros(len(cen))
    for i in range(len(cen)):
        k = lab == i
        tot[i] = np.sum(w[k])
        if tot[i] > 0:
            new[i] = np.sum(w[k, None] * p[k], axis=0) / tot[i]
            if sphere:
                new[i] /= np.sqrt(np.sum(new[i] ** 2))
    return new, lab, tot, clear


def emptied(p, w, cen, sphere, field=None):
    """Whether the k-means iteration from these centers leaves some center without objects.

    With coincident objects the iteration depends on rounding, so follow the one of the field.
    """
    cen = np.array(cen)
    for it in range(500):
        new, lab, tot, _ = lloyd(p, w, cen, sphere)
        if len(set(lab)) < len(cen):
            return True
        if field is not None:
            new = cen.copy()
            field.kmeans_refine_centers(new, max_iter=1, tol=0)
        elif np.any(tot == 0):
            # the center stays where it is
            new[tot == 0] = cen[tot == 0]
        if np.max(np.abs(new - cen)) < 1e-14 * (1 + np.max(np.abs(p))):
            return False
        cen = new
    return False


def inertia(p, w, cen):
    return np.sum(w * np.min(dist2(p, cen), axis=1))


def run_kmeans(c, mon, q, r, treecorr, files):
    n = q.choice([1, 2, 5, 30, 150, 600, 2000])
    kw, p, geom = positions(q, r, c['coords'], n)
    wk = weights(q, r, n, kw)
    sphere = c['coords'] in ('spherical', '3dra')
    if wk == 'zeros':
        kw['keep_zero_weight'] = False
    keep = np.ones(n, dtype=bool)
    if 'w' in kw:
        keep = (kw.get('wpos', kw['w']) != 0)
    kw['k'] = np.arange(n).astype(float)
    p = p[keep]
    if sphere:
        p = p / np.sqrt(np.sum(p ** 2, axis=1))[:, None]
    w = kw['w'][keep] if 'w' in kw else np.ones(len(p))
    N = len(p)
    distinct = len(np.unique(np.round(p, 12), axis=0))
    m = min(N, q.choice([1, 2, 3, 5, 8, 13, 30, N]))
    if m > 40:
        m = 40
    init = q.choice(['tree', 'random', 'kmeans++'])
    alt = q.random() < 0.25
    if distinct < max(m, 2):
        # labels cannot all be non-trivial; only look for crashes
        mon.count('too_few_distinct')
        cat = treecorr.Catalog(**kw)
        f = cat.getNField(coords='spherical' if sphere else None)
        try:
            lab, cen = f.run_kmeans(m, init=init, alt=alt)
        except RuntimeError as e:
            mon.count('kmeans_refused')
            return
        mon.check(lab.min() >= 0 and lab.max() < m, 'labels out of range')
        return
    how = q.choice(['catalog', 'field', 'field', 'steps', 'steps'])
    if how == 'catalog':
        s = q.randrange(2 ** 31)
        cat = treecorr.Catalog(npatch=m, kmeans_init=init, kmeans_alt=alt,
                               rng=np.random.RandomState(s), **kw)
        if m == 1:
            mon.check(cat.patch is None, 'patch is set for npatch=1')
            return
        lab, cen = np.array(cat.patch), np.array(cat.patch_centers)
        cat2 = treecorr.Catalog(npatch=m, kmeans_init=init, kmeans_alt=alt,
                                rng=np.random.RandomState(s), **kw)
        if not np.array_equal(cat2.patch, lab):
            mon.finding('C14-catalog-rng', 'kmeans patches of Catalog do not use its rng')
        mon.equal('npatch', int(cat.npatch), m)
        if q.random() < 0.4:
            # Catalogs with the same centers get the same patches
            cat3 = treecorr.Catalog(patch_centers=cen, **kw)
            d = np.sort(dist2(p, cen), axis=1)
            sure = d[:, 1] - d[:, 0] > 1e-9
            mon.check(np.array_equal(np.array(cat3.patch)[sure], lab[sure]),
                      'patches from the centers of a kmeans catalog differ from it')
    else:
        cat = treecorr.Catalog(**kw)
        fkw = dict(split_method=q.choice(['mean', 'median', 'middle']))
        if q.random() < 0.5:
            fkw['max_top'] = q.choice([0, 1, 2, 5, 10])
        if sphere:
            fkw['coords'] = 'spherical'
        f = getattr(cat, 'get%sField' % q.choice('NK'))(**fkw)
        s = q.randrange(2 ** 31)
        rng = np.random.RandomState(s)
        c0 = f.kmeans_initialize_centers(m, init, rng=rng)
        c0b = f.kmeans_initialize_centers(m, init, rng=np.random.RandomState(s))
        mon.check(np.array_equal(c0, c0b), 'initial centers are not reproducible from the seed')
        if c0.shape != (m, p.shape[1]):
            mon.fail('initial centers have shape %r' % (c0.shape,))
            return
        repeats = len(np.unique(c0, axis=0)) != m
        if repeats and init == 'tree' and distinct < N:
            mon.finding('C14-kmeans-empty', 'tree initialization with coincident objects repeats '
                        'centers')
        elif repeats:
            mon.fail('initial centers (%s) repeat: %d of %d are distinct'
                     % (init, len(np.unique(c0, axis=0)), m))
        if init != 'tree':
            d = np.sqrt(np.min(dist2(c0, p), axis=1))
            mon.check(np.all(d <= 2e-8 * (np.max(np.abs(p)) + 1e-30)),
                      'initial centers (%s) are not at the positions of objects' % init)
        else:
            lo, hi = p.min(axis=0), p.max(axis=0)
            t = 1e-7 * (np.max(np.abs(p)) + 1)
            mon.check(sphere or np.all((c0 >= lo - t) & (c0 <= hi + t)),
                      'initial centers are outside the field')
        if how == 'steps' and wk != 'wpos':
            cen = c0.copy()
            ok = True
            for it in range(q.choice([1, 2, 4])):
                want, lab, tot, clear = lloyd(p, w, cen, sphere)
                got = cen.copy()
                f.kmeans_refine_centers(got, max_iter=1, tol=0, alt=False)
                if np.all(tot > 0) and clear:
                    mon.count('lloyd_steps')
                    # (Cells on the sphere have their mean positions normalized.)
                    R2 = np.max(np.min(dist2(p, cen), axis=1)) if sphere else 0.
                    mon.close('centers after one step', got, want,
                              1e-11 * (np.max(np.abs(p)) + 1e-30) + 2 * R2 ** 1.5, 0)
                    I0, I1 = inertia(p, w, cen), inertia(p, w, got)
                    mon.check(I1 <= I0 * (1 + 1e-10 + R2) + 1e-12 * np.max(np.abs(p)) ** 2 * np.sum(w),
                              'inertia grew from %r to %r in one step' % (I0, I1))
                cen = got
        lab, cen = f.run_kmeans(m, init=init, alt=alt, rng=np.random.RandomState(s),
                                tol=q.choice([1e-5, 0.]), max_iter=q.choice([200, 200, 1, 5]))
        lab2, cen2 = f.run_kmeans(m, init=init, alt=alt, rng=np.random.RandomState(s), tol=0.,
                                  max_iter=500)
        if not alt and wk != 'wpos':
            # Converged: the centers are the weighted means of their own patches.
            want, _, tot, clear = lloyd(p, w, cen2, sphere)
            if clear and np.all(tot > 0):
                again = cen2.copy()
                f.kmeans_refine_centers(again, max_iter=1, tol=0)
                R2 = np.max(np.min(dist2(p, cen2), axis=1)) if sphere else 0.
                if np.max(np.abs(again - cen2)) < 1e-13 * (1 + np.max(np.abs(p))):
                    mon.count('converged')
                    mon.close('centers are the weighted means of their patches', cen2, want,
                              1e-11 * (np.max(np.abs(p)) + 1e-30) + 2 * R2 ** 1.5, 0)
                I0 = inertia(p, w, c0)
                I1 = inertia(p, w, cen2)
                mon.check(I1 <= I0 * (1 + 1e-9 + R2) + 1e-12 * np.max(np.abs(p)) ** 2 * np.sum(w),
                          'inertia after kmeans %r is larger than that of the initial centers %r'
                          % (I1, I0))
            lab, cen = lab2, cen2
        mon.raises('npatch > ntot', ValueError, lambda: f.run_kmeans(N + 1))
        mon.raises('npatch < 1', ValueError, lambda: f.run_kmeans(0))
        mon.raises('invalid init', ValueError, lambda: f.run_kmeans(m, init='foo'))
    check_labels(mon, 'kmeans (%s, %s)' % (init, alt), p, cen, lab)
    if sphere:
        mon.close('norm of centers', np.sum(np.asarray(cen) ** 2, axis=1), np.ones(m), 1e-12, 0)
    if not alt:
        got = sorted(set(int(x) for x in lab))
        if len(got) == m or how == 'catalog':
            pass
        elif emptied(p, w, c0, sphere) or (distinct < N and emptied(p, w, c0, sphere, f)):
            mon.finding('C14-kmeans-empty', 'the standard algorithm empties a patch')
        else:
            mon.fail('kmeans (%s) of %d objects (%d distinct) left patches empty: %d of %d'
                     % (init, N, distinct, len(got), m))
    mon.nontrivial('kmeans-%s-%s-%s-%s-%s-%s' % (c['coords'], geom, init, alt, wk, how))


def columns(q, r, n):
    out = {}
    for cols in [['k'], ['z1', 'z2'], ['v1', 'v2'], ['g1', 'g2'], ['t1', 't2'], ['q1', 'q2']]:
        if q.random() < 0.35:
            for x in cols:
                out[x] = r.uniform(-1, 1, n)
    return out


def run_split(c, mon, q, r, treecorr, files):
    """The patches of a catalog partition its rows, however they are obtained."""
    n = q.choice([2, 5, 20, 80])
    kw, p, geom = positions(q, r, c['coords'], n)
    wk = weights(q, r, n, kw)
    cols = columns(q, r, n)
    kw.update(cols)
    by = q.choice(['patch', 'patch', 'centers', 'npatch'])
    lab = None
    if by == 'patch':
        m = q.choice([1, 2, 4, 9])
        lab = r.randint(0, m, n)
    elif by == 'centers':
        cen, _ = rand_centers(q, r, p, q.choice([2, 4]))
        m = len(cen)
    else:
        m = q.choice([2, 3])
        if len(np.unique(np.round(p, 9), axis=0)) < 2 * m + 2:
            by, m = 'patch', 3
            lab = r.randint(0, m, n)
    src = q.choice(['array', 'array', 'file', 'file'])
    user = {}
    if q.random() < 0.3:
        user['vark'] = 0.37
        if 'g1' in cols and q.random() < 0.5:
            user['varg'] = 0.11
    opt = {}
    if by == 'centers':
        opt['patch_centers'] = cen
    elif by == 'npatch':
        opt['npatch'] = m
    rs = q.randrange(2 ** 31)

    def rng():
        return np.random.RandomState(rs) if by == 'npatch' else None
    if src == 'array':
        if lab is not None:
            kw['patch'] = lab
        cat = treecorr.Catalog(rng=rng(), **dict(kw, **user, **opt))
    else:
        path = scratch('cat.' + q.choice(['fits', 'hdf5', 'dat']))
        files.append(path)
        data = {k: np.asarray(v) for k, v in kw.items() if np.ndim(v) == 1}
        fkw = {k: v for k, v in kw.items() if np.ndim(v) == 0}
        if lab is not None:
            data['patch'] = lab
        write_columns(path, data)
        for k in data:
            fkw[k + '_col'] = k
        if q.random() < 0.25 and 'k' in data:
            fkw.pop('k_col')
            fkw['k_eval'] = 'k * 2'
            fkw['extra_cols'] = ['k']
            kw['k'] = kw['k'] * 2
        num = q.choice([0, 0, 1])
        if num:
            fkw = {k: ([('deg' if k.endswith('units') else '0'), v] if
                       k.endswith('units') or k.endswith('_col') else v) for k, v in fkw.items()}
        rand = q.random() < 0.2
        cat = treecorr.Catalog(path, num=num, rng=rng(), is_rand=rand, **dict(fkw, **user, **opt))
        if rand:
            cols = {}
            for k in ['k', 'z1', 'z2', 'v1', 'v2', 'g1', 'g2', 't1', 't2', 'q1', 'q2']:
                kw.pop(k, None)
            mon.count('is_rand')
    sd = None
    if q.random() < 0.5:
        sd = scratch('patches')
        files.append(sd)
        os.makedirs(sd, exist_ok=True)
        if q.random() < 0.5:
            cat.config['save_patch_dir'] = cat.save_patch_dir = sd
    # reference rows
    drop = np.zeros(n, dtype=bool)
    if 'w' in kw and not kw.get('keep_zero_weight', False):
        drop = (kw.get('wpos', kw['w']) == 0)
    if by == 'patch':
        L = lab[~drop]
    else:
        L = np.array(treecorr.Catalog(rng=rng(), **dict(kw, **opt)).patch)
        if by == 'centers':
            check_labels(mon, 'labels', p[~drop], cen, L)
    w = kw['w'][~drop] if 'w' in kw else np.ones(n)[~drop]
    if any(np.sum(w[L == i]) == 0 for i in set(L)):
        mon.count('zero_weight_patch')
        return
    names = [k for k in ('x', 'y', 'z', 'ra', 'dec', 'r', 'w', 'wpos') if k in kw] + \
        sorted(cols)
    ref = {k: np.asarray(kw[k])[~drop] for k in names}
    low = q.random() < 0.5
    via = q.choice(['get', 'get', 'get', 'attr', 'rw'] if sd else ['get', 'get', 'attr'])
    if via == 'attr':
        ps = cat.patches
    elif via == 'rw':
        cat.write_patches(sd)
        if q.random() < 0.5:
            cat.unload()
        cat.read_patches(sd)
        ps = cat.get_patches()
    else:
        ps = cat.get_patches(low_mem=low)
    check_patches(mon, '%s/%s/%s%s: ' % (src, by, via, '/low_mem' if low else ''), ps, ref, L, n,
                  user, cat, whole=(lab is None or m == 1))
    # again from the cache, after unloading, and after forgetting them
    for p_ in ps:
        if q.random() < 0.5:
            p_.unload()
    check_patches(mon, 'after unload: ', cat.get_patches(), ref, L, n, user, cat)
    if q.random() < 0.5:
        cat2 = copy.deepcopy(cat)
        cat2._patches = None
        check_patches(mon, 'copy: ', cat2.get_patches(low_mem=q.random() < 0.5), ref, L, n, user,
                      cat2)
    if sd and via == 'rw':
        mon.count('patch_files')
    mon.nontrivial('split-%s-%s-%s-%s-%s-%s-%s' % (c['coords'], by, src, via, low, wk,
                                                   '-'.join(sorted(cols))))


def check_patches(mon, what, ps, ref, L, n, user, cat, whole=False):
    labels = sorted(set(int(i) for i in L))
    byn = {}
    for p in ps:
        i = p.patch
        if i is None and len(ps) == 1:
            i = 0
        elif np.ndim(i) == 1 and len(set(i)) == 1 and len(ps) == 1:
            i = int(i[0])
        if np.ndim(i) != 0:
            mon.fail('%spatch attribute of a patch is %r' % (what, i))
            return
        if int(i) in byn:
            mon.fail('%spatch %d appears twice' % (what, i))
        byn[int(i)] = p
    extra = [i for i in byn if i not in labels and byn[i].ntot != 0]
    missing = [i for i in labels if i not in byn]
    if extra or missing:
        mon.fail('%spatches %r, expected %r' % (what, sorted(byn), labels))
        return
    for i in labels:
        p = byn[i]
        k = L == i
        mon.count('patches_checked')
        if int(p.ntot) != int(k.sum()):
            mon.fail('%spatch %d has %d objects, not %d' % (what, i, p.ntot, k.sum()))
            continue
        for name in ['x', 'y', 'z', 'ra', 'dec', 'r', 'w', 'wpos', 'k', 'z1', 'z2', 'v1', 'v2',
                     'g1', 'g2', 't1', 't2', 'q1', 'q2']:
            got = getattr(p, name)
            if name in ref:
                want = ref[name][k]
                tol = 1e-15 * np.abs(want) + (1e-15 if name in ('ra', 'dec') else 0.)
                if got is None or len(got) != len(want) or np.any(np.abs(got - want) > tol):
                    mon.fail('%scolumn %s of patch %d differs' % (what, name, i))
            elif name in ('x', 'y', 'z') and 'ra' in ref:
                want = getattr(cat, name)[k]
                if np.max(np.abs(got - want)) > 4e-15 * np.max(np.abs(want) + 1):
                    mon.fail('%scolumn %s of patch %d differs' % (what, name, i))
            elif name == 'w':
                mon.check(np.all(got == 1), '%sweights of patch %d are not 1' % (what, i))
            elif got is not None:
                mon.fail('%scolumn %s of patch %d should be None' % (what, name, i))
        mon.equal(what + 'npatch of a patch', int(p.npatch), int(cat.npatch))
        mon.equal(what + 'coords', p.coords, cat.coords)
        for v in user:
            mon.equal(what + v, float(getattr(p, v)), user[v])
    mon.close(what + 'sumw', sum(p.sumw for p in byn.values() if p.ntot), cat.sumw,
              1e-12 * np.sum(np.abs(cat.w)), 0)


def run_centers(c, mon, q, r, treecorr, files):
    """Centers computed from patch numbers, and files of them."""
    n = q.choice([1, 2, 10, 50, 300])
    kw, p, geom = positions(q, r, c['coords'], n)
    wk = weights(q, r, n, kw)
    m = q.choice([0, 1, 2, 5])
    keep = np.ones(n, dtype=bool)
    if 'w' in kw and not kw.get('keep_zero_weight', False):
        keep = (kw.get('wpos', kw['w']) != 0)
    if m:
        m = min(m, n)
        lab = np.concatenate([np.arange(m), r.randint(0, m, n - m)])
        lab = lab[r.permutation(n)]
        kw['patch'] = lab
        big = 0
        if q.random() < 0.25:
            big = m + q.choice([0, 1, 4])
            kw['npatch'] = big
    cat = treecorr.Catalog(**kw)
    w = np.asarray(kw.get('w', np.ones(n)))[keep]
    pp = p[keep]
    lab = kw['patch'][keep] if m else np.zeros(len(pp), dtype=int)
    if m and big:
        # "this sets the total number of patches that are relevant"
        mon.count('npatch_given')
        mon.equal('npatch given along with patch', int(cat.npatch), big)
    M = int(lab.max()) + 1
    if m and int(cat.npatch) > M:
        return
    W = np.array([np.sum(w[lab == i]) for i in range(M)])
    if not m or (len(set(lab)) == M and np.all(W > 0)):
        want = np.array([np.sum(w[lab == i, None] * pp[lab == i], axis=0) / W[i]
                         for i in range(M)])
        if c['coords'] == 'spherical':
            nrm = np.sqrt(np.sum(want ** 2, axis=1))
            if np.any(nrm < 1e-6):
                return
            want /= nrm[:, None]
        mon.close('patch_centers', cat.patch_centers, want, 1e-12 * np.max(np.abs(pp)) + 1e-300, 0)
        ext = q.choice(['dat', 'fits', 'hdf5', 'txt'])
        cf = scratch('centers.' + ext)
        files.append(cf)
        cat.write_patch_centers(cf)
        got = cat.read_patch_centers(cf)
        mon.close('centers from a %s file' % ext, got, cat.patch_centers, 1e-300, 3e-16)
        # The file documents patch, x, y, z
        if ext in ('dat', 'txt'):
            a = np.loadtxt(cf, ndmin=2)
            mon.equal('patch column', list(a[:, 0]), list(range(M)))
            mon.close('file columns', a[:, 1:], want, 1e-12 * np.max(np.abs(pp)) + 1e-300, 0)
        # Other catalogs can use them.
        kw2, p2, _ = positions(q, r, c['coords'], 20)
        other = treecorr.Catalog(patch_centers=cf, **kw2)
        check_labels(mon, 'another catalog', p2, want, other.patch)
        mon.nontrivial('centers-%s-%s-%s-%s-%d' % (c['coords'], geom, wk, ext, M))
    elif m and len(set(lab)) < M:
        mon.raises('center of a patch without objects', RuntimeError, lambda: cat.patch_centers)
