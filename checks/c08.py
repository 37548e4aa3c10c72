"""C08: results do not depend on threads or schedule; parallel code is free of data races."""
import ctypes
import logging
import os
import numpy as np
from vlib import gen
from checks import three, two
from checks.c06 import multipole
from checks.c20 import snap_corr

RULE = ('The extension is linked against an OpenMP runtime of our own, which hands out loop '
        'iterations under seeded policies (first come, random owner, round robin, one thread, '
        'blocks, reversed blocks), delays threads at seeded points and counts what happened.  '
        'Random two- and three-point runs (with and without slop, patched or not), field '
        'building, kmeans, patch assignment and coordinate generation are repeated under several '
        'schedules and thread counts and compared with one thread; the same workloads run under '
        'ThreadSanitizer, which reports unsynchronised accesses; and with the real libgomp.  '
        'Non-trivial: at least two threads did work and the configuration is distinct.')
ASSUMPTIONS = ['pthread mutex, barrier, create and join are the only synchronisation of the shim; '
               'handing out iterations orders nothing',
               'split_method=random is used with bin_slop=0 only: the order in which threads draw '
               'random numbers is free',
               'bins of multipole algorithms without triangles hold rounding noise']
MIN_EVENTS = dict(runs=800, regions=3000, iterations=20000, criticals=10000, delays=2000,
                  tsan_runs=100, tsan_regions=300, libgomp_runs=60)
VARIANTS = ['sched', 'tsan', 'o3']
NPROC = dict(sched=5, tsan=5, o3=3)
CASE_TIMEOUT = 120
WALL_CAP = dict(quick=420, thorough=6000)

MODES = ['first come', 'random', 'round robin', 'one thread', 'blocks', 'reversed blocks']


def cases(tier, seed):
    q = gen.prng('C08', seed)
    out = []
    m = 1 if tier == 'quick' else 12
    for variant, n in (('sched', 320), ('tsan', 170), ('o3', 60)):
        small = variant == 'tsan'
        for i in range(n * m):
            k = i % 10
            if k < 4:
                c = gen.two_point_case(q, '2pt', sizes=(30, 90, 200) if small else (20, 90, 300, 800))
                c['letters'] = q.choice(gen.LETTERS2)
                if c['auto'] and c['letters'][0] != c['letters'][1]:
                    c['letters'] = q.choice(['NN', 'KK', 'ZZ', 'VV', 'GG', 'TT', 'QQ'])
                c['ncat'] = 1 if c['auto'] else 2
            elif k < 8:
                c = three.case(q, '3pt', ['LogRUV', 'LogSAS', 'LogSAS', 'LogMultipole'],
                               (15, 25) if small else (15, 25, 40, 70))
                c['algo'] = q.choice([None, 'triangle', 'multipole'])
                if c['bin_type'] == 'LogRUV':
                    c['algo'] = q.choice([None, 'triangle'])
                if c['bin_type'] == 'LogMultipole':
                    c['algo'] = None
            else:
                c = dict(tag='field' if k == 8 else 'coords', seed=q.randrange(2 ** 31),
                         coords=q.choice(['flat', 'spherical', '3d']),
                         n=q.choice([20, 100, 500] if small else [20, 200, 3000]))
                c['geom'] = q.choice(gen.GEOM[c['coords']])
            c['variant'] = variant
            c['slop'] = q.choice([None, None, 0, 0.5, 2])
            c['patches'] = q.choice([1, 1, 1, 3])
            c['runs'] = []
            for _ in range(1 if small else q.choice([2, 3, 5])):
                mode = q.choice([0, 0, 1, 1, 2, 3, 4, 5])
                c['runs'].append((q.choice([2, 3, 4, 4, 8, 8] if small else [2, 2, 3, 5, 8, 16]), mode,
                                  q.randrange(2 ** 31),
                                  q.choice([0, 0, 20, 60] if small else [0, 10, 40, 120])))
            out.append(c)
    return out


_lib = {}


def lib(treecorr):
    f = treecorr._treecorr.__file__
    if f not in _lib:
        L = ctypes.CDLL(f)
        if not hasattr(L, 'verif_omp_config'):
            L = None
        _lib[f] = L
    return _lib[f]


class Schedule(object):
    """Runs the body under the given number of threads and policy."""

    def __init__(self, treecorr, mon, threads, mode=0, seed=0, delay=0, pre=''):
        self.t = treecorr
        self.a = (threads, mode, seed, delay)
        self.mon = mon
        self.pre = pre
        self.parallel = False

    def __enter__(self):
        L = lib(self.t)
        threads, mode, seed, delay = self.a
        if L is not None:
            L.verif_omp_reset()
            L.verif_omp_config(ctypes.c_uint64(seed), ctypes.c_int(mode), ctypes.c_int(delay))
        self.t.set_omp_threads(threads)
        return self

    def __exit__(self, *e):
        L = lib(self.t)
        mon = self.mon
        if L is not None:
            st = (ctypes.c_long * 8)()
            L.verif_omp_stats(st)
            if self.a[0] > 1:
                mon.count(self.pre + 'regions', st[0])
                mon.count(self.pre + 'threads', st[1])
                mon.count(self.pre + 'iterations', st[2])
                mon.count(self.pre + 'criticals', st[3])
                mon.count(self.pre + 'delays', st[4])
                mon.count(self.pre + 'contended', st[6])
                self.parallel = st[1] > st[0]
                self.trace = st[7]
                if st[1] > st[0]:
                    mon.sigs.add('schedule %x' % (st[7] & 0xffffffffffff))
            L.verif_omp_config(ctypes.c_uint64(0), 0, 0)
        else:
            self.parallel = True
        self.t.set_omp_threads(1)


def run(c, mon):
    import treecorr
    logging.disable(logging.CRITICAL)
    pre = 'tsan_' if c['variant'] == 'tsan' else 'libgomp_' if c['variant'] == 'o3' else ''
    if c['variant'] != 'o3' and lib(treecorr) is None:
        mon.fail('the extension is not linked with the schedule runtime')
        return
    body = dict([('2pt', body2), ('3pt', body3), ('field', body_field), ('coords', body_coords)])
    f = body[c['tag']](treecorr, c)
    if f is None:
        return mon.count('skipped')
    make, compare = f
    with Schedule(treecorr, mon, 1):
        ref = make(1)
    multi = False
    for threads, mode, seed, delay in c['runs']:
        if c['variant'] == 'o3':
            mode = delay = 0
        with Schedule(treecorr, mon, threads, mode, seed, delay, pre) as s:
            got = make(threads)
        mon.count(pre + 'runs')
        mon.cover('threads', threads)
        mon.cover('policy', MODES[mode])
        multi |= s.parallel
        n0 = len(mon.fails)
        compare(mon, ref, got)
        if len(mon.fails) > n0:
            mon.fails[n0]['detail']['schedule'] = str((threads, MODES[mode], seed, delay))
            return
    for k in ('coords', 'metric', 'bin_type', 'letters', 'ncat', 'tag', 'slop'):
        mon.cover(k, c.get(k))
    if multi:
        mon.nontrivial((pre, c['tag'], c['coords'], c.get('metric'), c.get('bin_type'),
                        c.get('letters'), c.get('ncat'), c.get('algo'), c['slop'], c['patches']))


def same(mon, c, a, b, noise=None):
    """Two snapshots of correlation objects."""
    mon.count('states_compared')
    big = {}
    for k, x in a.items():
        if isinstance(x, np.ndarray) and x.dtype.kind in 'fc' and x.size:
            g = k[:3] if k.startswith('_') else k
            v = np.where(noise, 0, x) if noise is not None and noise.shape == x.shape else x
            v = v[np.isfinite(v)] if v.size else v
            if not v.size:
                continue
            big[g] = max(big.get(g, 0), np.max(np.abs(v)))
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            if noise is not None and noise.shape == x.shape:
                x, y = np.where(noise, 0, x), np.where(noise, 0, y)
            if k in ('npairs', 'ntri') and np.all(a[k] == np.rint(a[k])) and noise is None:
                mon.equal('%s depends on the schedule' % k, y, x)
            elif k == 'weight' and c['weights'] != 'real' and noise is None:
                mon.equal('%s depends on the schedule' % k, y, x)
            elif x.dtype.kind in 'fc':
                g = k[:3] if k.startswith('_') else k
                mon.close('%s depends on the schedule' % k, y, x, 1e-9 * max(big.get(g, 0), 1e-300), 1e-9)
            else:
                mon.equal('%s depends on the schedule' % k, y, x)
        elif k not in ('cfg',):
            mon.check(x is y or bool(np.all(x == y)), '%s depends on the schedule' % k, got=y, want=x)


def snap(corr):
    s = snap_corr(corr)
    s['weight'] = np.array(corr.weight)
    for k in ('varxi', 'varxip', 'varxim', 'vargam0', 'varzeta'):
        try:
            s[k] = np.array(getattr(corr, k))
        except Exception:
            pass
    if hasattr(corr, 'tot'):
        s['tot'] = np.array(corr.tot)
    return s


def patch_kw(c, D, i):
    if c['patches'] == 1:
        return {}
    r = np.random.RandomState(c['seed'] % 1000 + i)
    lab = r.randint(0, c['patches'], D.n)
    ok = np.flatnonzero(D.w != 0)
    if len(ok) < c['patches']:
        return None
    lab[ok[:c['patches']]] = np.arange(c['patches'])
    for k in range(c['patches']):
        if not np.any(D.w[lab == k] != 0):
            return None
    return dict(patch=lab)


def slop(c, kw):
    """Choices that make the result independent of random numbers."""
    if kw.get('split_method') == 'random':
        kw['bin_slop'] = 0
        kw['angle_slop'] = 0
        if c['tag'] == '2pt' or multipole(c):
            kw['split_method'] = 'median'
            kw['bin_slop'] = c['slop']
    else:
        kw['bin_slop'] = c['slop']
    if kw['bin_slop'] is None:
        kw.pop('bin_slop')
    kw.pop('num_threads', None)
    # documented default: max(3, log2(number of threads))
    kw.setdefault('min_top', gen.prng('top', c['seed']).choice([0, 3, 3, 5]))
    if kw['min_top'] > kw.get('max_top', 10):
        kw['min_top'] = kw['max_top']


def body2(treecorr, c):
    D1, D2, bins, kw, period, rp = gen.resolve(c)
    Ds = [D1] if D2 is None else [D1, D2]
    slop(c, kw)
    cls = two.corr_class(treecorr, c['letters'])
    metric = kw.pop('metric')
    pk = [patch_kw(c, D, i) for i, D in enumerate(Ds)]
    if any(p is None for p in pk):
        pk = [{} for D in Ds]

    def make(threads):
        # Building the catalog (coordinates) and the fields is part of it
        cats = [D.catalog(treecorr, num_threads=threads, **p) for D, p in zip(Ds, pk)]
        corr = cls(**kw)
        corr.process(*cats, metric=metric, num_threads=threads)
        return snap(corr)

    def compare(mon, a, b):
        mon.count('pairs_seen', float(np.sum(a['npairs'])))
        same(mon, c, a, b)
    return make, compare


def body3(treecorr, c):
    Ds, bins, kw, period = three.resolve(c)
    slop(c, kw)
    mp = multipole(c)
    cls = getattr(treecorr, c['letters'] + 'Correlation')
    opt = dict(metric=c['metric'], algo=c['algo'])
    if len(Ds) > 1:
        opt['ordered'] = c['ordered']
    if c['bin_type'] == 'LogSAS' and mp:
        opt['max_n'] = c['max_n'] + 1
    pk = [patch_kw(c, D, i) for i, D in enumerate(Ds)]
    if any(p is None for p in pk):
        pk = [{} for D in Ds]

    def make(threads):
        cats = [D.catalog(treecorr, num_threads=threads, **p) for D, p in zip(Ds, pk)]
        corr = cls(**kw)
        corr.process(*cats, num_threads=threads, **opt)
        return snap(corr)

    def compare(mon, a, b):
        mon.count('triangles_seen', float(np.sum(np.abs(a['ntri']))))
        noise = None
        if mp:
            noise = np.abs(a['weight']) < 1e-11 * max(np.max(np.abs(a['weight'])), 1.)
            # sums of many weights cancel in these
        same(mon, c, a, b, noise)
    return make, compare


def body_field(treecorr, c):
    D = gen.Data(c['seed'], c['coords'], c['n'], c['geom'], 'dyadic', pscale=1.)
    q = gen.prng('field', c['seed'])
    L = q.choice('NKZVGTQ')
    ext = np.max(np.ptp(D.p, axis=0)) or 1.
    kw = dict(split_method=q.choice(['mean', 'median', 'middle', 'random']),
              min_top=q.choice([0, 2, 3, 6]), max_top=q.choice([3, 10, 12]),
              min_size=float(ext) * q.choice([0, 0, 0.01, 0.1]), brute=q.choice([False, True]))
    kw['max_top'] = max(kw['max_top'], kw['min_top'])
    npatch = min(q.choice([2, 4, 9, 20]), len(np.unique(D.p, axis=0)))
    init = q.choice(['tree', 'random', 'kmeans++'])
    alt = q.random() < 0.5
    s = q.randrange(2 ** 31)

    def make(threads):
        cat = D.catalog(treecorr, num_threads=threads)
        f = getattr(cat, 'get%sField' % L)(**kw)
        out = dict(ntop=f.nTopLevelNodes)
        if kw['split_method'] == 'random':
            out.pop('ntop')
        r = np.random.RandomState(s)
        pts = D.p[r.randint(0, D.n, 5)]
        near = []
        for p in pts:
            a = dict(x=p[0], y=p[1]) if c['coords'] == 'flat' else dict(x=p[0], y=p[1], z=p[2])
            if c['coords'] == 'spherical':
                a = dict(ra=np.arctan2(p[1], p[0]), dec=np.arcsin(np.clip(p[2], -1, 1)),
                         ra_units='rad', dec_units='rad')
                a['sep_units'] = 'rad'
            sep = float(ext) * 0.2137
            if not (kw['min_size'] > 0 or kw['split_method'] == 'random'):
                near.append(f.count_near(sep=sep, **a))
                near.append(sorted(f.get_near(sep=sep, **a).tolist()))
        out['near'] = near
        if kw['split_method'] != 'random' and kw['min_size'] == 0:
            cen = f.kmeans_initialize_centers(npatch, init=init, rng=np.random.RandomState(s))
            out['init'] = np.array(cen)
            f.kmeans_refine_centers(cen, alt=alt, max_iter=7)
            out['centers'] = np.array(cen)
        else:
            out['centers'] = D.p[:npatch, :2 if c['coords'] == 'flat' else 3] + 0.
        if kw['split_method'] != 'random' or kw['min_size'] == 0:
            out['labels'] = np.array(
                f.kmeans_assign_patches(np.ascontiguousarray(out['centers'])))
        # patches of a catalog made directly from centers
        cat2 = D.catalog(treecorr, patch_centers=np.ascontiguousarray(out['centers']),
                         num_threads=threads)
        out['direct'] = np.array(cat2.patch)
        return out

    def compare(mon, a, b):
        for k in sorted(a):
            if k in ('ntop', 'near'):
                mon.check(a[k] == b[k], 'field: %s depends on the schedule' % k, got=b[k], want=a[k])
            elif k in ('init', 'centers'):
                mon.close('kmeans %s depend on the schedule' % k, b[k], a[k], 1e-7 * ext)
            else:
                bad = np.flatnonzero(a[k] != b[k])
                mon.count('values_compared', len(a[k]))
                if len(bad) and D.n == len(a[k]):
                    # equally near up to rounding
                    cen = a['centers']
                    P = D.p[:, :cen.shape[1]]
                    d1 = np.sqrt(np.sum((P[bad] - cen[a[k][bad]]) ** 2, axis=1))
                    d2 = np.sqrt(np.sum((P[bad] - cen[b[k][bad]]) ** 2, axis=1))
                    bad = bad[np.abs(d1 - d2) > 1e-6 * ext]
                mon.check(len(bad) == 0, 'patch assignment (%s) depends on the schedule' % k,
                          n=len(bad))
        mon.count('fields_compared')
    return make, compare


def body_coords(treecorr, c):
    q = gen.prng('coords', c['seed'])
    n = c['n'] * q.choice([1, 3, 10])
    r = np.random.RandomState(c['seed'] % 2 ** 31)
    ra = r.uniform(-10, 10, n)
    dec = np.arcsin(r.uniform(-1, 1, n))
    rr = r.uniform(0.1, 100, n) if c['coords'] == '3d' else None
    npatch = q.choice([2, 5, 17])
    cen = r.normal(0, 1, (npatch, 3))
    cen /= np.sqrt(np.sum(cen ** 2, axis=1))[:, None]
    one = int(r.randint(0, npatch))
    path = os.path.join(os.environ['VERIF_SCRATCH'], 'c08.fits')

    def make(threads):
        kw = dict(ra=ra, dec=dec, ra_units='rad', dec_units='rad')
        if rr is not None:
            kw['r'] = rr
        cat = treecorr.Catalog(num_threads=threads, **kw)
        out = dict(x=cat.x, y=cat.y, z=cat.z)
        cat = treecorr.Catalog(num_threads=threads, patch_centers=cen, **kw)
        out['patch'] = np.array(cat.patch)
        if c['variant'] != 'tsan':
            treecorr.Catalog(**kw).write(path)
            ck = dict(ra_col='ra', dec_col='dec', ra_units='rad', dec_units='rad')
            if rr is not None:
                ck['r_col'] = 'r'
            p = treecorr.Catalog(path, patch_centers=cen, patch=one, num_threads=threads, **ck)
            out['picked'] = np.array(p.ra)
        return out

    def compare(mon, a, b):
        for k in 'xyz':
            mon.close('coordinates depend on the schedule: %s' % k, b[k], a[k],
                      1e-15 if rr is None else 1e-13, 1e-15)
            want = dict(x=np.cos(dec) * np.cos(ra), y=np.cos(dec) * np.sin(ra), z=np.sin(dec))[k]
            if rr is not None:
                want = want * rr
            mon.close('coordinates: %s' % k, b[k], want, 1e-14 if rr is None else 1e-12)
        mon.equal('patches depend on the schedule', b['patch'], a['patch'])
        if 'picked' in a:
            mon.equal('rows of one patch depend on the schedule', b['picked'], a['picked'])
            mon.check(len(a['picked']) == np.sum(a['patch'] == one), 'rows of one patch',
                      got=len(a['picked']), want=np.sum(a['patch'] == one))
        mon.count('coordinates_compared', n)
    return make, compare
