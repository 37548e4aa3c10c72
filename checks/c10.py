"""C10: memory safety of the native code: the public API is driven with hostile inputs under
AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions; allocations are counted to
find leaks; the stock build runs with different fill patterns of fresh and freed memory."""
import copy
import ctypes
import gc
import importlib
import logging
import os
import pickle
import numpy as np
from vlib import gen
from vlib.mon import Mon
from checks import two

RULE = ('No call sequence (hostile catalogs and binnings, field queries, k-means, sampling, object '
        'lifetimes with collection in any order, invalid arguments, and the workloads of the other '
        'checks) makes AddressSanitizer, UBSan, libstdc++ assertions or the internal assertions '
        'report, crashes or hangs; repeated calls do not grow the heap; results do not depend on '
        'what fresh or freed memory holds; listed invalid arguments raise.')
ASSUMPTIONS = ['a leak shows as heap growth in each of the repetitions after the first',
               'uninitialised values show as results that depend on the fill pattern of malloc '
               '(small numpy buffers and Python objects come from caches that are not filled)',
               'finite positions of magnitude 1e-100..1e8, none at the observer: other coordinates '
               'are outside the domain']
VARIANTS = ['asan', 'o3']
NPROC = dict(asan=6, o3=2)
MIN_EVENTS = dict(asan_calls=4000, leak_repetitions=400, borrowed=150, must_raise=300, lifetimes=60,
                  patterns=300, field_calls=500)
CASE_TIMEOUT = 60
WALL_CAP = dict(quick=500, thorough=9000)
BORROW = ['c01', 'c02', 'c04', 'c05', 'c06', 'c07', 'c13', 'c14', 'c15', 'c16', 'c20', 'c22']


def cases(tier, seed):
    q = gen.prng('C10', seed)
    out = []
    m = 1 if tier == 'quick' else 15
    for i in range(520 * m):
        c = dict(seed=q.randrange(2 ** 31), variant='asan',
                 tag=['two', 'three', 'field', 'life', 'bad', 'two', 'sample', 'three'][i % 8],
                 coords=q.choice(['flat', 'spherical', '3d']), leak=q.random() < 0.4)
        out.append(c)
    for i in range(240 * m):
        out.append(dict(seed=q.randrange(2 ** 31), variant='asan', tag='borrow',
                        module=BORROW[i % len(BORROW)], case=q.random()))
    for i in range(260 * m):
        out.append(dict(seed=q.randrange(2 ** 31), variant='o3', leak=False,
                        tag=['two', 'three', 'field', 'sample'][i % 4],
                        coords=q.choice(['flat', 'spherical', '3d'])))
    return out


# --------------------------------------------------------------------------- monitors

class Calls(object):
    """Makes calls, counts them and the exceptions, keeps what they return."""

    def __init__(self, mon, record=False):
        self.mon, self.out = mon, []
        self.quiet = False

    def __call__(self, what, f, *a, **kw):
        if not self.quiet:
            self.mon.count('calls')
        try:
            r = f(*a, **kw)
        except (SystemExit, KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            if not self.quiet:
                self.mon.count('exceptions')
                self.mon.cover('exception', '%s %s' % (what, type(e).__name__))
            self.out.append((what, type(e).__name__))
            return None
        if not self.quiet:
            self.mon.cover('call', what)
        return r

    def keep(self, what, *arrays):
        for a in arrays:
            if a is not None:
                self.out.append((what, np.array(a)))


_heap = []


def heap():
    """Bytes allocated now, as AddressSanitizer counts them."""
    if not _heap:
        f = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
        f.restype = ctypes.c_size_t
        _heap.append(f)
    return _heap[0]()


def perturb(byte):
    """Fill fresh memory with ~byte and freed memory with byte."""
    ctypes.CDLL(None).mallopt(ctypes.c_int(-6), ctypes.c_int(byte))


def run(c, mon):
    import treecorr
    logging.disable(logging.CRITICAL)
    np.seterr(all='ignore')
    if c['tag'] == 'borrow':
        return borrow(c, mon)
    work = dict(two=work2, three=work3, field=work_field, sample=work_sample, life=work_life,
                bad=work_bad)[c['tag']]

    def once(quiet):
        calls = Calls(mon)
        calls.quiet = quiet
        work(treecorr, c, calls)
        return calls.out

    UNTIED[0] = c['variant'] == 'o3'
    if c['variant'] == 'o3':
        def runs(byte):
            perturb(byte)
            try:
                return once(bool(mon.counts.get('patterns')))
            finally:
                perturb(0)
                mon.count('patterns')

        def differences(a, b):
            """What differs, with positions that are not tied."""
            same = ([x[1] if isinstance(x[1], str) else x[0] for x in b] ==
                    [x[1] if isinstance(x[1], str) else x[0] for x in a])
            if not same:
                return [('success or failure of calls', [(x[0], x[1], y[0], y[1]) for x, y in zip(a, b)
                                                         if x[0] != y[0] or isinstance(x[1], str)
                                                         or isinstance(y[1], str)][:3], len(a), len(b))]
            bad = []
            for (what, x), (_, y) in zip(a, b):
                if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
                    mon.count('arrays_compared')
                    if x.shape != y.shape or x.dtype != y.dtype:
                        bad.append((what, x.shape, y.shape))
                    elif x.dtype.kind not in 'fc':
                        if not np.array_equal(x, y):
                            bad.append((what, x.ravel()[:5], y.ravel()[:5]))
                    elif x.size:
                        # Alignment changes the order of vectorised sums.
                        fin = np.abs(x[np.isfinite(x)])
                        tol = 1e-6 * np.where(np.isfinite(x), np.abs(x), 0) + \
                            1e-6 * (fin.max() if fin.size else 1) + 1e-9
                        ok = (x == y) | (np.abs(x - y) <= tol) | (np.isnan(x) & np.isnan(y))
                        if not np.all(ok):
                            bad.append((what, x[~ok][:3], y[~ok][:3]))
            return bad

        a = runs(0)
        for byte in (0x55, 0xbf, 0x80):
            bad = differences(a, runs(byte))
            if bad:
                # Is it the contents of the memory, or just its alignment?
                junk = []
                stable = True
                for k in range(6):
                    junk.append([bytearray(n) for n in range(8 + k, 3000, 40 + 3 * k)])
                    stable = stable and not differences(a, runs(0))
                if stable:
                    mon.fail('results depend on the contents of fresh memory: %s' % bad[0][0],
                             byte=hex(byte), all=str(bad)[:800])
                else:
                    mon.count('unstable_cases')
            mon.check(True, 'independent of memory')
        mon.nontrivial((c['tag'], c['coords'], len(a), c['seed'] % 50))
        return
    n0 = mon.counts.get('calls', 0)
    out = once(False)
    mon.count('asan_calls', mon.counts.get('calls', 0) - n0)
    n = len(out)
    out = None
    if c.get('leak'):
        once(True)
        sizes = np.zeros(25, int)
        for k in range(25):
            gc.collect()
            sizes[k] = heap()
            # Caches of the interpreter may still grow for a while.
            if k >= 4 and min(sizes[i + 1] - sizes[i] for i in range(k)) <= 0:
                break
            if k < 24:
                once(True)
                mon.count('leak_repetitions')
        grow = np.diff(sizes[:k + 1])
        mon.check(np.min(grow) <= 0, 'heap grows with every repetition', bytes=grow.tolist())
    mon.nontrivial((c['tag'], c['coords'], n, c['seed'] % 100))


def borrow(c, mon):
    """A case of another check, for the sanitizers only."""
    mod = importlib.import_module('checks.' + c['module'])
    cs = _cache.get((c['module']))
    if cs is None:
        cs = _cache[c['module']] = [x for x in mod.cases('quick', 977)
                                    if x.get('variant', 'o3') == 'o3']
    m = Mon()
    try:
        mod.run(cs[int(c['case'] * len(cs))], m)
    except Exception as e:
        mon.cover('borrow_exception', type(e).__name__)
    mon.count('borrowed')
    mon.count('borrowed_assertions', m.counts.get('assertions', 0))
    mon.cover('module', c['module'])
    mon.nontrivial(('borrow', c['module'], int(c['case'] * len(cs))))


_cache = {}


# --------------------------------------------------------------------------- inputs

UNTIED = [False]


def positions(q, r, coords, n):
    """Hostile but finite."""
    d = 2 if coords == 'flat' else 3
    kind = q.choice(['same', 'pairs', 'uniform', 'huge', 'tiny', 'mixed', 'line', 'lattice',
                     'zero', 'gap', 'denormal'])
    if UNTIED[0]:
        kind = q.choice(['uniform', 'tiny', 'huge', 'mixed', 'denormal'])
    if kind == 'same':
        p = np.tile(r.normal(0, 1, (1, d)), (n, 1))
    elif kind == 'pairs':
        p = np.repeat(r.normal(0, 1, (n // 2 + 1, d)), 2, axis=0)[:n]
    elif kind == 'huge':
        p = r.normal(0, 1, (n, d)) * q.choice([1e3, 1e6, 1e8])
    elif kind == 'tiny':
        p = r.normal(0, 1, (n, d)) * q.choice([1e-10, 1e-30, 1e-60])
    elif kind == 'mixed':
        p = r.normal(0, 1, (n, d)) * 10. ** r.uniform(-20, 8, (n, 1))
    elif kind == 'line':
        p = r.normal(0, 1, (n, 1)) * np.arange(1, d + 1)
    elif kind == 'lattice':
        p = r.randint(-2, 3, (n, d)).astype(float)
    elif kind == 'zero':
        p = np.where(r.rand(n, d) < 0.6, 0., r.normal(0, 1, (n, d))) * np.where(r.rand(n, d) < .5,
                                                                                 -1, 1)
    elif kind == 'gap':
        p = np.where(r.rand(n, 1) < 0.5, 0., 1e6) + r.normal(0, 1e-6, (n, d))
    elif kind == 'denormal':
        p = r.normal(0, 1, (n, d)) * 1e-100
    else:
        p = r.uniform(-1, 1, (n, d))
    if d == 3:
        # There is no line of sight to an object at the position of the observer.
        p[np.all(p == 0, axis=1)] = 1
    return p


def mangle(q, a):
    """The same values in another container."""
    k = q.choice(['plain', 'plain', 'list', 'strided', 'reversed', 'f4', 'big', 'readonly', 'tuple'])
    if k == 'list':
        return a.tolist()
    if k == 'tuple':
        return tuple(a.tolist())
    if k == 'strided':
        b = np.full(3 * len(a) + 1, np.nan)
        b[1::3] = a
        return b[1::3]
    if k == 'reversed':
        return a[::-1].copy()[::-1]
    if k == 'f4':
        return a.astype('f4') if len(a) and np.max(np.abs(a)) < 1e30 else a
    if k == 'big':
        return a.astype('>f8')
    if k == 'readonly':
        a = a.copy()
        a.setflags(write=False)
    return a


def catalog(treecorr, q, r, coords, n, letters, patched=True):
    p = positions(q, r, coords, n)
    kw = {}
    if coords == 'flat':
        kw.update(x=mangle(q, p[:, 0]), y=mangle(q, p[:, 1]))
    elif coords == '3d' and q.random() < 0.6:
        kw.update(x=p[:, 0], y=p[:, 1], z=mangle(q, p[:, 2]))
    else:
        with np.errstate(all='ignore'):
            ra = np.arctan2(p[:, 1], p[:, 0])
            dec = np.arctan2(p[:, 2], np.hypot(p[:, 0], p[:, 1]))
        if q.random() < 0.2:
            dec[:] = q.choice([np.pi / 2, -np.pi / 2])
        kw.update(ra=mangle(q, ra), dec=mangle(q, dec), ra_units='rad', dec_units='rad')
        if coords == '3d':
            kw.update(r=np.sqrt(np.sum(p ** 2, axis=1)))
    w = q.choice(['none', 'none', 'one', 'zeros', 'neg', 'huge', 'tiny', 'int', 'nan'])
    if w != 'none':
        a = r.uniform(0.5, 2, n)
        if w == 'one':
            a = np.zeros(n)
            a[r.randint(0, n)] = 1
        elif w == 'zeros':
            a[r.rand(n) < 0.5] = 0
        elif w == 'neg':
            a *= np.where(r.rand(n) < 0.3, -1, 1)
        elif w == 'huge':
            a *= 1e30
        elif w == 'tiny':
            a *= 1e-30
        elif w == 'int':
            a = r.randint(0, 4, n)
        elif w == 'nan':
            a[r.rand(n) < 0.3] = np.nan
        kw['w'] = a
        if q.random() < 0.2:
            kw['wpos'] = np.abs(r.normal(0, 1, n)) * (r.rand(n) < 0.8)
    scale = q.choice([1, 1, 0, 1e20, 1e-20])
    for L in sorted(set(letters)):
        for col in gen.COLS[L]:
            a = r.normal(0, 1, n) * scale
            if q.random() < 0.1:
                a[r.randint(0, n)] = np.nan
            kw[col] = mangle(q, a)
    if patched and q.random() < 0.25 and n > 1:
        k = q.choice(['patch', 'npatch', 'centers'])
        m = q.choice([1, 2, 3, 5])
        if k == 'patch':
            kw['patch'] = r.randint(0, m, n)
        elif k == 'npatch':
            kw.update(npatch=min(m, n), rng=np.random.RandomState(q.randrange(1000)))
            kw['kmeans_init'] = q.choice(['tree', 'random', 'kmeans++'])
            kw['kmeans_alt'] = q.random() < 0.5
        else:
            cen = r.normal(0, 1, (m, 2 if coords == 'flat' else 3))
            kw['patch_centers'] = cen
    if q.random() < 0.15:
        kw['flag'] = r.randint(0, 3, n)
        kw['ignore_flag'] = 1
    if q.random() < 0.1:
        kw['keep_zero_weight'] = True
    return treecorr.Catalog(**kw)


def seps(q, p=None):
    """Extreme separation ranges."""
    k = q.choice(['wide', 'narrow', 'far', 'tiny', 'normal', 'normal', 'one'])
    if k == 'wide':
        return 10. ** q.uniform(-150, -3), 10. ** q.uniform(3, 140)
    if k == 'narrow':
        a = q.uniform(0.1, 2)
        return a, a * (1 + 10. ** q.uniform(-12, -2))
    if k == 'far':
        return 1e50, 1e51
    if k == 'tiny':
        return 1e-12, 1e-9
    if k == 'one':
        return 1e-3, 1.
    return 0.05, 2.5


def binning2(q, c):
    lo, hi = seps(q)
    bt = q.choice(['Log', 'Log', 'Linear', 'TwoD'] if c['coords'] == 'flat' else ['Log', 'Log', 'Linear'])
    kw = dict(bin_type=bt, max_sep=hi, nbins=q.choice([1, 1, 2, 7, 50, 1500]))
    if bt == 'TwoD':
        kw['nbins'] = q.choice([1, 2, 7, 40])
    elif bt == 'Log':
        kw['min_sep'] = lo
    elif q.random() < 0.6:
        kw['min_sep'] = q.choice([0., lo])
    if q.random() < 0.5:
        kw['bin_slop'] = q.choice([0, 0.3, 1, 10, 1e6])
    if q.random() < 0.3:
        kw['angle_slop'] = q.choice([0, 1e-8, 0.5, 100])
    common(q, kw, c)
    return kw


def common(q, kw, c):
    if q.random() < 0.3:
        kw['brute'] = q.choice([True, 1, 2])
    if q.random() < 0.3:
        kw['min_top'] = q.choice([0, 1, 5, 12])
    if q.random() < 0.3:
        kw['max_top'] = q.choice([0, 1, 3, 14])
    if kw.get('min_top', 0) > kw.get('max_top', 10):
        kw['max_top'] = kw['min_top']
    kw['split_method'] = q.choice(['mean', 'median', 'middle', 'random'])
    kw['num_threads'] = q.choice([1, 1, 1, 2, 3])
    if c['variant'] == 'o3':
        # the same results every time
        kw['num_threads'] = 1
        if kw['split_method'] == 'random':
            kw['split_method'] = 'mean'


def metric_kw(q, coords, kw):
    ok = dict(flat=['Euclidean', 'Periodic'],
              spherical=['Arc', 'Euclidean'],
              )
    ok['3d'] = ['Euclidean', 'Rperp', 'OldRperp', 'Rlens', 'Arc', 'Periodic', 'FisherRperp']
    m = q.choice(ok[coords])
    if m == 'Periodic':
        P = kw['max_sep'] * q.choice([1.1, 2., 7])
        kw['period'] = P
    if m in ('Rperp', 'OldRperp', 'Rlens', 'Euclidean', 'FisherRperp') and coords == '3d' \
            and q.random() < 0.4:
        kw['min_rpar'], kw['max_rpar'] = q.choice([(-1, 1), (0, 1e10), (-1e-10, 1e-10), (3., 4.)])
    return m


SIZES = [1, 1, 2, 3, 4, 7, 20, 60, 200]


# --------------------------------------------------------------------------- workloads

def results(calls, corr, tag):
    names = ['weight', 'npairs', 'ntri', 'meanr', 'meanlogr', 'xi', 'xip', 'xim', 'xi_im', 'zeta',
             'gam0', 'gam3', 'varxi', 'varxip', 'vargam0', 'varzeta', 'meand1', 'meand2',
             'meanlogd3', 'meanu']
    for k in names:
        try:
            a = getattr(corr, k, None)
        except Exception:
            continue
        if isinstance(a, np.ndarray):
            calls.keep(tag + ' ' + k, a)


def work2(treecorr, c, calls):
    q = gen.prng('two', c['seed'])
    r = np.random.RandomState(c['seed'])
    L = q.choice(gen.LETTERS2)
    one = L[0] == L[1] and q.random() < 0.6
    cat1 = calls('Catalog', catalog, treecorr, q, r, c['coords'], q.choice(SIZES), L[0])
    cat2 = None if one else calls('Catalog', catalog, treecorr, q, r, c['coords'],
                                  q.choice(SIZES), L[1])
    kw = binning2(q, c)
    metric = metric_kw(q, c['coords'], kw)
    corr = calls('corr', two.corr_class(treecorr, L), **kw)
    cats = [x for x in (cat1, cat2) if x is not None]
    if corr is None or not cats:
        return
    calls('process ' + L, corr.process, *cats, metric=metric)
    results(calls, corr, L)
    if kw['split_method'] != 'random':
        corr2 = corr.copy()
        calls('iadd', lambda: corr2.__iadd__(corr))
        results(calls, corr2, L + '+')
    if corr.npatch1 > 1:
        calls('cov', corr.estimate_cov, q.choice(['shot', 'jackknife', 'sample', 'bootstrap',
                                                  'marked_bootstrap']))
    if q.random() < 0.3:
        calls('process auto', lambda: corr.process_auto(cats[0], metric=metric))
        calls('process cross', lambda: corr.process_cross(cats[0], cats[-1], metric=metric))
        calls('finalize', lambda: corr.finalize(*[1.] * (2 - L.count('N'))))
        results(calls, corr, L + ' low')
    if L == 'NN':
        calls('xi', lambda: corr.calculateXi(rr=corr))
        if corr.npatch1 <= 1 and q.random() < 0.5:
            P = calls('pairwise', treecorr.estimate_multi_cov, [corr], 'shot')
            calls.keep('cov', P)


def work3(treecorr, c, calls):
    q = gen.prng('three', c['seed'])
    r = np.random.RandomState(c['seed'])
    cls = q.choice(['NNN', 'KKK', 'GGG'])
    lo, hi = seps(q)
    bt = q.choice(['LogRUV', 'LogSAS', 'LogSAS', 'LogMultipole', 'LogMultipole'])
    kw = dict(bin_type=bt, min_sep=lo, max_sep=hi, nbins=q.choice([1, 2, 3, 12]))
    if bt == 'LogRUV':
        kw.update(nubins=q.choice([1, 3, 20]), nvbins=q.choice([1, 2, 15]))
        if q.random() < 0.4:
            kw.update(min_u=q.choice([0, 0.3, 0.999]), max_u=1, min_v=q.choice([0, 0.5]),
                      max_v=q.choice([0.6, 1]))
    elif bt == 'LogSAS':
        kw.update(nphi_bins=q.choice([1, 2, 30]))
        if q.random() < 0.4:
            kw.update(min_phi=q.choice([0, 0.5]), max_phi=q.choice([0.6, np.pi]), phi_units='rad')
    else:
        kw.update(max_n=q.choice([0, 1, 2, 9, 60]))
    if q.random() < 0.5:
        kw['bin_slop'] = q.choice([0, 0.3, 1, 10, 1e4])
    if q.random() < 0.4:
        kw['angle_slop'] = q.choice([0, 1e-8, 0.5, 100])
    common(q, kw, c)
    metric = q.choice(dict(flat=['Euclidean', 'Periodic'], spherical=['Arc', 'Euclidean'])
                      .get(c['coords'], ['Euclidean', 'Arc', 'Periodic']))
    if metric == 'Periodic':
        kw['period'] = hi * q.choice([1.1, 4, 10])
    sizes = [1, 2, 3, 5, 9, 20]
    cats = []
    for k in range(q.choice([1, 1, 2, 3])):
        x = calls('Catalog', catalog, treecorr, q, r, c['coords'], q.choice(sizes), cls[0])
        if x is not None:
            cats.append(x)
    corr = calls('corr3', getattr(treecorr, cls + 'Correlation'), **kw)
    if corr is None or not cats:
        return
    opt = dict(metric=metric)
    if bt != 'LogMultipole' and q.random() < 0.7:
        opt['algo'] = q.choice(['triangle', 'multipole'] if bt == 'LogSAS' else ['triangle'])
    if len(cats) > 1 and q.random() < 0.5:
        opt['ordered'] = q.random() < 0.5
    if bt == 'LogSAS' and opt.get('algo') != 'triangle' and q.random() < 0.5:
        opt['max_n'] = q.choice([0, 1, 5, 40])
    calls('process3 %s %s %d' % (cls, bt, len(cats)), corr.process, *cats, **opt)
    results(calls, corr, cls)
    corr2 = corr.copy()
    calls('iadd', lambda: corr2.__iadd__(corr))
    if bt == 'LogMultipole':
        calls('toSAS', lambda: corr.toSAS(nphi_bins=q.choice([1, 5])))
    if cls == 'NNN':
        calls('zeta', lambda: corr.calculateZeta(rrr=corr2))


def work_field(treecorr, c, calls):
    q = gen.prng('field', c['seed'])
    r = np.random.RandomState(c['seed'])
    L = q.choice('NKZVGTQ')
    cat = calls('Catalog', catalog, treecorr, q, r, c['coords'], q.choice(SIZES), L)
    if cat is None:
        return
    kw = dict(split_method=q.choice(['mean', 'median', 'middle', 'random']),
              min_size=q.choice([0, 0, 1e-3, 1., 1e300]), max_size=q.choice([None, None, 0, 1e-9, 1.]),
              min_top=q.choice([None, 0, 1, 8]), max_top=q.choice([10, 0, 3, 14]),
              brute=q.choice([False, False, True]))
    if (kw['min_top'] or 0) > kw['max_top']:
        kw['max_top'] = kw['min_top']
    f = calls('get field', getattr(cat, 'get%sField' % L), **kw)
    if f is None:
        return
    if q.random() < 0.3:
        f = calls('Field', getattr(treecorr, L + 'Field'), cat, **kw) or f
    calls.mon.count('field_calls')
    n = f.ntot
    for k in range(3):
        cen = positions(q, r, c['coords'], 1)[0]
        if c['coords'] == 'flat':
            a = dict(x=cen[0], y=cen[1])
        elif c['coords'] == '3d':
            a = dict(x=cen[0], y=cen[1], z=cen[2])
        else:
            a = dict(ra=np.arctan2(cen[1], cen[0]), dec=r.uniform(-1.5, 1.5), ra_units='rad',
                     dec_units='rad', sep_units='rad')
        sep = q.choice([0, 1e-300, 1e-3, 0.5, 3, 1e100, 1e300])
        m = calls('count_near', f.count_near, sep=sep, **a)
        ind = calls('get_near', f.get_near, sep=sep, **a)
        calls.mon.count('field_calls', 2)
        if m is not None and ind is not None:
            calls.mon.check(m == len(ind) and (m == 0 or (ind.min() >= 0 and ind.max() < cat.ntot)),
                            'near objects are objects of the catalog', got=len(ind), want=m)
            calls.keep('near', np.sort(ind))
    if c['variant'] == 'o3' and kw['split_method'] == 'random':
        calls.out = [x for x in calls.out if x[0] != 'near']
    m = q.choice([1, 2, 3, 5, n, n + 1, 2 * n + 3, 60])
    init = q.choice(['tree', 'random', 'kmeans++'])
    rng = np.random.RandomState(c['seed'] % 1000)
    cen = calls('kmeans init ' + init, f.kmeans_initialize_centers, m, init=init, rng=rng)
    if cen is None:
        return
    if kw['split_method'] != 'random':
        calls.keep('centers ' + init, cen)
    calls('kmeans refine', f.kmeans_refine_centers, cen, max_iter=q.choice([0, 1, 5]),
          alt=q.random() < 0.5, tol=q.choice([0, 1e-5, 1]))
    pa = calls('kmeans assign', f.kmeans_assign_patches, cen)
    calls.mon.count('field_calls', 3)
    if pa is not None:
        calls.mon.check(len(pa) == cat.ntot, 'one patch per object', got=len(pa), want=cat.ntot)
        calls.mon.check(np.all(pa >= 0) and np.all(pa < m), 'patch numbers are in range')
        if kw['split_method'] != 'random' and not ties(cat):
            calls.keep('patches', pa)
    t = calls('run_kmeans', f.run_kmeans, q.choice([1, 2, min(n, 7)]), init=init,
              rng=np.random.RandomState(3), alt=q.random() < 0.5, max_iter=4)
    if t is not None and kw['split_method'] != 'random' and not ties(cat):
        calls.keep('run_kmeans', t[0], t[1])


def ties(cat):
    """Rounding (thus the alignment of arrays) decides how tied positions are split."""
    scale = max(np.max(np.abs(v)) for v in (cat.x, cat.y, cat.z) if v is not None)
    for v in (cat.x, cat.y, cat.z):
        if v is not None:
            v = np.sort(v)
            if np.any(np.diff(v) <= 1e-10 * scale):
                return True
    return False


def work_sample(treecorr, c, calls):
    q = gen.prng('sample', c['seed'])
    r = np.random.RandomState(c['seed'])
    a = calls('Catalog', catalog, treecorr, q, r, c['coords'], q.choice(SIZES), 'N', False)
    b = calls('Catalog', catalog, treecorr, q, r, c['coords'], q.choice(SIZES), 'N', False)
    if a is None or b is None:
        return
    kw = binning2(q, c)
    kw['split_method'] = 'mean'
    metric = metric_kw(q, c['coords'], kw)
    nn = calls('corr', treecorr.NNCorrelation, rng=np.random.RandomState(1), **kw)
    if nn is None:
        return
    calls('process', nn.process, a, b, metric=metric)
    for k in range(3):
        lo = q.choice([0, 0, 1e-5, nn._min_sep, 0.3])
        hi = q.choice([1e-4, 1, nn._max_sep, 1e10])
        n = q.choice([0, 1, 2, 10, 100, 5000])
        t = calls('sample_pairs', nn.sample_pairs, n, a, b, min_sep=lo, max_sep=hi, metric=metric)
        if t is None:
            continue
        i1, i2, s = t
        calls.mon.check(len(i1) == len(i2) == len(s) <= n, 'at most n pairs', got=len(i1), want=n)
        if len(i1):
            calls.mon.check(i1.min() >= 0 and i1.max() < a.ntot and i2.min() >= 0 and
                            i2.max() < b.ntot, 'sampled indices are in range')
        if not ties(a) and not ties(b):
            calls.keep('sampled', i1, i2, s)


def work_life(treecorr, c, calls):
    """Objects are made, used, copied, pickled and dropped in random order."""
    q = gen.prng('life', c['seed'])
    r = np.random.RandomState(c['seed'])
    letters = q.choice(['N', 'K', 'G', 'V', 'Z', 'T', 'Q'])
    L = letters * 2
    cls3 = dict(N='NNN', K='KKK', G='GGG').get(letters)
    kw2 = binning2(q, c)
    kw2['split_method'] = 'mean'
    kw2['max_sep'] = max(kw2['max_sep'], 0)
    pool = []
    calls.mon.count('lifetimes')
    for step in range(q.choice([10, 25])):
        op = q.randrange(12)
        cats = [x for x in pool if isinstance(x, treecorr.Catalog)]
        fields = [x for x in pool if isinstance(x, treecorr.field.Field)]
        corrs = [x for x in pool if hasattr(x, 'process')]
        new = None
        if op <= 1 or not cats:
            new = calls('Catalog', catalog, treecorr, q, r, c['coords'], q.choice([1, 3, 9, 40]),
                        letters)
        elif op == 2:
            new = calls('get field', getattr(q.choice(cats), 'get%sField' % letters),
                        min_top=q.choice([0, 2]), brute=q.random() < 0.2)
        elif op == 3 and fields:
            f = q.choice(fields)
            if c['coords'] == 'flat':
                calls('near', f.get_near, x=0, y=0, sep=1)
            new = calls('kmeans', f.kmeans_initialize_centers, 2)
        elif op == 4:
            new = calls('corr', two.corr_class(treecorr, L), **kw2)
        elif op == 5 and cls3:
            k3 = dict(bin_type=q.choice(['LogRUV', 'LogSAS', 'LogMultipole']), nbins=2, min_sep=0.1,
                      max_sep=2.)
            k3.update(dict(LogRUV=dict(nubins=2, nvbins=2), LogSAS=dict(nphi_bins=2),
                           LogMultipole=dict(max_n=2))[k3['bin_type']])
            new = calls('corr3', getattr(treecorr, cls3 + 'Correlation'), **k3)
        elif op in (6, 7) and corrs:
            x = q.choice(corrs)
            cs = [q.choice(cats) for _ in range(q.choice([1, 1, 2]))]
            if sum(y.ntot for y in cs) < 120:
                calls('process', x.process, *cs, initialize=q.random() < 0.7,
                      finalize=q.random() < 0.7, low_mem=q.random() < 0.3)
        elif op == 8:
            x = q.choice(pool)
            new = calls('copy', q.choice([copy.copy, copy.deepcopy,
                                          lambda y: pickle.loads(pickle.dumps(y))]), x)
        elif op == 9:
            x = q.choice(cats)
            calls('cache', q.choice([x.clear_cache, lambda: x.resize_cache(q.choice([0, 1, 3])),
                                     x.unload, x.get_patches, lambda: x.field]))
        elif op == 10 and corrs:
            x = q.choice(corrs)
            calls('clear', q.choice([x.clear, lambda: x.__iadd__(x.copy()),
                                     lambda: x.nonzero, lambda: repr(x)]))
        if new is not None:
            pool.append(new)
        if q.random() < 0.4 and len(pool) > 1:
            cats = fields = corrs = new = x = f = cs = None
            pool.pop(q.randrange(len(pool)))
            if q.random() < 0.5:
                gc.collect()
    q.shuffle(pool)
    while pool:
        pool.pop()
        if q.random() < 0.3:
            gc.collect()


def use_patches(cat):
    import treecorr
    nn = treecorr.NNCorrelation(min_sep=0.1, max_sep=2., nbins=3)
    nn.process(cat)
    nnn = treecorr.NNNCorrelation(min_sep=0.1, max_sep=2., nbins=2, max_n=1,
                                  bin_type='LogMultipole')
    nnn.process(cat)
    cen = cat.get_patch_centers()
    cat.getNField().kmeans_assign_patches(cen)
    treecorr.Catalog(x=cat.x, y=cat.y, patch_centers=cen).get_patches()
    cat.write_patch_centers(os.path.join(os.environ['VERIF_SCRATCH'], 'badcen.dat'))
    nn.estimate_cov('jackknife')


def bad_calls(treecorr, c):
    q = gen.prng('bad', c['seed'])
    r = np.random.RandomState(c['seed'])
    n = q.choice([5, 20])
    x, y, z, k, g = r.normal(0, 1, (5, n))
    ra, dec = r.uniform(0, 1, (2, n))
    flat = treecorr.Catalog(x=x, y=y, k=k, g1=g, g2=g)
    three = treecorr.Catalog(x=x, y=y, z=z, k=k)
    sky = treecorr.Catalog(ra=ra, dec=dec, ra_units='rad', dec_units='rad', k=k)
    T = treecorr
    b2 = dict(min_sep=0.1, max_sep=2., nbins=3)
    m3 = dict(b2, max_n=2, bin_type='LogMultipole')
    f = flat.getNField()
    f3 = three.getNField()
    nan = np.nan
    inf = np.inf
    must = [
        ('no positions', lambda: T.Catalog()),
        ('no y', lambda: T.Catalog(x=x)),
        ('lengths', lambda: T.Catalog(x=x, y=y[:-1])),
        ('k length', lambda: T.Catalog(x=x, y=y, k=k[1:])),
        ('w length', lambda: T.Catalog(x=x, y=y, w=k[1:])),
        ('empty', lambda: T.Catalog(x=[], y=[])),
        ('all flagged', lambda: T.Catalog(x=x, y=y, flag=np.ones(n, int), ignore_flag=1)),
        ('zero weights', lambda: T.Catalog(x=x, y=y, w=np.zeros(n))),
        ('x and ra', lambda: T.Catalog(x=x, y=y, ra=ra, dec=dec)),
        ('no units', lambda: T.Catalog(ra=ra, dec=dec)),
        ('g1 only', lambda: T.Catalog(x=x, y=y, g1=g)),
        ('strings', lambda: T.Catalog(x=['a'] * n, y=y)),
        ('patch length', lambda: T.Catalog(x=x, y=y, patch=np.arange(n - 1))),
        ('npatch < patch', lambda: T.Catalog(x=x, y=y, patch=np.arange(n), npatch=2)),
        ('patch scalar 0', lambda: T.Catalog(x=x, y=y, patch=3)),
        ('npatch 0', lambda: T.Catalog(x=x, y=y, npatch=0)),
        ('npatch > n', lambda: T.Catalog(x=x, y=y, npatch=n + 1)),
        ('centers shape', lambda: T.Catalog(x=x, y=y, patch_centers=np.zeros((3, 3)))),
        ('centers shape3', lambda: T.Catalog(x=x, y=y, z=z, patch_centers=np.zeros((3, 2)))),
        ('kmeans_init', lambda: T.Catalog(x=x, y=y, npatch=2, kmeans_init='bad')),
        ('nbins 0', lambda: T.NNCorrelation(min_sep=1, max_sep=2, nbins=0)),
        ('nbins -1', lambda: T.NNCorrelation(min_sep=1, max_sep=2, nbins=-1)),
        ('bin_size 0', lambda: T.NNCorrelation(min_sep=1, max_sep=2, bin_size=0)),
        ('bin_size -1', lambda: T.NNCorrelation(min_sep=1, max_sep=2, bin_size=-1)),
        ('min>max', lambda: T.NNCorrelation(min_sep=3, max_sep=2, nbins=3)),
        ('min=max', lambda: T.NNCorrelation(min_sep=2, max_sep=2, nbins=3)),
        ('min 0 log', lambda: T.NNCorrelation(min_sep=0, max_sep=2, nbins=3)),
        ('min negative', lambda: T.NNCorrelation(min_sep=-1, max_sep=2, nbins=3)),
        ('min negative linear', lambda: T.NNCorrelation(min_sep=-1, max_sep=2, nbins=3,
                                                        bin_type='Linear')),
        ('no max', lambda: T.NNCorrelation(min_sep=1, nbins=3)),
        ('too many', lambda: T.NNCorrelation(min_sep=1, max_sep=2, nbins=3, bin_size=0.1)),
        ('bin_type', lambda: T.NNCorrelation(bin_type='Bad', **b2)),
        ('split', lambda: T.NNCorrelation(split_method='bad', **b2)),
        ('nubins', lambda: T.NNNCorrelation(nubins=0, nvbins=2, **b2)),
        ('min_u', lambda: T.NNNCorrelation(min_u=0.9, max_u=0.3, nubins=3, nvbins=2, **b2)),
        ('max_u', lambda: T.NNNCorrelation(min_u=0., max_u=1.3, nubins=3, nvbins=2, **b2)),
        ('min_v', lambda: T.NNNCorrelation(min_v=-0.1, max_v=1, nubins=3, nvbins=2, **b2)),
        ('nphi', lambda: T.NNNCorrelation(nphi_bins=0, bin_type='LogSAS', **b2)),
        ('phi', lambda: T.NNNCorrelation(nphi_bins=3, min_phi=2, max_phi=1, phi_units='rad',
                                         bin_type='LogSAS', **b2)),
        ('max_n', lambda: T.NNNCorrelation(max_n=-1, bin_type='LogMultipole', **b2)),
        ('metric', lambda: T.NNCorrelation(**b2).process(flat, metric='bad')),
        ('metric flat', lambda: T.NNCorrelation(**b2).process(flat, metric='Rperp')),
        ('metric flat arc', lambda: T.NNCorrelation(**b2).process(flat, metric='Arc')),
        ('metric sky', lambda: T.NNCorrelation(**b2).process(sky, metric='Rlens')),
        ('metric sky periodic', lambda: T.NNCorrelation(period=3, **b2).process(sky,
                                                                             metric='Periodic')),
        ('no period', lambda: T.NNCorrelation(**b2).process(flat, metric='Periodic')),
        ('metric 3', lambda: T.NNNCorrelation(**m3).process(three, metric='Rperp')),
        ('TwoD sky', lambda: T.NNCorrelation(max_sep=1, nbins=3, bin_type='TwoD').process(three)),
        ('mixed', lambda: T.NNCorrelation(**b2).process(flat, three)),
        ('mixed sky', lambda: T.NNCorrelation(**b2).process(sky, flat)),
        ('mixed 3', lambda: T.NNNCorrelation(**m3).process(flat, three)),
        ('no g', lambda: T.GGCorrelation(**b2).process(three)),
        ('no v', lambda: T.NVCorrelation(**b2).process(three, three)),
        ('NK one', lambda: T.NKCorrelation(**b2).process(flat)),
        ('process None', lambda: T.NNCorrelation(**b2).process(None)),
        ('process array', lambda: T.NNCorrelation(**b2).process(x)),
        ('rpar', lambda: T.NNCorrelation(min_rpar=2, max_rpar=1, **b2)),
        ('rpar flat', lambda: T.NNCorrelation(min_rpar=1, max_rpar=2, **b2).process(flat)),
        ('iadd type', lambda: T.NNCorrelation(**b2).__iadd__(T.NKCorrelation(**b2))),
        ('iadd bins', lambda: T.NNCorrelation(**b2).__iadd__(T.NNCorrelation(
            min_sep=0.1, max_sep=2., nbins=4))),
        ('near args', lambda: f.get_near()),
        ('near args3', lambda: f3.get_near(x=0, y=0, sep=1)),
        ('near sep', lambda: f.count_near(x=0, y=0)),
        ('kmeans 0', lambda: f.run_kmeans(0)),
        ('kmeans -1', lambda: f.run_kmeans(-1)),
        ('kmeans >n', lambda: f.run_kmeans(n + 1)),
        ('kmeans init', lambda: f.run_kmeans(2, init='bad')),
        ('kmeans centers', lambda: f.kmeans_assign_patches(np.zeros((2, 3)))),
        ('kmeans centers3', lambda: f3.kmeans_assign_patches(np.zeros((2, 2)))),
        ('kmeans refine', lambda: f.kmeans_refine_centers(np.zeros((2, 3)))),
        ('NField k', lambda: T.KField(T.Catalog(x=x, y=y))),
        ('GField', lambda: T.GField(T.Catalog(x=x, y=y))),
        ('cov method', lambda: T.NNCorrelation(**b2).estimate_cov('bad')),
        ('sample type', lambda: T.NNCorrelation(**b2).sample_pairs(
            3, flat, three, min_sep=1, max_sep=2)),
        ('sample n', lambda: T.NNCorrelation(**b2).sample_pairs(
            -3, flat, flat, min_sep=1, max_sep=2)),
        ('nan binning', lambda: T.NNCorrelation(min_sep=nan, max_sep=2, nbins=3)),
        ('toSAS', lambda: T.NNNCorrelation(**dict(m3, bin_type='LogSAS', max_n=None)).toSAS()),
    ]
    # Not documented either way, but harmless
    may = [
        ('patch negative', lambda: use_patches(T.Catalog(x=x, y=y, patch=np.arange(n) % 4 - 1))),
        ('patch scalar', lambda: use_patches(T.Catalog(x=x, y=y, patch=-1, npatch=2))),
        ('patch large', lambda: use_patches(T.Catalog(x=x, y=y, patch=np.arange(n) * 37))),
        ('npatch large', lambda: use_patches(T.Catalog(x=x, y=y, patch=np.arange(n) % 3,
                                                       npatch=9))),
        ('slop', lambda: T.NNCorrelation(bin_slop=-1, **b2)),
        ('angle_slop', lambda: T.NNCorrelation(angle_slop=-1, **b2)),
        ('top', lambda: T.NNCorrelation(min_top=-1, **b2).process(flat)),
        ('kmeans iter', lambda: f.run_kmeans(2, max_iter=-1)),
        ('kmeans tol', lambda: f.run_kmeans(2, tol=-1.)),
        ('inf max', lambda: T.NNCorrelation(min_sep=1, max_sep=inf, nbins=3)),
        ('nan x', lambda: T.NNCorrelation(**b2).process(T.Catalog(
            x=np.where(np.arange(n) == 1, nan, x), y=y))),
        ('nan g', lambda: T.GGCorrelation(**b2).process(T.Catalog(
            x=x, y=y, g1=np.where(np.arange(n) == 1, nan, g), g2=g))),
        ('nan rpar', lambda: T.NNCorrelation(min_rpar=nan, **b2).process(three)),
        ('near nan', lambda: f.get_near(x=nan, y=0, sep=1)),
        ('near neg', lambda: f.get_near(x=0, y=0, sep=-1)),
        ('empty field', lambda: T.NField(flat.getPatches()[0] if hasattr(flat, 'getPatches')
                                         else flat)),
        ('threads', lambda: T.NNCorrelation(**b2).process(flat, num_threads=q.choice([0, -3, 200]))),
        ('set threads', lambda: T.set_omp_threads(q.choice([-2, 0, 1]))),
        ('max threads', lambda: T.set_max_omp_threads(None)),
        ('centers nan', lambda: f.kmeans_assign_patches(np.full((2, 2), nan))),
        ('centers f4', lambda: f.kmeans_assign_patches(np.zeros((2, 2), 'f4'))),
        ('centers strided', lambda: f.kmeans_assign_patches(np.zeros((4, 4))[::2, ::2])),
        ('centers empty', lambda: f.kmeans_assign_patches(np.zeros((0, 2)))),
        ('refine empty', lambda: f.kmeans_refine_centers(np.zeros((0, 2)))),
        ('low level', lambda: T.NNCorrelation(**b2).process_cross(flat, three)),
        ('low level auto', lambda: T.GGCorrelation(**b2).process_auto(three)),
        ('two metrics', lambda: [cc.process(three, metric=m, initialize=False) for cc in
                                 [T.NNCorrelation(**b2)] for m in ('Euclidean', 'Rlens')]),
        ('huge max_top', lambda: flat.getNField(max_top=60, min_top=60)),
        ('huge bins', lambda: T.NNCorrelation(min_sep=1e-300, max_sep=1e300, nbins=100000).process(
            flat)),
        ('patch method', lambda: T.NNCorrelation(**b2).process(flat, patch_method='bad')),
        ('weights inf', lambda: T.NNCorrelation(**b2).process(T.Catalog(
            x=x, y=y, w=np.where(np.arange(n) == 1, inf, 1.)))),
        ('centers more', lambda: T.Catalog(x=x, y=y, patch_centers=r.normal(0, 1, (n * 3, 2)))),
        ('patch huge', lambda: T.Catalog(x=x, y=y, patch=np.arange(n) * 10 ** 5).npatch),
        ('scalar center', lambda: T.Catalog(x=x, y=y, patch_centers=3.)),
        ('estimate', lambda: T.NNCorrelation(**b2).estimate_cov('jackknife')),
        ('bootstrap', lambda: T.NNCorrelation(**b2).build_cov_design_matrix('bootstrap')),
    ]
    return must, may


def work_bad(treecorr, c, calls):
    """Invalid arguments: must raise, and must not upset the sanitizers."""
    mon = calls.mon
    q = gen.prng('bad sample', c['seed'])
    must, may = bad_calls(treecorr, c)
    for what, fn in q.sample(must, 12):
        if not calls.quiet:
            mon.count('calls')
            mon.count('must_raise')
        try:
            fn()
        except Exception as e:
            mon.cover('rejected', '%s: %s' % (what, type(e).__name__))
        else:
            mon.fail('invalid argument accepted: ' + what)
    for what, fn in q.sample(may, 6):
        calls(what, fn)
    treecorr.set_omp_threads(1)
