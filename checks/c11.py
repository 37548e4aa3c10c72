"""C11: correlation output files give back the correlation, in every format."""
import copy
import logging
import os
import shutil
import numpy as np
from vlib import gen
from checks import three
from checks.c20 import ARR2, ARR3

VARIANTS = ['o3']
RULE = ('Random two- and three-point correlations (all types, bin types, metrics, coordinate systems, '
        'units, options, with and without patches, randoms, covariance) written in every format and '
        'read back with read() into a fresh and into a used object and with from_file() of the class '
        'and of the base class: configuration, arrays, variances, per-patch results, randoms, '
        'covariances by every method and later calculations must agree to the written precision; the '
        'columns of the file are checked by independent readers. Non-trivial: pairs counted; signature '
        '(letters, bin type, coordinates, metric, format, options).')
ASSUMPTIONS = ['ASCII: relative precision 10^-precision for the main arrays, 1e-15 for patch results',
               'bootstrap covariances are compared with equal random states']
MIN_EVENTS = dict(files=900, reads=3000, patch_results=1800, covariances=2000, reprocessed=600,
                  random_results=300, second_generation=800, columns=5000)
CASE_TIMEOUT = 120
EXT = dict(ASCII=['.txt', '.dat', '.out'], FITS=['.fits', '.fit'], HDF=['.hdf5', '.hdf'])


def cases(tier, seed):
    q = gen.prng('C11', seed)
    out = []
    n = 1300 if tier == 'quick' else 26000
    for i in range(n):
        if i % 3 < 2:
            c = gen.two_point_case(q, '2pt', sizes=(2, 6, 12, 25, 50))
            c['letters'] = q.choice(gen.LETTERS2 + ['NN'] * 8)
            if c['auto'] and c['letters'][0] != c['letters'][1]:
                c['letters'] = q.choice(['NN', 'NN', 'KK', 'ZZ', 'VV', 'GG', 'TT', 'QQ'])
            c['ncat'] = 1 if c['auto'] else 2
        else:
            c = three.case(q, '3pt', ['LogRUV', 'LogSAS', 'LogMultipole'], (3, 5, 9, 14),
                           letters=('NNN', 'NNN', 'KKK', 'GGG'))
        c['format'] = ['ASCII', 'FITS', 'HDF'][i % 9 // 3]
        c['npatch'] = q.choice([0, 1, 2, 3, 4])
        c['patched'] = q.choice(['all', 'all', 'first', 'second'])
        c['randoms'] = q.choice(['none', 'before', 'write', 'write'])
        c['kinds'] = q.choice(['rr', 'dr', 'rd', 'all'])
        c['write_patch_results'] = q.random() < 0.6
        c['write_cov'] = q.random() < 0.4
        c['precision'] = q.choice([None, None, 3, 6, 10, 16])
        c['conf_precision'] = q.choice([None, None, 5, 9])
        c['explicit'] = q.random() < 0.4
        c['sparse'] = q.random() < 0.25
        c['var_method'] = q.choice(['shot', 'jackknife', 'sample', 'bootstrap', 'marked_bootstrap'])
        c['local'] = q.random() < 0.2
        c['slop'] = q.choice([0, 0.7, None])
        out.append(c)
    return out


def labels(D, K, r, sparse):
    if sparse:
        # neighbouring patches only, so some pairs of patches have no pairs of objects
        o = np.argsort(np.argsort(D.p[:, 0], kind='stable'), kind='stable')
        lab = (o * K) // D.n
    else:
        lab = r.randint(0, K, D.n)
    ok = np.flatnonzero(D.w != 0)
    lab[ok[r.randint(0, len(ok))]] = K - 1
    return lab


class World(object):
    def __init__(self, treecorr, c):
        self.c = c
        self.three = c['tag'] == '3pt'
        r = np.random.RandomState(c['seed'] % (2 ** 31) + 5)
        if self.three:
            Ds, bins, kw, period = three.resolve(c)
            self.letters = c['letters']
            kw = {k: v for k, v in kw.items() if k != 'ordered'}
        else:
            D1, D2, bins, kw, period, rp = gen.resolve(c)
            Ds = [D1] if D2 is None else [D1, D2]
            self.letters = c['letters']
        self.kw = dict(kw, num_threads=1)
        if self.kw.get('split_method') == 'random':
            # the extension's own random numbers
            self.kw['split_method'] = 'median'
        if c['slop'] is None:
            self.kw.pop('bin_slop', None)
        else:
            self.kw['bin_slop'] = c['slop']
        self.kw['num_bootstrap'] = 7
        if c['conf_precision']:
            self.kw['precision'] = c['conf_precision']
        if c['explicit']:
            q = gen.prng('explicit', c['seed'])
            for k, v in [('angle_slop', q.choice([0.05, 0.2])), ('verbose', 0),
                         ('max_top', self.kw.get('max_top')), ('min_top', self.kw.get('min_top')),
                         ('output_dots', False), ('brute', self.kw.get('brute', False)),
                         ('log_file', None)] + ([] if self.three else
                                                [('m2_uform', q.choice(['Schneider', 'Crittenden'])),
                                                 ('min_rpar', self.kw.get('min_rpar'))]):
                if q.random() < 0.6:
                    self.kw[k] = v
        K = c['npatch']
        self.K = K
        self.cats, self.rands, self.others = [], [], []
        for i, D in enumerate(Ds):
            kk = {}
            if K and (c['patched'] == 'all' or len(Ds) == 1 or self.three or
                      (c['patched'] == 'first') == (i == 0)):
                kk = dict(patch=labels(D, K, r, c['sparse']), npatch=K) if K > 1 else dict(patch=0)
            self.cats.append(D.catalog(treecorr, **kk))
            geom = c['geom'] if i == 0 else c['geom2']
            for k, lst in ((1, self.rands), (2, self.others)):
                m = D.n + k
                R = gen.Data(c['seed'] + 1000 * k + i, c['coords'], m, geom, c['weights'],
                             c.get('unit'), c.get('style'), pscale=c.get('pscale', 1.))
                kr = {}
                if kk:
                    kr = dict(patch=labels(R, K, r, c['sparse']), npatch=K) if K > 1 else dict(patch=0)
                lst.append(R.catalog(treecorr, **kr))
        self.cls = getattr(treecorr, self.letters + 'Correlation')
        self.base = treecorr.Corr3 if self.three else treecorr.Corr2

    def new(self, **kw):
        k = dict(self.kw, **kw)
        return self.cls(rng=np.random.RandomState(31), **k)

    def process(self, o, cats, stored=False):
        k = {}
        if self.three:
            if not stored:
                k['metric'] = self.c['metric']
            if len(cats) > 1:
                k['ordered'] = self.c['ordered']
        if self.c['local'] and self.K > 1 and self.c['patched'] == 'all':
            k['patch_method'] = 'local'
        o.process(*cats, **k)
        return o

    def corr(self, cats):
        return self.process(self.new(), cats)

    def with_randoms(self):
        """Randoms for calculateXi / write."""
        c = self.c
        L = self.letters
        D, R = self.cats, self.rands
        if L == 'NN':
            if len(D) == 1:
                out = dict(rr=self.corr(R))
                if c['kinds'] in ('dr', 'all'):
                    out['dr'] = self.corr([D[0], R[0]])
                elif c['kinds'] == 'rd':
                    out['rd'] = self.corr([R[0], D[0]])
            else:
                out = dict(rr=self.corr(R))
                if c['kinds'] != 'rr':
                    out['dr'] = self.corr([D[0], R[1]])
                    out['rd'] = self.corr([R[0], D[1]])
                if c['kinds'] in ('dr', 'rd'):
                    out.pop('rd' if c['kinds'] == 'dr' else 'dr')
            return out
        if L == 'NNN':
            if self.kw['bin_type'] == 'LogMultipole' or len(D) != 1:
                return {}
            out = dict(rrr=self.corr(R))
            if c['kinds'] != 'rr':
                out['drr'] = self.process(self.new(), [D[0], R[0]])
                out['rdd'] = self.process(self.new(), [R[0], D[0]])
            return out
        if L[0] == 'N' and not self.three and len(D) == 2:
            return {'r' + L[1].lower(): self.corr([R[0], D[1]])}
        return {}


CONF = ['min_sep', 'max_sep', 'nbins', 'bin_size', 'bin_type', 'sep_units', 'bin_slop', 'b',
        'angle_slop', 'a', 'var_method', 'num_bootstrap', 'min_top', 'max_top', 'split_method',
        'brute', 'xperiod', 'yperiod', 'zperiod', 'min_rpar', 'max_rpar', 'coords', 'metric',
        'left_edges', 'right_edges', 'rnom', 'logr', 'min_u', 'max_u', 'nubins', 'ubin_size',
        'min_v', 'max_v', 'nvbins', 'vbin_size', 'min_phi', 'max_phi', 'nphi_bins', 'phi_bin_size',
        'phi_units', 'max_n', 'u', 'v', 'phi', 'd2nom', 'd3nom', 'logd2', 'logd3', 'u1d', 'v1d',
        'phi1d', 'n', 'n1d', 'rnom1d', '_min_sep', '_max_sep', 'data_shape', '_sep_units',
        'output_dots', '_bintype']
VARS = ['varxi', 'varxip', 'varxim', 'raw_varxi', 'varzeta', 'vargam0', 'vargam1', 'vargam2',
        'vargam3', 'xi', 'raw_xi', 'xi_im', 'raw_xi_im', 'zeta', 'rawxi', 'xip', 'xim', 'xip_im',
        'xim_im', 'gam0', 'gam1', 'gam2', 'gam3']


def attr(o, k):
    try:
        return True, getattr(o, k)
    except (AttributeError, AssertionError):
        return False, None


def arrays(o, variances=True):
    s = {}
    for k in list(ARR3 if hasattr(o, 'ntri') else ARR2) + (VARS if variances else []):
        if k == 'meanv' and getattr(o, 'bin_type', '') != 'LogRUV':
            continue
        if k == 'weighti' and getattr(o, 'bin_type', '') != 'LogMultipole':
            continue
        ok, a = attr(o, k)
        # objects without any mass may lack arrays
        if ok and a is not None and np.size(a):
            s[k] = np.array(a)
    if hasattr(o, 'tot'):
        s['tot'] = np.array(o.tot)
    return s


# NK, NG, ... with randoms: the file holds neither the randoms nor the raw xi, only the compensated xi.
LOST = ('raw_xi', 'raw_xi_im', 'raw_varxi', '_xi1', '_xi2')


def compare(mon, what, got, want, tol, skip=(), atol=1e-300):
    """Arrays of `want` restored.  Values like 0 and nan written as such."""
    for k in sorted(want):
        if k in skip:
            continue
        if k not in got:
            mon.fail(what + 'missing ' + k, want=want[k])
            continue
        g, w = got[k], want[k]
        if not mon.check(g.shape == w.shape, what + 'shape of ' + k, got=g.shape, want=w.shape):
            continue
        if k.startswith('var'):
            # sigma is written; LogSAS with low max_n can have negative weights
            g = np.where((w < 0) & np.isnan(g), w, g)
        t = 4 * tol if k.startswith('var') or k.startswith('raw_var') else tol
        if k in ('gam0', 'gam1', 'gam2', 'gam3', 'zeta') or np.iscomplexobj(w):
            mon.close(what + k, g.real, w.real, atol, rtol=2 * t)
            mon.close(what + k + ' (imag)', g.imag, w.imag, atol, rtol=2 * t)
        else:
            # numbers in FITS headers have 15 digits
            mon.close(what + k, g, w, atol, rtol=t if k != 'tot' else max(2e-14, min(tol, 1e-11)))
    for k in sorted(set(got) - set(want) - set(skip)):
        mon.fail(what + 'unexpected ' + k, got=got[k])


def results(o):
    """The meaningful patch results."""
    out = {}
    for ij, x in o.results.items():
        if not np.any(x.ntri if hasattr(x, 'ntri') else x.npairs):
            # these may have no arrays
            out[ij] = dict(tot=np.array(getattr(x, 'tot', 0)))
        else:
            out[ij] = arrays(x, False)
            out[ij].pop('tot', None)
            if hasattr(x, 'tot'):
                out[ij]['tot'] = np.array(x.tot)
    return out


def compare_results(mon, what, a, b, count, tol=4e-16):
    if not mon.check(set(a) == set(b), what + 'results keys', got=sorted(a), want=sorted(b)):
        return
    for ij in b:
        if count:
            mon.count('patch_results')
        if set(b[ij]) == {'tot'}:
            mon.close('%sresults %s tot' % (what, ij), a[ij].get('tot', -1), b[ij]['tot'], 0, 2e-14)
            mon.check(set(a[ij]) == {'tot'}, '%sresults %s not empty' % (what, ij), got=a[ij])
        else:
            compare(mon, '%sresults %s ' % (what, ij), a[ij], b[ij], tol)


def values(o, methods):
    """Covariances and later calculations."""
    out = {}
    for m in methods:
        o._rng = np.random.RandomState(77)
        try:
            out['cov ' + m] = np.array(o.estimate_cov(m))
        except Exception as e:
            out['cov ' + m] = type(e).__name__
    return out


def calc(o, w):
    """Aperture masses and conversions."""
    out = {}
    with np.errstate(all='ignore'):
        if w.letters == 'GG' and o.bin_type == 'Log':
            for f in ('calculateMapSq', 'calculateGamSq'):
                for i, a in enumerate(getattr(o, f)()):
                    out['%s[%d]' % (f, i)] = a
        if w.letters == 'NG' and o.bin_type == 'Log':
            for i, a in enumerate(o.calculateNMap()):
                out['calculateNMap[%d]' % i] = a
        if w.letters == 'GGG' and o.bin_type == 'LogRUV':
            for i, a in enumerate(o.calculateMap3()):
                out['calculateMap3[%d]' % i] = a
        if o.bin_type == 'LogMultipole':
            s = o.toSAS(nphi_bins=5)
            for k, v in arrays(s, False).items():
                out['toSAS ' + k] = v
    return out


def conf(o):
    return {k: v for k in CONF for ok, v in [attr(o, k)] if ok}


def run(c, mon):
    import treecorr
    logging.disable(logging.CRITICAL)
    scratch = os.path.join(os.environ['VERIF_SCRATCH'], 'c11')
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        with np.errstate(all='ignore'):
            run1(treecorr, c, mon, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def write_kw(c, w, R, q):
    kw = {}
    if c['randoms'] == 'write':
        kw.update(R)
    if c['write_patch_results']:
        kw['write_patch_results'] = True
    if c['write_cov']:
        kw['write_cov'] = True
    if c['precision'] is not None:
        kw['precision'] = c['precision']
    return kw


def run1(treecorr, c, mon, scratch):
    w = World(treecorr, c)
    q = gen.prng('c11', c['seed'])
    o = w.corr(w.cats)
    m = c['var_method']
    if m != 'shot' and w.K > 1 and len(o.results) > 1:
        # only if it is possible with these patches
        try:
            o.estimate_cov(m)
            w.corr(w.others).estimate_cov(m)
            w.corr(w.rands).estimate_cov(m)
        except (ValueError, RuntimeError):
            pass
        else:
            w.kw['var_method'] = m
            o = w.corr(w.cats)
            mon.cover('var_method', m)
    R = w.with_randoms() if c['randoms'] != 'none' else {}
    if R and c['randoms'] == 'before':
        (o.calculateZeta if w.three else o.calculateXi)(**R)
    fmt = c['format']
    ext = q.choice(EXT[fmt])
    kt = {}
    if q.random() < 0.15:
        ext = q.choice(['.x', '.dat'])
        kt = dict(file_type=fmt)
    fn = os.path.join(scratch, q.choice(['', 'sub']), 'out' + ext)
    kw = write_kw(c, w, R, q)
    if c['write_cov']:
        try:
            o.cov
        except Exception:
            kw.pop('write_cov')
    if c['randoms'] == 'write' and w.letters == 'NNN' and R and c['kinds'] == 'rr':
        kw.pop('drr', None)
    o.write(fn, **kt, **kw)
    mon.count('files')
    prec = kw.get('precision', w.kw.get('precision', 4))
    tol = 0.51 * 10. ** -prec if fmt == 'ASCII' else 4e-16
    tol = max(tol, 4e-16)
    want = arrays(o)
    wres = results(o) if kw.get('write_patch_results') else {}
    methods = ['shot']
    if wres:
        methods += ['jackknife', 'sample', 'bootstrap', 'marked_bootstrap']
    # Randoms of NK, NG, ... are not written
    lost = w.letters[0] == 'N' and w.letters not in ('NN', 'NNN') and bool(R) and \
        c['randoms'] == 'write'
    skip = LOST if lost else ()
    columns(mon, c, w, o, R if c['randoms'] == 'write' else {}, fn, fmt, tol, kw)
    wconf = conf(o)
    # ways of reading
    ways = {}
    ways['read'] = w.new()
    used = w.new()
    w.process(used, w.others)
    if R and q.random() < 0.7:
        (used.calculateZeta if w.three else used.calculateXi)(**R)
    if q.random() < 0.6:
        try:
            used.cov
        except Exception:
            pass
    ways['read (used)'] = used
    for k in ('read', 'read (used)'):
        ways[k].read(fn, **kt)
    rng = np.random.RandomState(31)
    ways['from_file'] = w.cls.from_file(fn, rng=rng, **kt)
    ways['base.from_file'] = w.base.from_file(fn, rng=np.random.RandomState(31), **kt)
    mon.check(ways['from_file'].rng is rng, 'from_file rng')
    for way, x in ways.items():
        mon.count('reads')
        mon.check(type(x) is w.cls, way + ': class', got=type(x))
        g = conf(x)
        for k in wconf:
            a, b = g.get(k), wconf[k]
            if k in ('min_u', 'max_u', 'min_v', 'max_v', 'ubin_size', 'vbin_size', 'u', 'v', 'u1d',
                     'v1d'):
                mon.close('%s: %s' % (way, k), a, b, 1e-12, rtol=1e-12)
            elif k == 'logr' and np.shape(a) == np.shape(b):
                # the central cell of TwoD has r=0 up to rounding
                same(mon, '%s: %s' % (way, k), np.maximum(a, np.max(b) - 15.),
                     np.maximum(b, np.max(b) - 15.))
            else:
                same(mon, '%s: %s' % (way, k), a, b)
        compare(mon, way + ': ', arrays(x), want, tol, skip)
        if wres:
            compare_results(mon, way + ': ', results(x), wres, way == 'read')
            for k in ('npatch1', 'npatch2', 'npatch3'):
                mon.equal('%s: %s' % (way, k), getattr(x, k, 0), getattr(o, k, 0))
        else:
            mon.check(len(x.results) == 0, way + ': results', got=list(x.results))
        if kw.get('write_cov'):
            mon.close(way + ': cov', x.cov, o.cov, 1e-300, rtol=max(tol, 4e-16))
    # covariances; the original last
    if lost:
        k = next(iter(R))
        if wres and any(getattr(x, '_' + k, None) is None for x in ways.values()):
            mon.finding('C11-nk-randoms', 'covariance of the compensated %s after reading with the '
                        'patch results: the randoms are not in the file' % w.letters)
        if any(not np.allclose(x.raw_xi, o.raw_xi) for x in ways.values()):
            mon.finding('C11-nk-randoms', 'raw_xi after reading is the compensated xi')
        methods = []
    v0 = values(o, methods) if wres else {}
    same_calc = calc(o, w) if not lost else {}
    for way, x in ways.items():
        if wres:
            v1 = values(x, methods)
            for k in v0:
                mon.count('covariances')
                agree(mon, way + ': ' + k, v1[k], v0[k],
                      8 * tol + 1e-13 if k == 'cov shot' else 1e-11)
        cc = calc(x, w) if not lost else {}
        for k in same_calc:
            agree(mon, way + ': ' + k, cc[k], same_calc[k], None if fmt == 'ASCII' and prec < 14
                  else 1e-10)
    # the randoms
    if wres and R and c['randoms'] != 'none':
        for way, x in ways.items():
            for k, r in R.items():
                y = getattr(x, '_' + k, None)
                ref = getattr(o, '_' + k, None)
                if ref is None:
                    # NZ etc: reset by write without randoms
                    mon.check(y is None, '%s: %s' % (way, k), got=y)
                    continue
                if lost:
                    continue
                if not mon.check(y is not None and y is not True, '%s: %s missing' % (way, k), got=y):
                    continue
                mon.count('random_results')
                compare(mon, '%s: %s ' % (way, k), arrays(y, False), arrays(ref, False),
                        tol if way else tol)
                compare_results(mon, '%s: %s ' % (way, k), results(y), results(ref), False)
    # a second generation
    x = ways[q.choice(sorted(ways))]
    kw2 = {k: v for k, v in kw.items() if k not in R} if not lost else None
    if R and c['randoms'] == 'write' and not lost:
        kw2.update({k: getattr(x, '_' + k, None) for k in R} if wres else R)
        if wres and any(v is None for v in kw2.values()):
            kw2 = None
    if kw2 is not None:
        before = arrays(x)
        fn2 = fn.replace('out', 'out2')
        x.write(fn2, **kt, **kw2)
        y = w.base.from_file(fn2, **kt)
        mon.count('second_generation')
        compare(mon, 'second generation: ', arrays(y), arrays(x), tol)
        if wres:
            compare_results(mon, 'second generation: ', results(y), results(x), False)
        if not R:
            compare(mon, 'second generation (original): ', arrays(y), want, 2 * tol + 2e-15)
    # the objects can be used for another calculation
    for way in ('from_file', 'read (used)'):
        x = ways[way]
        x._rng = np.random.RandomState(31)
        w.process(x, w.others, way == 'from_file')
        ref = w.corr(w.others)
        mon.count('reprocessed')
        if way == 'from_file' and fmt == 'FITS':
            # The bin edges have only 15 digits.
            if any(g.startswith(('lattice', 'dups')) for g in (c['geom'], c['geom2'])):
                continue
        if way == 'from_file' and c['slop']:
            continue
        a, b = arrays(x), arrays(ref)
        if not mon.check(set(a) == set(b), way + ', processed: arrays', got=sorted(a),
                         want=sorted(b)):
            continue
        if c['bin_type'] in ('LogSAS', 'LogMultipole') and np.any(
                np.abs(ref.ntri) < 1e-6 * np.max(np.abs(ref.ntri))):
            # ratios of rounding errors from the multipole algorithm
            continue
        for k in b:
            if c['bin_type'] != 'LogRUV' and w.three and k.startswith('var'):
                continue
            near(mon, '%s, processed: %s' % (way, k), k, a[k], b[k])
        a, b = results(x), results(ref)
        if not mon.check(set(a) == set(b), way + ', processed: results', got=sorted(a),
                         want=sorted(b)):
            continue
        for ij in b:
            for k in b[ij]:
                near(mon, '%s, processed: %s %s' % (way, ij, k), k, a[ij].get(k), b[ij][k])
    # wrong class and wrong file
    other = treecorr.KKCorrelation if w.letters != 'KK' else treecorr.GGCorrelation
    mon.raises('from_file of another class', (OSError,), lambda: other.from_file(fn, **kt))
    for d in ('coords', 'metric', 'bin_type', 'letters', 'format', 'npatch', 'randoms', 'precision',
              'write_patch_results', 'write_cov', 'explicit'):
        mon.cover(d, c[d])
    if np.any(o.ntri if w.three else o.npairs):
        mon.nontrivial((c['bin_type'], w.letters, c['coords'], c['metric'], fmt, c['randoms'],
                        c['write_patch_results'], c['write_cov'], c['npatch'], c['sep_units']
                        if 'sep_units' in c else None))


def same(mon, what, a, b):
    if isinstance(b, (float, np.ndarray)) and a is not None and not isinstance(a, str):
        f = np.abs(b)
        mon.close(what, a, b, 1e-12 * np.max(f[np.isfinite(f)], initial=1e-2), rtol=1e-12)
    else:
        mon.check(a == b or (a is None and b is None), what, got=a, want=b)


def near(mon, what, k, a, b):
    """Two calculations with bins that may differ by rounding."""
    if a is None or a.shape != b.shape:
        mon.fail(what + ': shape', got=a, want=b)
        return
    if k == 'meanlogr':
        lo = np.max(b) - 15.
        a, b = np.maximum(a, lo), np.maximum(b, lo)
    f = np.isfinite(b)
    scale = np.max(np.abs(b[f]), initial=0)
    mon.close(what, np.where(f, a, 0), np.where(f, b, 0), (1e-9 if k[0] in 'v_g' else 1e-11) * scale + 1e-14)


def agree(mon, what, a, b, rtol):
    if isinstance(b, str) or isinstance(a, str):
        mon.check(isinstance(a, str) == isinstance(b, str), what, got=a, want=b)
        return
    a, b = np.asarray(a), np.asarray(b)
    if not mon.check(a.shape == b.shape, what + ' shape', got=a.shape, want=b.shape) or rtol is None:
        return
    f = np.isfinite(b)
    scale = np.max(np.abs(b[f]), initial=0)
    mon.check(np.array_equal(f, np.isfinite(a)), what + ' finite', got=a, want=b)
    if f.all():
        mon.close(what, a, b, rtol * scale + 1e-300)


def read_columns(fn, fmt, ext):
    """Independent readers."""
    if fmt == 'ASCII':
        names, rows = None, []
        with open(fn) as f:
            for line in f:
                if line.startswith('##'):
                    if names is not None:
                        break
                elif line.startswith('#'):
                    if names is not None:
                        break
                    names = line[1:].split()
                else:
                    if len(line.split()) != len(names):
                        break
                    rows.append([float(v) for v in line.split()])
        a = np.array(rows).reshape(len(rows), len(names))
        return {k: a[:, i] for i, k in enumerate(names)}
    if fmt == 'FITS':
        from astropy.io import fits
        with fits.open(fn) as f:
            d = f[ext or 1].data
            return {k: np.array(d[k], dtype=float) for k in d.names}
    import h5py
    with h5py.File(fn, 'r') as f:
        g = f[ext] if ext else f
        return {k: np.array(v) for k, v in g.items() if hasattr(v, 'shape')}


def columns(mon, c, w, o, R, fn, fmt, tol, kw):
    """The documented columns."""
    L = w.letters
    if not w.three:
        e = dict(r_nom=o.rnom, meanr=o.meanr, meanlogr=o.meanlogr, npairs=o.npairs)
        if L == 'NN':
            e['DD'] = o.weight
            if hasattr(o, 'xi'):
                e['xi'] = o.xi
                e['sigma_xi'] = np.sqrt(o.varxi)
            for k, r in R.items():
                K = 'DR' if k == 'rd' and 'dr' not in R else k.upper()
                e[K] = r.weight * (o.tot / r.tot)
        else:
            e['weight'] = o.weight
            a, b = L
            if b == 'K':
                nm = dict(N='kappa', K='xi')[a]
                e[nm] = o.xi
                e['sigma' if a == 'N' else 'sigma_xi'] = np.sqrt(o.varxi)
            elif a in 'NK':
                re, im = dict(NZ=('z_real', 'z_imag'), NV=('vR', 'vT'), NG=('gamT', 'gamX'),
                              NT=('tR', 'tR_im'), NQ=('qR', 'qR_im'),
                              KG=('kgamT', 'kgamX')).get(L, ('xi', 'xi_im'))
                e[re] = o.xi
                e[im] = o.xi_im
                e['sigma'] = np.sqrt(o.varxi)
            else:
                for k in ('xip', 'xim', 'xip_im', 'xim_im'):
                    e[k] = getattr(o, k)
                e['sigma_xip'] = np.sqrt(o.varxip)
                e['sigma_xim'] = np.sqrt(o.varxim)
    else:
        e = dict(ntri=o.ntri)
        for k in ('d1', 'd2', 'd3'):
            e['mean' + k] = getattr(o, 'mean' + k)
            e['meanlog' + k] = getattr(o, 'meanlog' + k)
        if o.bin_type == 'LogRUV':
            e.update(r_nom=o.rnom, u_nom=o.u, v_nom=o.v, meanu=o.meanu, meanv=o.meanv)
        elif o.bin_type == 'LogSAS':
            e.update(d2_nom=o.d2nom, d3_nom=o.d3nom, phi_nom=o.phi, meanphi=o.meanphi)
        else:
            e.update(d2_nom=o.d2nom, d3_nom=o.d3nom, n=o.n, weight_re=o.weightr,
                     weight_im=o.weighti)
        if L == 'NNN':
            e['DDD'] = o.weight if o.bin_type != 'LogMultipole' else np.abs(o.weight)
            if o.zeta is not None:
                e['zeta'] = o.zeta
                e['sigma_zeta'] = np.sqrt(o.varzeta)
            for k, r in R.items():
                e[k.upper()] = r.weight * (o.tot / r.tot)
        else:
            if o.bin_type != 'LogMultipole':
                e['weight'] = o.weight
            if L == 'KKK':
                if o.bin_type == 'LogMultipole':
                    e.update(zeta_re=o.zeta.real, zeta_im=o.zeta.imag)
                else:
                    e['zeta'] = o.zeta
                e['sigma_zeta'] = np.sqrt(o.varzeta)
            else:
                for k in ('gam0', 'gam1', 'gam2', 'gam3'):
                    e[k + 'r'] = getattr(o, k).real
                    e[k + 'i'] = getattr(o, k).imag
                    e['sigma_' + k] = np.sqrt(getattr(o, 'var' + k))
    main = 'main' if kw.get('write_patch_results') or kw.get('write_cov') else None
    got = read_columns(fn, fmt, main)
    mon.equal('columns of the file', sorted(got), sorted(e))
    for k in e:
        if k in got:
            mon.count('columns')
            g = got[k]
            if fmt == 'ASCII':
                g = g[:e[k].size]
            mon.close('column ' + k, g, np.asarray(e[k]).ravel(), 1e-300, rtol=2 * tol + 1e-15)
