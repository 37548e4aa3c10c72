"""C22: low-memory processing keeps at most the needed patches loaded; field caches stay bounded."""
import gc
import itertools
import logging
import os
import shutil
import sys
import tracemalloc
import weakref
from collections import OrderedDict
import numpy as np
from vlib import gen
from checks import three, two
from checks.c06 import subset, labels, col_kw, multipole, centers
from checks.c20 import snap_corr, close_snap

RULE = ('Random patched runs with low_mem=True (every statistic, bin type and metric; auto and cross; '
        'global and local; patches as separate files, as saved patch files, as one file with '
        'centers or a patch column; missing patch numbers; unequal numbers of patches) under a '
        'profiler hook that counts, at every call and return inside the package, how many patches '
        'have their data loaded and how many fields of them are alive; afterwards everything must '
        'be unloaded and the result equal the run without low_mem.  Random histories of field '
        'requests, resizing, clearing, loading and unloading on catalogs, and of calls of '
        'LRU_Cache itself, are replayed against a least-recently-used model.  Large patches give '
        'the memory left over, from the allocator.  Non-trivial: at least three patches were '
        'loaded in turn and the configuration signature is distinct, or the cache evicted.')
ASSUMPTIONS = ['a catalog whose patch numbers are a column of one file has to be loaded once to '
               'learn them; that parent is not counted as a patch']
MIN_EVENTS = dict(runs=200, loads=3000, profile_events=100000, evictions=500, reloads=100)

FORMS = ['files', 'files', 'savedir', 'savedir', 'centers', 'column', 'read']


def cases(tier, seed):
    q = gen.prng('C22', seed)
    out = []
    n = 700 if tier == 'quick' else 9000
    for i in range(n):
        m = i % 10
        if m < 3:
            c = gen.two_point_case(q, '2pt', sizes=(12, 30, 50))
            c['letters'] = q.choice(gen.LETTERS2)
            if c['auto'] and c['letters'][0] != c['letters'][1]:
                c['letters'] = q.choice(['NN', 'KK', 'ZZ', 'VV', 'GG', 'TT', 'QQ'])
            c['ncat'] = 1 if c['auto'] else 2
        elif m < 7:
            c = three.case(q, '3pt', ['LogRUV', 'LogSAS', 'LogSAS', 'LogMultipole'], (10, 16))
            c['algo'] = q.choice([None, 'triangle', 'multipole'])
            if c['bin_type'] == 'LogRUV':
                c['algo'] = q.choice([None, 'triangle'])
            if c['bin_type'] == 'LogMultipole':
                c['algo'] = None
        else:
            out.append(dict(tag='cache' if m == 7 else 'lru' if m == 8 else 'reload',
                            seed=q.randrange(2 ** 31)))
            continue
        c['npatch'] = q.choice([1, 2, 3, 4, 4, 5, 6])
        c['scheme'] = q.choice(['random', 'spatial', 'spatial', 'gaps', 'each'])
        c['form'] = [q.choice(FORMS) for _ in range(3)]
        c['single'] = [q.random() < 0.12 for _ in range(3)]     # unpatched
        c['local'] = q.choice([None, None, 'global', 'local'])
        c['threads'] = 1
        c['split'] = q.random() < 0.15        # two calls
        c['thr'] = q.choice([1, 1, 2])
        out.append(c)
    for i in range(6 if tier == 'quick' else 40):
        out.append(dict(tag='residual', seed=q.randrange(2 ** 31)))
    return out


def run(c, mon):
    import treecorr
    logging.disable(logging.CRITICAL)
    scratch = os.path.join(os.environ['VERIF_SCRATCH'], 'c22')
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        globals()['run_' + {'2pt': 'process', '3pt': 'process'}.get(c['tag'], c['tag'])](
            treecorr, c, mon, scratch)
    finally:
        sys.setprofile(None)
        shutil.rmtree(scratch, ignore_errors=True)


def deliver(treecorr, D, c, K, form, d, single):
    """A catalog (or list) whose patches are backed by files."""
    r = np.random.RandomState((c['seed'] + K) % (2 ** 32))
    os.makedirs(d)
    fn = os.path.join(d, 'all.fits')
    ck = col_kw(D)
    if np.all(D.w[D.w != 0] == 1):
        ck.pop('w_col', None)
    if single or K == 1:
        D.catalog(treecorr).write(fn)
        return treecorr.Catalog(fn, **ck)
    lab = labels(D, c, r, K)
    if form == 'centers':
        cen = c['_centers']
        D.catalog(treecorr).write(fn)
        kw = dict(patch_centers=cen)
        if r.rand() < 0.5:
            kw['save_patch_dir'] = os.path.join(d, 'p')
            os.makedirs(kw['save_patch_dir'])
        return treecorr.Catalog(fn, **dict(ck, **kw))
    if form == 'files':
        out = []
        for k in range(K):
            m = np.flatnonzero((lab == k) & (D.w != 0))
            if len(m) == 0:
                continue
            f = os.path.join(d, 'f%d.fits' % k)
            treecorr.Catalog(**subset(D, m)).write(f)
            out.append(treecorr.Catalog(f, patch=k, npatch=K, **ck))
        return out
    if form == 'column':
        D.catalog(treecorr, patch=lab).write(fn)
        return treecorr.Catalog(fn, patch_col='patch', **ck)
    sub = os.path.join(d, 'p')
    os.makedirs(sub)
    cat = D.catalog(treecorr, patch=lab, save_patch_dir=sub)
    if form == 'read':
        cat.write_patches()
        cat = D.catalog(treecorr, patch=lab)
        cat.read_patches(sub)
    return cat


class IdSet(object):
    """Weak set by identity."""

    def __init__(self, items=()):
        self.d = {}
        for x in items:
            self.add(x)

    def add(self, x):
        k = id(x)
        self.d[k] = weakref.ref(x, lambda _, k=k, d=self.d: d.pop(k, None))

    def __iter__(self):
        return iter([x for x in (r() for r in list(self.d.values())) if x is not None])

    def __len__(self):
        return len(self.d)


class Watch(object):
    """Profiler hook: patches loaded and fields alive at every event in the package."""

    def __init__(self, treecorr, patches):
        self.root = os.path.dirname(treecorr.__file__)
        self.Field = treecorr.field.Field
        self.Catalog = treecorr.Catalog
        self.patches = IdSet(patches)
        self.fields = IdSet()
        self.state = frozenset()
        self.max_loaded = self.max_fields = self.loads = self.events = 0
        self.where = None
        self.seen = set()

    def note(self, x):
        if isinstance(x, self.Catalog) and x.file_name is not None and \
                getattr(x, '_single_patch', None) is not None and x.npatch > 1:
            self.patches.add(x)
        elif isinstance(x, self.Field):
            self.fields.add(x)

    def __call__(self, frame, event, arg):
        if event not in ('call', 'return'):
            return
        code = frame.f_code
        if not code.co_filename.startswith(self.root):
            return
        self.events += 1
        if event == 'return' and code.co_name == '__init__':
            self.note(frame.f_locals.get('self'))
        now = frozenset(id(p) for p in self.patches if p._x is not None and len(p._x) > 0)
        new = now - self.state
        self.loads += len(new)
        self.seen |= new
        self.state = now
        if len(now) > self.max_loaded:
            self.max_loaded = len(now)
            self.where = (os.path.basename(code.co_filename), code.co_name)
        if len(self.fields) > self.max_fields:
            self.max_fields = len(self.fields)

    def __enter__(self):
        sys.setprofile(self)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)


def all_patches(x):
    if isinstance(x, list):
        return x
    return x.get_patches(low_mem=True)


def npatch_of(x):
    if isinstance(x, list):
        return x[0].npatch if x[0].npatch != 1 else len(x)
    return x.npatch


def run_process(treecorr, c, mon, scratch):
    c = dict(c)
    if c['tag'] == '2pt':
        D1, D2, bins, kw, period, rp = gen.resolve(c)
        Ds = [D1] if D2 is None else [D1, D2]
        letters = c['letters']
        cls = two.corr_class(treecorr, letters)
        opt = dict(metric=kw.pop('metric'))
        need = 2
    else:
        Ds, bins, kw, period = three.resolve(c)
        letters = c['letters']
        cls = getattr(treecorr, letters + 'Correlation')
        opt = dict(metric=c['metric'], algo=c['algo'])
        if len(Ds) > 1:
            opt['ordered'] = c['ordered']
        if c['bin_type'] == 'LogSAS' and multipole(c):
            opt['max_n'] = c['max_n'] + 1
        need = 3
    if c['local'] and not (c['tag'] == '3pt' and multipole(c) and c['local'] == 'global'):
        opt['patch_method'] = c['local']
    kw['split_method'] = 'mean'
    local = opt.get('patch_method') == 'local' or c['bin_type'] == 'LogMultipole' or \
        (c['tag'] == '3pt' and multipole(c))
    # the same number of patches everywhere
    K = c['npatch']
    forms = list(c['form'])
    c['_centers'] = centers(c, Ds[0])
    if 'centers' in forms[:len(Ds)]:
        forms = ['centers'] * 3
        K = len(c['_centers'])
    kept = min(int(np.sum(D.w != 0)) for D in Ds)
    if c['scheme'] == 'each':
        K = min(K, kept)
    if K > kept or K == 1:
        return mon.count('too_small')
    single = c['single'] if len(Ds) > 1 else [False]
    build = lambda tag: [deliver(treecorr, D, c, K, forms[i], os.path.join(scratch, tag + str(i)),
                                 single[i]) for i, D in enumerate(Ds)]
    args = build('a')
    ns = [npatch_of(x) for x in args]
    if len(set(n for n in ns if n > 1)) > 1:
        return mon.count('unmatched_patches')
    corr = cls(**kw)
    early = c['thr'] == 2 or any(f in ('savedir', 'column') for f in forms)
    patches = [p for x in args if npatch_of(x) > 1 for p in all_patches(x)] if early else []
    for p in patches:
        if p.file_name is not None:
            p.unload()
    for x in args:
        if isinstance(x, list):
            patches.extend(x)
    patches = list({id(p): p for p in patches if p.file_name is not None}.values())
    w = Watch(treecorr, patches)
    gc.collect()
    with w:
        corr.process(*args, low_mem=True, num_threads=c['thr'], **opt)
    # a catalog with only one patch is like an unpatched one
    patches = list({id(p): p for x in args if npatch_of(x) > 1 and len(all_patches(x)) > 1
                    for p in all_patches(x)}.values())
    patches = [p for p in patches if p.file_name is not None]
    mon.cover('patches_made', 'before' if early else 'in process')
    mon.count('runs')
    mon.count('loads', w.loads)
    mon.count('profile_events', w.events)
    mon.count('patches', len(w.patches))
    det = dict(max_loaded=w.max_loaded, at=w.where, patches=len(w.patches), forms=forms[:len(Ds)],
               single=single, local=c['local'], npatch=[npatch_of(x) for x in args])
    mon.check(w.max_loaded <= need, 'more than %d patches loaded at once' % need, **det)
    # fields: one of each kind the statistic uses for every loaded patch, plus the one being built
    # (temporary catalogs of local processing are garbage with their fields, not cached)
    kinds = len(set(letters))
    mon.check(local or w.max_fields <= need * kinds + 2,
              'fields of many patches alive at once', fields=w.max_fields, kinds=kinds, **det)
    left = [i for i, p in enumerate(patches) if p.file_name is not None and p.loaded and
            len(p.x) > 0]
    mon.check(not left, 'patches left loaded after processing', left=left, **det)
    pset = set(id(p) for p in patches if p.file_name is not None)
    if len(w.fields) > 0:
        gc.collect()
    alive = sum(len(getattr(p, k).values()) for p in patches if id(p) in pset
                for k in ('nfields', 'kfields', 'zfields', 'vfields', 'gfields', 'tfields',
                          'qfields'))
    mon.check(alive == 0, 'cached fields left after processing', n=alive, **det)
    args2 = build('b')
    for x in args2:
        if not isinstance(x, list):
            x.get_patches()
    ref = cls(**kw)
    ref.process(*args2, low_mem=False, num_threads=c['thr'], **opt)
    sa, sb = snap_corr(corr), snap_corr(ref)
    if 'centers' in forms:
        # patches without objects are skipped or give empty results
        sa['keys'] = sb['keys'] = None
    if c['tag'] == '3pt' and multipole(c):
        # bins without triangles hold rounding noise
        noise = np.abs(ref.weight) < 1e-12 * max(np.max(np.abs(ref.weight)), 1.)
        for s in (sa, sb):
            for k, v in s.items():
                if isinstance(v, np.ndarray) and v.shape == noise.shape:
                    s[k] = np.where(noise, 0, v)
    for k in ('npairs', 'ntri', 'keys'):
        if sa.get(k) is not None and not (k == 'ntri' and sa[k].dtype.kind != 'i' and multipole(c)):
            mon.check(np.array_equal(sa[k], sb.get(k)), 'low_mem changes ' + k, got=sa[k], want=sb.get(k))
    if c['thr'] == 1 and c['coords'] != 'spherical' and c.get('style') != 'radecr':
        for k in sorted(set(sa) | set(sb)):
            if isinstance(sa.get(k), np.ndarray):
                mon.equal('low_mem changes ' + k, sa[k], sb[k])
    else:
        close_snap(mon, 'low_mem', sb, sa)
    if c['split']:
        # a second call adds to it and again leaves nothing loaded
        w2 = Watch(treecorr, [p for p in patches if p.file_name is not None])
        again = cls(**kw)
        with w2:
            again.process(*args, low_mem=True, num_threads=c['thr'], **opt)
        mon.count('loads', w2.loads)
        mon.check(w2.max_loaded <= need, 'more than %d patches loaded at once (again)' % need, **det)
        mon.check(not [1 for p in patches if p.file_name is not None and p.loaded and
            len(p.x) > 0],
                  'patches left loaded after processing again', **det)
        mon.check(np.array_equal(again.weight, corr.weight) or c['thr'] > 1,
                  'second low_mem run differs')
    for k in ('coords', 'metric', 'bin_type', 'letters', 'scheme', 'local', 'ncat'):
        mon.cover(k, c[k])
    for f in forms[:len(Ds)]:
        mon.cover('form', f)
    mon.cover('max_loaded', (need, w.max_loaded))
    mon.cover('npatch', K)
    if len(w.seen) >= 3:
        mon.nontrivial((c['bin_type'], letters, c['coords'], c['metric'], c['ncat'],
                        c.get('ordered'), c['scheme'], tuple(forms[:len(Ds)]), tuple(single),
                        c['local'], K, c.get('algo')))


# -- caches

KINDS = 'NKZVGTQ'


def run_lru(treecorr, c, mon, scratch):
    q = gen.prng('lru', c['seed'])
    calls = []

    class Value(object):
        pass

    def func(*args, **kw):
        calls.append(args)
        if args and args[0] == 'boom':
            raise KeyError('boom')
        return Value()
    start = q.choice([0, 1, 1, 2, 3, 5, 8])
    cache = treecorr.util.LRU_Cache(func, start)
    size = cache.size
    mon.check(size == start, 'initial size', got=size, want=start)
    model = OrderedDict()
    refs = {}
    pool = [(i,) for i in range(q.choice([2, 4, 10]))] + [(), (1, 'x'), ('x', None), ((1, 2),)]
    for step in range(q.choice([10, 40, 150])):
        op = q.choice(['call'] * 8 + ['resize', 'resize', 'clear', 'bad', 'boom'])
        if op == 'call':
            key = q.choice(pool)
            before = len(calls)
            v = cache(*key, logger=q.choice([None, 1]))
            if key in model:
                mon.check(len(calls) == before, 'cached call evaluated again', key=key)
                mon.check(refs[key]() is v, 'cached call returned another value', key=key)
                model.move_to_end(key)
            else:
                mon.check(len(calls) == before + 1, 'uncached call not evaluated once', key=key)
                model[key] = True
                refs[key] = weakref.ref(v)
                while len(model) > size:
                    model.popitem(last=False)
                    mon.count('evictions')
            if size:
                mon.check(cache.last_value is v, 'last_value is not the last value')
            v = None
        elif op == 'boom':
            try:
                cache('boom')
                mon.fail('exception of the function lost')
            except KeyError:
                pass
        elif op == 'resize':
            new = q.choice([0, 1, 2, 3, 5, 9, size, len(model)])
            cache.resize(new)
            size = new
            while len(model) > size:
                model.popitem(last=False)
                mon.count('evictions')
        elif op == 'clear':
            cache.clear()
            model.clear()
        else:
            mon.raises('negative size', ValueError, lambda: cache.resize(-q.choice([1, 3])))
        mon.check(cache.size == size, 'size', got=cache.size, want=size, op=op)
        mon.check(cache.count == len(model), 'count', got=cache.count, want=len(model), op=op)
        live = [k for k, ref in refs.items() if ref() is not None]
        mon.check(sorted(map(repr, live)) == sorted(map(repr, model)), 'values kept alive',
                  got=live, want=list(model), op=op, step=step)
        vals = cache.values()
        mon.check(len(vals) == len(model) and set(map(id, vals)) == set(id(refs[k]()) for k in model),
                  'values()', op=op)
        vals = None
        if size and model:
            mon.check(cache.last_value is refs[next(reversed(model))](), 'last_value', op=op)
        elif not model:
            mon.check(cache.last_value is None, 'last_value of an empty cache', op=op)
    mon.count('lru_histories')
    mon.nontrivial(('lru', c['seed']))


def run_cache(treecorr, c, mon, scratch):
    q = gen.prng('cache', c['seed'])
    coords = q.choice(['flat', 'spherical', '3d'])
    n = q.choice([5, 20, 60])
    D = gen.Data(c['seed'], coords, n, gen.GEOM[coords][0], q.choice(['none', 'dyadic']))
    backed = q.random() < 0.5
    cat = D.catalog(treecorr)
    if backed:
        fn = os.path.join(scratch, 'c.fits')
        cat.write(fn)
        ck = col_kw(D)
        if 'w' not in D.kw:
            ck.pop('w_col', None)
        cat = treecorr.Catalog(fn, **ck)
    size = {k: 1 for k in KINDS}
    model = {k: OrderedDict() for k in KINDS}
    refs = {k: {} for k in KINDS}
    last = None
    made = 0
    ops = ['get'] * 8 + ['resize', 'resize1', 'clear', 'unload', 'load', 'process', 'hold', 'drop']
    held = []
    pool = [dict(), dict(min_size=0.1), dict(min_size=0.1, max_size=0.5), dict(max_top=3),
            dict(split_method='median'), dict(brute=True), dict(min_top=2, max_top=4),
            dict(split_method='middle')]

    def gone(order, kind, key):
        del order[key]

    for step in range(q.choice([6, 20, 50])):
        op = q.choice(ops)
        if op in ('get', 'hold'):
            kind = q.choice(KINDS[:q.choice([1, 2, 7])])
            kw = q.choice(pool)
            f = getattr(cat, 'get%sField' % kind)(logger=None, **kw)
            key = repr(sorted(kw.items()))
            mon.check(isinstance(f, getattr(treecorr.field, kind + 'Field')), 'kind of field')
            mon.check(cat.field is f, 'cat.field is not the latest field')
            m = model[kind]
            if key in m:
                mon.check(refs[kind][key]() is f, 'cached field not reused', kind=kind, kw=kw, step=step,
                          size=size[kind])
                m.move_to_end(key)
            else:
                made += 1
                old = refs[kind].get(key)
                mon.check(old is None or old() is not f, 'uncached field reused', kind=kind, kw=kw)
                m[key] = True
                refs[kind][key] = weakref.ref(f)
                while len(m) > size[kind]:
                    m.popitem(last=False)
                    mon.count('evictions')
            last = weakref.ref(f)
            if op == 'hold':
                held.append(f)
            f = None
        elif op == 'drop':
            held = []
        elif op == 'resize':
            k = q.choice([0, 1, 2, 3, 5])
            cat.resize_cache(k)
            for kind in KINDS:
                size[kind] = k
        elif op == 'resize1':
            kind = q.choice(KINDS)
            k = q.choice([0, 1, 2, 4])
            getattr(cat, kind.lower() + 'fields').resize(k)
            size[kind] = k
        elif op == 'clear':
            cat.clear_cache()
            for m in model.values():
                m.clear()
            last = None
        elif op == 'unload':
            cat.unload()
            for m in model.values():
                m.clear()
            last = None
            mon.check(cat.loaded == (not backed), 'loaded after unload', backed=backed)
        elif op == 'load':
            cat.load()
            mon.check(cat.loaded, 'loaded after load')
        elif op == 'process':
            L = q.choice(['NN', 'KK', 'GG', 'NG', 'KV'])
            kw = dict(min_sep=0.1, max_sep=1., nbins=3, bin_slop=1)
            a = two.corr_class(treecorr, L)(**kw)
            a.process(cat) if L[0] == L[1] else a.process(cat, cat)
            b = two.corr_class(treecorr, L)(**kw)
            fresh = D.catalog(treecorr)
            b.process(fresh) if L[0] == L[1] else b.process(fresh, fresh)
            if coords == 'flat':
                mon.equal('result with cached fields', a.weight, b.weight)
            # what it left in the caches is not modelled; start again from nothing
            cat.clear_cache()
            last = fresh = None
            a = b = None
            for m in model.values():
                m.clear()
            mon.count('cache_runs')
        for kind in KINDS:
            while len(model[kind]) > size[kind]:
                model[kind].popitem(last=False)
                mon.count('evictions')
        heldids = set(map(id, held))
        for kind in KINDS:
            live = [k for k, ref in refs[kind].items() if ref() is not None
                    and (k in model[kind] or id(ref()) not in heldids)]
            mon.check(sorted(live) == sorted(model[kind]), 'fields kept alive', kind=kind, op=op,
                      got=live, want=list(model[kind]), size=size[kind], step=step)
            mon.check(len(live) <= size[kind], 'more fields than the cache size', kind=kind)
        mon.count('cache_steps')
        mon.cover('cache_op', op)
        mon.check(cat.field is (last() if last else None), 'cat.field', op=op)
    mon.count('cache_histories')
    mon.cover('cache_backed', backed)
    mon.nontrivial(('cache', c['seed']))


COLS = ['x', 'y', 'z', 'ra', 'dec', 'r', 'w', 'wpos', 'k', 'z1', 'z2', 'v1', 'v2', 'g1', 'g2', 't1',
        't2', 'q1', 'q2', 'patch']


def facts(cat, order):
    out = {}
    for k in order:
        if k == 'var':
            out[k] = [cat.vark, cat.varz, cat.varv, cat.varg, cat.vart, cat.varq]
        elif k in ('sumw', 'sumw2', 'ntot', 'nobj', 'npatch', 'coords', 'name'):
            out[k] = getattr(cat, k)
        elif k == 'patch_centers':
            out[k] = np.array(cat.patch_centers) if cat.npatch > 1 and \
                len(set(cat.patch)) == cat.npatch else None
        else:
            v = getattr(cat, k)
            out[k] = np.array(v) if v is not None else None
    return out


def run_reload(treecorr, c, mon, scratch):
    q = gen.prng('reload', c['seed'])
    coords = q.choice(['flat', 'spherical', '3d'])
    n = q.choice([3, 20, 60])
    D = gen.Data(c['seed'], coords, n, gen.GEOM[coords][0], q.choice(['none', 'dyadic', 'zeros']),
                 style=q.choice(['xyz', 'radecr']))
    K = q.choice([1, 1, 2, 3])
    r = np.random.RandomState(c['seed'])
    lab = r.randint(0, K, n)
    ok = np.flatnonzero(D.w != 0)
    lab[ok[0]] = K - 1
    ext = q.choice(['.fits', '.hdf5', '.dat'])
    fn = os.path.join(scratch, 'r' + ext)
    D.catalog(treecorr, patch=lab, keep_zero_weight=True).write(fn)
    ck = col_kw(D)
    if np.all(D.w[D.w != 0] == 1):
        ck.pop('w_col', None)
    if K > 1 and all(np.any(D.w[lab == k] != 0) for k in np.unique(lab)):
        ck['patch_col'] = 'patch'
    if q.random() < 0.3:
        ck['keep_zero_weight'] = True
    if q.random() < 0.3:
        ck['every_nth'] = q.choice([1, 2])
        ck['first_row'] = q.choice([1, 2])
        if q.random() < 0.5:
            ck['last_row'] = n
        if np.sum((D.w != 0)[ck['first_row'] - 1::ck['every_nth']]) == 0 or 'patch_col' in ck:
            for k in ('every_nth', 'first_row', 'last_row'):
                ck.pop(k, None)
    if q.random() < 0.3:
        ck['flip_g1'] = True
    fresh = lambda: treecorr.Catalog(fn, **ck)
    order = COLS + ['var', 'sumw', 'sumw2', 'ntot', 'nobj', 'npatch', 'coords', 'patch_centers']
    want = facts(fresh(), order)
    cat = fresh()
    mon.check(not cat.loaded, 'a catalog that was only declared is loaded')
    for step in range(q.choice([2, 5, 9])):
        op = q.choice(['unload', 'unload', 'load', 'fields', 'patches', 'lowpatches', 'nothing'])
        if op == 'unload':
            cat.unload()
            mon.check(not cat.loaded, 'loaded after unload')
            held = [k for k, v in cat.__dict__.items() if isinstance(v, np.ndarray)
                    and v.size >= max(n // 2, 8) and k not in ('_centers', '_computed_centers')]
            mon.check(not held, 'arrays kept by an unloaded catalog', names=held)
        elif op == 'load':
            cat.load()
        elif op == 'fields':
            cat.getNField()
            cat.getGField()
        elif op == 'patches':
            ps = cat.get_patches()
            [p.x for p in ps]
        elif op == 'lowpatches':
            ps = cat.get_patches(low_mem=True)
            [p.sumw for p in ps]
        o = list(order)
        q.shuffle(o)
        o = o[:q.choice([1, 4, len(o)])]
        got = facts(cat, o)
        for k in o:
            if isinstance(want[k], np.ndarray) and isinstance(got[k], np.ndarray):
                mon.equal('%s after %s' % (k, op), got[k], want[k])
            else:
                mon.check(np.array_equal(np.array(got[k], dtype=object),
                                         np.array(want[k], dtype=object)),
                          '%s after %s' % (k, op), got=got[k], want=want[k])
        mon.count('reloads')
    mon.nontrivial(('reload', ext, coords, K, c['seed'] % 7))


def run_residual(treecorr, c, mon, scratch):
    """Memory that stays allocated, and the peak, for patches of some size."""
    q = gen.prng('residual', c['seed'])
    K = q.choice([5, 6, 8])
    n = 6000
    L = q.choice(['NN', 'KK', 'GG', 'KG', 'NK'])
    cross = L[0] != L[1] or q.random() < 0.5
    r = np.random.RandomState(c['seed'])
    ncol = 6

    def make(tag):
        out = []
        for k in range(K):
            f = os.path.join(scratch, '%s%d.fits' % (tag, k))
            treecorr.Catalog(x=r.uniform(k, k + 1, n), y=r.uniform(0, 1, n), k=r.normal(0, 1, n),
                             g1=r.normal(0, 1, n), g2=r.normal(0, 1, n),
                             w=r.uniform(0.5, 1, n)).write(f)
            out.append(treecorr.Catalog(f, x_col='x', y_col='y', k_col='k', g1_col='g1',
                                        g2_col='g2', w_col='w', patch=k, npatch=K))
        return out
    a = make('a')
    b = make('b') if cross else None
    kw = dict(min_sep=0.1, max_sep=2., nbins=3, bin_slop=2)
    # imports, caches of the file library and so on
    w = two.corr_class(treecorr, L)(**kw)
    w.process(*([a] if b is None else [a, b]), low_mem=True, num_threads=4)
    gc.collect()
    corr = two.corr_class(treecorr, L)(**kw)
    tracemalloc.start()
    try:
        base = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
        corr.process(*([a] if b is None else [a, b]), low_mem=True, num_threads=4)
        peak = tracemalloc.get_traced_memory()[1] - base
        gc.collect()
        left = tracemalloc.get_traced_memory()[0] - base
    finally:
        tracemalloc.stop()
    patch = n * 8 * ncol
    mon.count('residual_runs')
    mon.check(left < 0.5 * patch, 'memory left after low_mem processing', left=left, patch=patch,
              letters=L, cross=cross)
    # two patches, what reading one more costs (the raw table and the converted columns), and
    # the masks; all of them together would be at least 5 patches
    mon.check(peak < 4.5 * patch,
              'peak memory of low_mem processing', peak=peak, patch=patch, patches=peak / patch,
              letters=L, cross=cross)
    mon.cover('peak_in_patches', round(peak / patch, 1))
    mon.cover('left_in_patches', round(left / patch, 2))
    mon.nontrivial(('residual', L, cross, K))
