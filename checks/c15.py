"""C15: random histories of operations on correlation objects sharing catalogs.  Every object is
compared with a replay of its own history on fresh objects and catalogs; objects that an operation
does not concern and the catalogs must be unchanged to the last bit."""
import copy
import gc
import os
import pickle
import numpy as np
from vlib import gen
from checks.c20 import snap_cat, ARR2, ARR3

VARIANTS = ['o3']
RULE = ("after any history of process (whole, incremental, low level), +=, copy, pickle, clear, "
        "randoms, covariance, output and cache operations, each object equals the replay of its own "
        "history (cut at the last clear or initialising process; copies and queries left out) on "
        "fresh catalogs; += and incremental calls add sums; nothing else changes by a bit")
ASSUMPTIONS = ["LogSAS with the multipole algorithm is only processed in one go "
               "(finding C06-sas-incremental)",
               "all catalogs of a history use the same patch centers or none"]
MIN_EVENTS = dict(steps=4000, replays=4000, bystanders=10000, copies=500, iadds=250, incremental=400,
                  queries=500, covariances=300)
CASE_TIMEOUT = 240
LET = gen.LETTERS2


def cases(tier, seed):
    q = gen.prng('C15', seed)
    n = 420 if tier == 'quick' else 6000
    out = []
    for i in range(n):
        three_ = i % 3 == 2
        c = dict(seed=q.randrange(2 ** 31), three=three_, steps=q.choice([8, 14, 20]),
                 letters=q.choice(['NNN', 'NNN', 'KKK', 'GGG']) if three_ else
                 q.choice(LET + ['NN'] * 6),
                 coords=q.choice(['flat', 'flat', 'spherical', '3d']),
                 npatch=q.choice([0, 0, 2, 3]))
        c['bin_type'] = q.choice(['LogRUV', 'LogSAS', 'LogSASm', 'LogMultipole']) if three_ else \
            q.choice(['Log', 'Log', 'Linear'] + (['TwoD'] if c['coords'] == 'flat' else []))
        out.append(c)
    return out


class World(object):
    """The catalogs (fresh ones for every replay)."""

    def __init__(self, c, treecorr):
        self.c, self.treecorr = c, treecorr
        r = np.random.RandomState(c['seed'] % (2 ** 32))
        q = gen.prng('world', c['seed'])
        n = (4, 9) if c['three'] else (8, 40)
        geom = {'flat': 'cluster', 'spherical': 'cap', '3d': 'cube'}[c['coords']]
        geom = geom if geom in gen.GEOM[c['coords']] else gen.GEOM[c['coords']][0]
        self.cats = []
        for k in range(4):
            D = gen.Data(c['seed'] + 17 * k, c['coords'], r.randint(*n), geom,
                         weights=q.choice(['none', 'real', 'real', 'zeros']))
            kw = {}
            if c['npatch']:
                kw = dict(patch=r.randint(0, c['npatch'], D.n), npatch=c['npatch'])
                kw['patch'][0] = c['npatch'] - 1
            if c['npatch'] and 'w' in D.kw:
                D.kw['w'] = D.kw['w'] + 0.25
            self.cats.append(D.catalog(treecorr, **kw))
        p = D.p
        ext = np.max(np.ptp(p, axis=0))
        if c['three']:
            b = dict(min_sep=0.1 * ext, max_sep=1.5 * ext, nbins=3)
            bt = c['bin_type']
            b['bin_type'] = bt.replace('LogSASm', 'LogSAS')
            if bt == 'LogRUV':
                b.update(nubins=2, nvbins=2)
            elif bt == 'LogMultipole':
                b.update(max_n=3)
            else:
                b.update(nphi_bins=4)
        else:
            b = dict(min_sep=0.1 * ext, max_sep=1.5 * ext, nbins=4, bin_type=c['bin_type'])
            if c['bin_type'] == 'TwoD':
                del b['min_sep']
        b['num_threads'] = 1
        q = gen.prng('conf', c['seed'])
        b['bin_slop'] = q.choice([0, 0.5, None])
        if b['bin_slop'] is None:
            del b['bin_slop']
        if c['npatch']:
            b['var_method'] = q.choice(['shot', 'jackknife', 'sample'])
        self.kw = b
        self.cls = getattr(treecorr, c['letters'] + 'Correlation')

    def new(self):
        return self.cls(**self.kw)


def mass(o):
    return o.weightr if hasattr(o, 'ntri') else o.weight


def arrays(o):
    s = {}
    for k in (ARR3 if hasattr(o, 'ntri') else ARR2):
        if k == 'meanv' and getattr(o, 'bin_type', '') != 'LogRUV':
            continue
        if k == 'weighti' and getattr(o, 'bin_type', '') != 'LogMultipole':
            continue
        a = getattr(o, k, None)
        if a is not None:
            s[k] = np.array(a)
    if hasattr(o, 'tot'):
        s['tot'] = np.array(o.tot)
    return s


VARS = ['varxi', 'varxip', 'varxim', 'raw_varxi', 'varzeta', 'vargam0', 'vargam1', 'vargam2',
        'vargam3', 'xi', 'raw_xi', 'xi_im', 'raw_xi_im', 'zeta', '_rr_weight', '_rrr_weight']


def state(o, final=True):
    s = arrays(o)
    s['coords'], s['metric'] = str(o.coords), str(o.metric)
    s['npatch'] = (o.npatch1, o.npatch2, getattr(o, 'npatch3', 0))
    for ij, x in o.results.items():
        a = arrays(x)
        if np.any(mass(x)) or hasattr(x, 'tot'):
            if hasattr(x, 'tot') and not np.any(mass(x)):
                if x.tot == 0:
                    continue         # placeholders
                a = dict(tot=a['tot'])
            for k, v in a.items():
                s['results %s %s' % (ij, k)] = v
    if final:
        for k in VARS:
            try:
                a = getattr(o, k, None)
            except Exception as e:
                a = type(e).__name__
            if a is not None:
                s[k] = np.array(a)
    return s


def bits(o):
    s = state(o, False)
    for k in VARS:
        for k in (k, '_' + k):
            if isinstance(o.__dict__.get(k), np.ndarray):
                s[k] = o.__dict__[k].copy()
    s['cfg'] = str(sorted((k, str(v)) for k, v in o.config.items()))
    if o.__dict__.get('_cov') is not None:
        s['_cov'] = np.array(o._cov)
    for nm in ('_rr', '_dr', '_rd', '_rrr', '_drr', '_rdd'):
        x = getattr(o, nm, None)
        if x is not None:
            s[nm] = np.array(mass(x))
            s[nm + 'tot'] = x.tot
    return s


def same_bits(mon, what, a, b):
    mon.count('bystanders')
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            ok = x.shape == y.shape and x.dtype == y.dtype and x.tobytes() == y.tobytes()
        else:
            ok = x is y or (type(x) is type(y) and x == y)
        if not ok:
            mon.fail('%s: %s changed' % (what, k.split(' ')[0]), key=k, before=x, after=y)
            return


def group(k):
    k = k.split(' ')[-1]
    for p in ('_xi', '_z', 'weight'):
        if k.startswith(p):
            return p
    return k


def close_states(mon, what, got, want, tol=1e-9):
    mon.count('states_compared')
    big = {}
    for s in (got, want):
        for k, x in s.items():
            if isinstance(x, np.ndarray) and x.dtype.kind in 'fc' and x.size:
                v = np.max(np.abs(x[np.isfinite(x)]), initial=0.)
                big[group(k)] = max(big.get(group(k), 0), v)
    for k in sorted(set(got) | set(want)):
        x, y = got.get(k), want.get(k)
        if isinstance(x, float):
            x = np.asarray(x)
        if isinstance(y, float):
            y = np.asarray(y)
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.dtype.kind in 'fc' and \
                x.shape == y.shape:
            t = 0. if k.split(' ')[-1] in ('npairs',) else tol * big.get(group(k), 0)
            ok = np.allclose(x, y, atol=t, rtol=tol, equal_nan=True)
        else:
            ok = x is y or (np.shape(x) == np.shape(y) and bool(np.all(x == y)))
        if not ok:
            mon.fail('%s: %s differs' % (what, k.split(' ')[0] if 'results' in k else k), key=k,
                     got=x, want=y)
            return False
    return True


# Operations.  Each is (name, args...), applied to the object o with the catalogs of w.

def apply(op, o, w):
    name = op[0]
    if name == 'process':
        _, idx, kw, via = op
        cats = [deliver(w.cats[i], via) for i in idx]
        o.process(*cats, **kw)
    elif name == 'low':
        idx = op[1]
        cats = [whole(w, i) for i in idx]
        if len(cats) == 1:
            o.process_auto(cats[0])
        elif len(cats) == 2:
            (o.process_cross12 if w.c['three'] else o.process_cross)(*cats)
        else:
            o.process_cross(*cats)
    elif name == 'finalize':
        o.finalize(*op[1])
    elif name == 'clear':
        o.clear()
    elif name == 'iadd':
        other = replay(op[1], w) if isinstance(op[1], list) else op[1]
        o += other
    elif name == 'rand':
        _, method, kw = op
        kw = {k: (replay(h, w) if isinstance(h, list) else h) for k, h in kw.items()}
        getattr(o, method)(**kw)
    else:
        raise ValueError(name)
    return o


def whole(w, i):
    """The catalog without patches, for the low-level functions."""
    c = w.cats[i]
    if not w.c['npatch']:
        return c
    if not hasattr(w, 'wholes'):
        w.wholes = {}
    if i not in w.wholes:
        d = c.copy()
        d._patch = None
        d._npatch = 1
        d._patches = None
        w.wholes[i] = d
    return w.wholes[i]


def deliver(cat, via):
    if via == 'copy':
        return cat.copy()
    if via == 'pickle':
        return pickle.loads(pickle.dumps(cat))
    if via == 'patches':
        return list(cat.get_patches())
    return cat


def replay(hist, w):
    o = w.new()
    for op in hist:
        apply(op, o, w)
    return o


def strip(hist):
    """The part of the history since the last initialisation."""
    k = 0
    for i, op in enumerate(hist):
        if op[0] == 'clear':
            k = i + 1
        elif op[0] == 'process' and op[2].get('initialize', True):
            k = i
    return hist[k:]


class Item(object):
    def __init__(self, o, hist=(), final=False, kind=None, dirty=False):
        self.o, self.hist, self.final = o, list(hist), final
        self.kind = kind           # how it was processed: number of catalogs
        self.dirty = dirty         # += or low-level calls: no covariance expected


def run(c, mon):
    import treecorr
    q = gen.prng('C15', c['seed'])
    W = World(c, treecorr)
    cats0 = [snap_cat(x) for x in W.cats]
    objs = [Item(W.new())]
    trail = []
    ncat = {1: None}
    for step in range(c['steps']):
        mon.count('steps')
        before = [(it, bits(it.o)) for it in objs]
        touched, lazy = one(c, mon, q, W, objs, trail, treecorr), False
        if trail[-1].startswith('query'):
            lazy = True
        mon.cover('op', trail[-1].split(' ')[0])
        mon.cover('after', '%s>%s' % (trail[-2].split(' ')[0] if len(trail) > 1 else '-',
                                      trail[-1].split(' ')[0]))
        for it, b in before:
            if it is not touched:
                b2 = bits(it.o)
                if lazy:
                    drop(b)
                    drop(b2)
                same_bits(mon, 'after %s, another object' % trail[-1].split(' ')[0], b, b2)
        for i, cat in enumerate(W.cats):
            same_bits(mon, 'after %s, catalog' % trail[-1].split(' ')[0], cats0[i], snap_cat(cat))
        if touched is not None:
            check(c, mon, W, touched, trail)
    for it in objs:
        check(c, mon, W, it, trail, last=True)
    if getattr(mon, 'fails', None) and os.environ.get('TRAIL'):
        print('\n'.join(trail))
    mon.nontrivial((c['letters'], c['bin_type'], c['coords'], c['npatch'],
                    tuple(t.split(' ')[0] for t in trail)))


def check(c, mon, W, it, trail, last=False):
    mon.count('replays')
    V = World(c, W.treecorr)
    it.hist = strip(it.hist)
    ref = replay(it.hist, V)
    a, b = state(it.o, it.final), state(ref, it.final)
    if not it.hist:
        # the coordinates may be remembered
        for s in (a, b):
            for k in ('coords', 'metric'):
                s.pop(k)
    tail = '%s (%s %s, npatch %d)' % (trail[-1].split(' ')[0], c['letters'], c['bin_type'], c['npatch'])
    if not close_states(mon, 'after ' + tail, a, b):
        mon.cover('bad', ' ; '.join(trail))
        return
    if c['npatch'] and it.final and not it.dirty and it.o.results:
        for m in ('jackknife', 'sample'):
            res = []
            for x in (it.o, ref):
                try:
                    res.append(np.array(x.estimate_cov(m)))
                except Exception as e:
                    res.append(type(e).__name__)
            mon.count('covariances')
            if isinstance(res[0], str) or isinstance(res[1], str):
                mon.check(isinstance(res[0], str) and isinstance(res[1], str) and res[0] == res[1],
                          'covariance %s after %s' % (m, tail), got=res[0], want=res[1])
            else:
                s = np.max(np.abs(res[1])) if res[1].size else 0
                mon.close('covariance %s after %s' % (m, tail), res[0], res[1], 1e-7 * s, 1e-7)


def raw(o):
    """The additive sums of an unfinalized object."""
    return arrays(o)


def one(c, mon, q, W, objs, trail, treecorr):
    """Performs a random operation; returns the Item that may have changed (or None)."""
    th = c['three']
    it = q.choice(objs)
    auto_ok = len(set(c['letters'])) == 1
    acc = any(op[0] == 'process' and not op[2].get('finalize', True) for op in it.hist[-1:])
    sasm = c['bin_type'] == 'LogSASm'
    ops = ['process'] * 4 + ['copy'] * 3 + ['query'] * 3 + ['cat'] * 2 + ['clear', 'low', 'del']
    ops += ['incr'] * 4 + ['iadd'] * 3
    if (c['letters'] in ('NN', 'NNN') or (c['letters'][0] == 'N' and not th)) and \
            c['bin_type'] != 'LogMultipole':
        ops += ['rand'] * 4
    op = q.choice(ops)
    if sasm and op in ('incr', 'low'):
        op = 'process'
    if c['bin_type'] == 'LogMultipole' and op == 'low' and c['npatch']:
        op = 'process'
    nc = q.choice([1, 2] if auto_ok and not th else [1, 2, 3] if th else [2])
    idx = [q.randrange(4) for _ in range(nc)]
    if nc > 1 and len(set(idx)) < nc and q.random() < 0.7:
        idx = q.sample(range(4), nc)
    kw = {}
    if th and nc > 1:
        kw['ordered'] = q.random() < 0.6
    if c['npatch'] and q.random() < 0.25 and not (c['bin_type'] == 'LogMultipole'):
        kw['patch_method'] = q.choice(['local', 'global'])
        if c['bin_type'] == 'LogSASm':
            del kw['patch_method']
    if c['bin_type'] == 'LogSAS':
        kw['algo'] = 'triangle'
    via = q.choice(['', '', '', 'copy', 'pickle'] + (['patches'] if c['npatch'] else []))

    if op == 'process':
        o = ('process', idx, kw, via)
        trail.append('process %r %r %s' % (idx, kw, via))
        apply(o, it.o, W)
        it.hist.append(o)
        it.final, it.kind, it.dirty = True, nc, False
        return it
    if op == 'incr':
        mon.count('incremental')
        init = q.random() < 0.3 or it.final and q.random() < 0.7
        fin = q.random() < 0.4
        # Mixing numbers of catalogs is only defined for the sums.
        if not init and it.kind and q.random() < 0.85:
            idx = idx if len(idx) == it.kind else [q.randrange(4) for _ in range(it.kind)]
            if len(idx) == 1:
                kw.pop('ordered', None)
            elif th:
                kw.setdefault('ordered', True)
        k2 = dict(kw, initialize=init, finalize=fin)
        old = raw(it.o)
        o = ('process', idx, k2, via)
        trail.append('incr %r %r %s' % (idx, k2, via))
        apply(o, it.o, W)
        it.hist.append(o)
        if not fin:
            V = World(c, treecorr)
            f = replay([('process', idx, dict(kw, finalize=False), '')], V)
            want = raw(f)
            if not init:
                want = {k: old[k] + v if k in old else v for k, v in want.items()}
            close_states(mon, 'sums after an incremental process (%s %s)'
                         % (c['letters'], c['bin_type']), raw(it.o), want)
        it.dirty = (it.dirty or (it.kind not in (None, len(idx)))) and not init
        it.final, it.kind = fin, len(idx)
        return it
    if op == 'low':
        o = ('low', idx)
        trail.append('low %r' % (idx,))
        apply(o, it.o, W)
        it.hist.append(o)
        it.final, it.dirty = False, True
        finish(c, q, W, it, trail)
        return it
    if op == 'clear':
        trail.append('clear')
        it.o.clear()
        it.hist.append(('clear',))
        it.final, it.kind, it.dirty = False, None, False
        return it
    if op == 'iadd':
        mon.count('iadds')
        other = q.choice(objs)
        h = strip(other.hist)
        if not h:
            # no coordinates yet
            if sasm:
                kw['algo'] = 'triangle'
            h = [('process', idx, dict(kw, finalize=False), '')]
            x = replay(h, W)
        else:
            x = other.o
        trail.append('iadd %s' % ('self' if other is it else 'other'))
        if it.hist and strip(it.hist):
            pass
        old, add = raw(it.o), raw(x)
        bx = bits(x) if x is not it.o else None
        o2 = it.o
        o2 += x
        mon.check(o2 is it.o, '+= made a new object')
        if bx is not None:
            same_bits(mon, 'the object added', bx, bits(x))
        nz = np.any(x.ntri) if th else np.any(x.npairs)
        want = {k: (old[k] + add[k] if nz or k == 'tot' else old[k]) for k in old}
        close_states(mon, '+= (%s %s)' % (c['letters'], c['bin_type']), raw(it.o), want)
        it.hist = strip(it.hist) + [('iadd', h)]
        it.dirty, it.final = True, False
        finish(c, q, W, it, trail)
        return it
    if op == 'copy':
        mon.count('copies')
        how = q.choice(['copy', 'copy', 'copy', 'deepcopy', 'pickle', 'pickle'])
        trail.append('copy %s' % how)
        f = {'copy': lambda x: x.copy(), 'deepcopy': copy.deepcopy,
             'pickle': lambda x: pickle.loads(pickle.dumps(x))}[how]
        n = f(it.o)
        nans = any(np.any(np.isnan(x)) for x in arrays(it.o).values())   # finalized twice
        mon.check(nans or (n == it.o and it.o == n), 'a copy (%s) is not equal to the original' % how)
        new = Item(n, it.hist, it.final, it.kind, it.dirty)
        if len(objs) >= 4:
            i = q.randrange(len(objs))
            if objs[i] is it:
                trail[-1] += ' original dropped'
            objs[i] = new
            gc.collect()
        else:
            objs.append(new)
        return new
    if op == 'del':
        trail.append('del')
        if len(objs) > 1:
            objs.remove(it)
        else:
            objs.append(Item(W.new()))
        del it
        gc.collect()
        return None
    if op == 'query':
        mon.count('queries')
        query(c, mon, q, W, it, objs, trail)
        return None
    if op == 'cat':
        cat_op(c, mon, q, W, trail, treecorr)
        return None
    if op == 'rand':
        return randoms(c, mon, q, W, it, objs, trail)


def finish(c, q, W, it, trail):
    if q.random() < 0.6:
        o = ('finalize', [round(q.uniform(0.1, 2), 3) for x in c['letters'] if x != 'N'])
        apply(o, it.o, W)
        it.hist.append(o)
        it.final = True
        trail[-1] += ' finalize'


def randoms(c, mon, q, W, it, objs, trail):
    th = c['three']
    L = c['letters']
    if not it.final or it.dirty:
        idx = [q.randrange(4)] if L in ('NN', 'NNN') else q.sample(range(4), 2)
        o = ('process', idx, dict(algo='triangle') if c['bin_type'] == 'LogSAS' else {}, '')
        apply(o, it.o, W)
        it.hist.append(o)
        it.final, it.kind, it.dirty = True, len(idx), False
    nc = it.kind
    own = strip(it.hist)[0]
    kws = own[2] if own[0] == 'process' else {}
    kw = {}
    pm = {k: v for k, v in kws.items() if k in ('patch_method', 'ordered')}

    def get(idx, pm=pm):
        # an object of the world, if there is a suitable one, or a new one
        k = {kk: v for kk, v in pm.items() if not (len(idx) == 1 and kk == 'ordered')}
        if c['bin_type'] == 'LogSAS':
            k['algo'] = 'triangle'
        o = ('process', idx, k, '')
        if q.random() < 0.5:
            x = q.choice(objs)
            if x is not it and x.final and not x.dirty and x.kind == len(idx):
                return x, x.o, strip(x.hist)
        return None, replay([o], W), [o]
    names = []
    if L in ('NN', 'NNN'):
        main = 'rr' if L == 'NN' else 'rrr'
        idx = [q.randrange(4) for _ in range(nc)]
        kw[main] = get(idx)
        if nc == 1 and q.random() < 0.4 and not th:
            kw['dr'] = get([q.randrange(4), q.randrange(4)])
        elif th and q.random() < 0.4 and nc == 1:
            p2 = dict(pm, ordered=False)
            kw['drr'] = get([q.randrange(4), q.randrange(4)], p2)
            kw['rdd'] = get([q.randrange(4), q.randrange(4)], p2)
        method = 'calculateXi' if L == 'NN' else 'calculateZeta'
    else:
        nm = 'r' + L[1].lower()
        kw[nm] = get([q.randrange(4) for _ in range(nc)])
        method = 'calculateXi'
    trail.append('rand %s %s' % (method, sorted(kw)))
    keep = [(x.o, bits(x.o)) for x, _, _ in kw.values() if x is not None]
    real = {k: v[1] for k, v in kw.items()}
    hist = {k: v[2] for k, v in kw.items()}
    errs = []
    h0 = strip(it.hist)
    for o, k in ((it.o, real), (None, hist)):
        if o is None:
            V = World(c, W.treecorr)
            o = replay(h0, V)
            k = {kk: replay(h, V) for kk, h in k.items()}
        try:
            getattr(o, method)(**k)
            errs.append(None)
        except (RuntimeError, ValueError) as e:
            errs.append(type(e).__name__)
    mon.check(errs[0] == errs[1], 'calculateXi: %r, fresh objects: %r' % tuple(errs))
    for o, b in keep:
        same_bits(mon, 'randoms given to ' + method, b, bits(o))
    if errs[0] is None:
        it.hist = h0 + [('rand', method, hist)]
    else:
        it.o.clear()
        it.hist.append(('clear',))
        it.final, it.kind = False, None
    return it


def query(c, mon, q, W, it, objs, trail):
    o = it.o
    ch = ['repr', 'eq', 'stat', 'write', 'props', 'cov', 'cov', 'multi', 'design', 'sample']
    k = q.choice(ch)
    trail.append('query-%s' % k)
    d = os.environ.get('VERIF_SCRATCH', '/tmp')
    b = bits(o)
    drop(b)
    try:
        if k == 'repr':
            repr(o), str(o)
        elif k == 'eq':
            [o == x.o for x in objs]
        elif k == 'stat':
            o.getStat(), o.getWeight()
        elif k == 'write':
            f = os.path.join(d, 'c15.' + q.choice(['dat', 'fits', 'hdf5']))
            if hasattr(o, 'raw_xi'):
                x = o.copy()       # Without randoms, write starts with calculateXi.
            else:
                x = o
            x.write(f, write_patch_results=bool(o.results) and q.random() < 0.5)
        elif k == 'props':
            for nm in dir(type(o)):
                if isinstance(getattr(type(o), nm, None), property):
                    try:
                        getattr(o, nm)
                    except (RuntimeError, AttributeError, ValueError, TypeError, AssertionError):
                        pass
            if c['letters'] == 'GG':
                o.calculateMapSq()
                o.calculateGamSq()
            elif c['letters'] == 'NG':
                o.copy().calculateNMap()     # (starts with calculateXi)
            elif c['letters'] == 'GGG':
                o.calculateMap3()
            elif c['bin_type'] == 'LogMultipole':
                o.toSAS()
        elif k == 'cov':
            o.estimate_cov(q.choice(['shot', 'jackknife', 'sample', 'bootstrap', 'marked_bootstrap']))
            if q.random() < 0.5:
                o.cov, o.cov_diag
        elif k == 'design':
            o.build_cov_design_matrix(q.choice(['jackknife', 'sample', 'bootstrap']))
        elif k == 'multi':
            xs = [x.o for x in objs if x.final] or [o]
            bs = [bits(x) for x in xs]
            for s in bs:
                drop(s)
            try:
                W.treecorr.estimate_multi_cov(xs, q.choice(['jackknife', 'shot']))
            finally:
                for x, s in zip(xs, bs):
                    s2 = bits(x)
                    drop(s2)
                    same_bits(mon, 'estimate_multi_cov', s, s2)
        elif k == 'sample' and not c['three'] and it.hist:
            cats = [whole(W, q.randrange(4)) for _ in range(2)]
            if c['bin_type'] != 'TwoD':
                o.sample_pairs(3, cats[0], cats[1], min_sep=o.min_sep, max_sep=o.max_sep)
    except (RuntimeError, ValueError, TypeError, AttributeError, AssertionError,
            np.linalg.LinAlgError) as e:
        mon.cover('query-error', '%s %s' % (k, type(e).__name__))
    s = bits(o)
    drop(s)
    same_bits(mon, 'query ' + k, b, s)


def drop(s):
    """Leave out what is calculated on demand."""
    s.pop('_cov', None)
    for k in VARS:
        s.pop('_' + k, None)


def cat_op(c, mon, q, W, trail, treecorr):
    cat = q.choice(W.cats)
    k = q.choice(['clear_cache', 'resize', 'field', 'other', 'other', 'kmeans', 'var', 'copy',
                  'near'])
    trail.append('cat-%s' % k)
    if k == 'clear_cache':
        cat.clear_cache()
    elif k == 'resize':
        cat.resize_cache(q.choice([0, 1, 3]))
    elif k == 'field':
        for _ in range(3):
            getattr(cat, 'get%sField' % q.choice(c['letters']))(
                min_size=q.choice([0, 0.1, 1.]), max_size=q.choice([None, 0.5, 3.]),
                split_method=q.choice(['mean', 'median', 'middle']),
                brute=q.choice([False, False, True]), min_top=q.choice([None, 0, 2]),
                max_top=q.choice([1, 10]))
    elif k == 'other':
        kw = dict(min_sep=0.03, max_sep=30., nbins=q.choice([1, 4]), num_threads=1)
        kw.update(bin_slop=q.choice([0, 1, 3.]), split_method=q.choice(['mean', 'median']),
                  brute=q.choice([False, True]))
        if c['coords'] == '3d':
            metric = q.choice(['Euclidean', 'Rperp', 'Arc'])
        elif c['coords'] == 'spherical':
            metric = q.choice(['Euclidean', 'Arc'])
        else:
            metric = q.choice(['Euclidean', 'Periodic'])
            if metric == 'Periodic':
                kw['period'] = 80.
        if metric == 'Arc':
            kw['max_sep'] = 3.
        treecorr.NNCorrelation(**kw).process(cat, metric=metric)
        treecorr.KGCorrelation(**kw).process(cat, W.cats[0], metric=metric)
    elif k == 'kmeans':
        cat.getNField().run_kmeans(2, rng=np.random.RandomState(5))
    elif k == 'var':
        for L in 'KZVGTQ':
            getattr(treecorr, 'calculateVar' + L)(cat)
    elif k == 'copy':
        x = cat.copy()
        pickle.loads(pickle.dumps(x))
        list(x.get_patches())
        del x
        gc.collect()
    elif k == 'near' and c['coords'] == 'flat':
        cat.getNField().get_near(0., 0., 1.)
