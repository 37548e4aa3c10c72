"""C09: dividing the patch work among MPI ranks gives the single-process results."""
import copy
import logging
import os
import pickle
import queue
import random
import shutil
import sys
import threading
import time
import traceback
import types
import numpy as np
from vlib import gen
from checks import three, two, c06
from checks.c15 import arrays, mass

RULE = ('Random patched two- and three-point runs (every statistic, bin type, metric, coordinate '
        'system, combination of patched and unpatched catalogs, list forms, files with low_mem, '
        'global and local, one call or several) by 1 to 9 ranks that only share an MPI-style '
        'communicator which pickles every message and delays ranks and messages at random. A '
        'monitor at the communicator logs the messages and what each rank has processed. Rank 0 '
        'is compared with a single-process run: totals, every per-patch result, estimators with '
        'randoms, covariances; then all ranks compute covariances and design matrices together. '
        'Non-trivial: at least two ranks processed something; distinct by configuration.')
ASSUMPTIONS = ['ranks are threads with their own catalogs and correlation objects; messages are '
               'copied through pickle', 'all ranks use the same patches and, for bootstraps, the '
               'same random state']
MIN_EVENTS = dict(mpi_runs=400, messages=800, jobs=3000, covariances=300, design_rows=1000)
CASE_TIMEOUT = 120
TIMEOUT = 60.


class Deadlock(Exception):
    pass


class Hub(object):
    """What the ranks share."""

    def __init__(self, size, seed):
        self.size = size
        self.seed = seed
        self.box = {}
        self.lock = threading.Lock()
        self.cond = threading.Condition()
        self.slots = {}
        self.log = []
        self.broken = False

    def queue(self, src, dst, tag):
        with self.lock:
            return self.box.setdefault((src, dst, tag), queue.Queue())

    def left(self):
        return [k for k, x in self.box.items() if not x.empty()]


class Comm(object):
    """The part of mpi4py's communicators that such programs use."""

    def __init__(self, hub, rank):
        self.hub = hub
        self.rank = rank
        self.size = hub.size
        self.q = random.Random('%d-%d' % (hub.seed, rank))
        self.ncoll = 0

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def pause(self):
        if self.q.random() < 0.3:
            time.sleep(self.q.choice([0, 0.0002, 0.002]))

    def send(self, obj, dest, tag=0):
        self.pause()
        data = pickle.dumps(obj)
        with self.hub.lock:
            self.hub.log.append((self.rank, dest, obj_jobs(obj)))
        self.hub.queue(self.rank, dest, 0).put((tag, data))

    def isend(self, obj, dest, tag=0):
        self.send(obj, dest, tag)
        return types.SimpleNamespace(wait=lambda: None, Wait=lambda: None)
    ssend = bsend = send

    def recv(self, buf=None, source=None, tag=None, status=None):
        self.pause()
        t0 = time.time()
        while time.time() < t0 + TIMEOUT and not self.hub.broken:
            srcs = [source] if source is not None and source >= 0 else \
                [s for s in range(self.size) if s != self.rank]
            for s in srcs:
                try:
                    t, data = self.hub.queue(s, self.rank, 0).get(
                        timeout=0.05 if len(srcs) == 1 else 0.001)
                except queue.Empty:
                    continue
                return pickle.loads(data)
        raise Deadlock('rank %d waits for rank %s' % (self.rank, source))

    def exchange(self, data):
        """Everyone's data, in the order of the ranks; collective."""
        self.pause()
        n = self.ncoll
        self.ncoll += 1
        h = self.hub
        with h.cond:
            d = h.slots.setdefault(n, {})
            d[self.rank] = pickle.dumps(data)
            h.cond.notify_all()
            t0 = time.time()
            while len(d) < self.size:
                h.cond.wait(0.2)
                if h.broken or time.time() > t0 + TIMEOUT:
                    raise Deadlock('rank %d waits for a collective call' % self.rank)
        return [pickle.loads(d[i]) for i in range(self.size)]

    def Barrier(self):
        self.exchange(None)
    barrier = Barrier

    def bcast(self, obj=None, root=0):
        return self.exchange(obj)[root]

    def allgather(self, obj):
        return self.exchange(obj)

    def gather(self, obj, root=0):
        x = self.exchange(obj)
        return x if self.rank == root else None

    def scatter(self, obj=None, root=0):
        return self.exchange(obj)[root][self.rank]

    def allreduce(self, obj, op=None):
        x = self.exchange(obj)
        s = x[0]
        for y in x[1:]:
            s = s + y
        return s

    def reduce(self, obj, op=None, root=0):
        s = self.allreduce(obj)
        return s if self.rank == root else None

    @staticmethod
    def arr(b):
        return b[0] if isinstance(b, (list, tuple)) else b

    def Allreduce(self, sendbuf, recvbuf, op=None):
        out = self.arr(recvbuf)
        src = out if isinstance(sendbuf, int) or not hasattr(self.arr(sendbuf), 'shape') \
            else self.arr(sendbuf)
        out[...] = sum(self.exchange(np.array(src)))

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        src = self.arr(recvbuf) if isinstance(sendbuf, int) or sendbuf is None or \
            not hasattr(self.arr(sendbuf), 'shape') else self.arr(sendbuf)
        x = self.exchange(np.array(src))
        if self.rank == root:
            self.arr(recvbuf)[...] = sum(x)

    def Bcast(self, buf, root=0):
        self.arr(buf)[...] = self.exchange(np.array(self.arr(buf)))[root]


def obj_jobs(obj):
    r = getattr(obj, 'results', None)
    if r is None:
        return None
    return [k for k, x in r.items() if done(x)]


def done(x):
    return bool(np.any(mass(x))) or getattr(x, 'tot', 0) != 0


def spmd(hub, fn):
    """fn(comm) on every rank; returns the list of results."""
    out = [None] * hub.size
    err = [None] * hub.size

    def main(k):
        c = Comm(hub, k)
        try:
            out[k] = fn(c)
        except BaseException as e:
            err[k] = (e, traceback.format_exc())
            hub.broken = True
            with hub.cond:
                hub.cond.notify_all()
    th = [threading.Thread(target=main, args=(k,)) for k in range(hub.size)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    real = [e for e in err if e is not None and not isinstance(e[0], Deadlock)]
    dead = [e for e in err if e is not None]
    return out, (real or dead or [None])[0]


def cases(tier, seed):
    q = gen.prng('C09', seed)
    out = []
    n = 900 if tier == 'quick' else 14000
    for i in range(n):
        if i % 5 < 3:
            c = gen.two_point_case(q, '2pt', sizes=(12, 20, 40, 70))
            c['letters'] = q.choice(gen.LETTERS2 + ['NN'] * 3)
            if c['auto'] and c['letters'][0] != c['letters'][1]:
                c['letters'] = q.choice(['NN', 'NN', 'KK', 'ZZ', 'VV', 'GG', 'TT', 'QQ'])
            c['ncat'] = 1 if c['auto'] else 2
        else:
            c = three.case(q, '3pt', ['LogRUV', 'LogSAS', 'LogSAS', 'LogMultipole'], (8, 14))
            c['algo'] = q.choice([None, 'triangle', 'multipole'])
            if c['bin_type'] == 'LogRUV':
                c['algo'] = q.choice([None, 'triangle'])
            if c['bin_type'] == 'LogMultipole':
                c['algo'] = None
            if c06.multipole(c) and 'dups' in (c['geom'], c['geom2']):
                c['geom'] = c['geom2'] = dict(flat='uniform', spherical='patch',
                                              **{'3d': 'box'})[c['coords']]
        c['npatch'] = q.choice([2, 3, 4, 5, 6, 7, 8]) if c['tag'] == '2pt' else \
            q.choice([2, 3, 4, 5])
        c['scheme'] = q.choice(['random', 'spatial', 'spatial', 'kmeans', 'gaps', 'each', 'giant',
                                'centers'])
        c['form'] = [q.choice(['cat', 'cat', 'cat', 'patches', 'list', 'plain', 'multi', 'savedir',
                               'file']) for _ in range(3)]
        c['patched'] = [q.random() < 0.75 for _ in range(3)]
        if not any(c['patched'][:c['ncat']]):
            c['patched'][0] = True
        c['low_mem'] = q.random() < 0.4
        c['local'] = q.choice([None, None, 'global', 'local'])
        c['slop'] = q.choice([None, 0, 0.3])
        c['size'] = q.choice([1, 2, 2, 3, 3, 4, 5, 7, 9])
        c['mode'] = q.choice(['once', 'once', 'once', 'again', 'incremental'])
        c['rand'] = q.choice([None, 'patched', 'unpatched'])
        c['extra'] = q.random() < 0.5
        c['method'] = q.choice(['jackknife', 'sample', 'bootstrap', 'marked_bootstrap'])
        c['func'] = q.choice([None, None, 'weight', 'meanlog'])
        out.append(c)
    return out


def run(c, mon):
    import treecorr
    logging.disable(logging.CRITICAL)
    scratch = os.path.join(os.environ['VERIF_SCRATCH'], 'c09')
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    old = sys.getswitchinterval()
    try:
        sys.setswitchinterval([1e-5, 1e-4, 5e-3][c['seed'] % 3])
        with np.errstate(all='ignore'):
            scenario(treecorr, c, mon, scratch)
    finally:
        sys.setswitchinterval(old)
        shutil.rmtree(scratch, ignore_errors=True)


class Null(object):
    """The inputs are made several times; they are counted elsewhere."""

    def cover(self, *a):
        pass
    count = cover


def scenario(treecorr, c, mon, scratch):
    three_ = c['tag'] == '3pt'
    q = gen.prng('c09', c['seed'])
    opt = dict(low_mem=c['low_mem'])
    if three_:
        Ds, bins, kw, period = three.resolve(dict(c))
        mp = c06.multipole(c)
        opt.update(metric=c['metric'], algo=c['algo'])
        if len(Ds) > 1:
            opt['ordered'] = c['ordered']
        if c['bin_type'] == 'LogSAS' and mp:
            opt['max_n'] = c['max_n'] + 1
    else:
        D1, D2, bins, kw, period, rp = gen.resolve(c)
        Ds = [D1] if D2 is None else [D1, D2]
        mp = False
    kw['bin_slop'] = c['slop']
    if c['slop'] is None:
        del kw['bin_slop']
    if kw.get('split_method') == 'random':
        # the splits are different every time
        kw['split_method'] = 'mean'
    kw['num_threads'] = 1
    if c['local'] and not (mp and c['local'] == 'global'):
        opt['patch_method'] = c['local']
    cls = getattr(treecorr, c['letters'] + 'Correlation')

    def build(sub):
        d = os.path.join(scratch, sub)
        os.makedirs(d)
        return c06.inputs(treecorr, copy.deepcopy(c), Null(), Ds, d, c['local'] == 'local')

    def make():
        x = cls(**kw)
        x._rng = np.random.RandomState(c['seed'] % 1000)
        return x
    # the program that all ranks run
    mode = c['mode']
    multi = mode == 'incremental'

    def program(args, comm):
        k = dict(opt)
        if comm is not None:
            k['comm'] = comm
        corr = make()
        if mode == 'again':
            # something else before
            corr.process(*args, **k)
        if multi and isinstance(args[0], list) and len(args) > 1 and \
                not (c['bin_type'] == 'LogSAS' and mp):
            a = args[0]
            for j, x in enumerate(a):
                corr.process(x, *args[1:], initialize=(j == 0), finalize=(j == len(a) - 1), **k)
        else:
            corr.process(*args, **k)
        return corr
    serial = None
    try:
        args = build('serial')
        ns = [c06.npatch_of(x) for x in args]
        if len(set(n for n in ns if n > 1)) > 1:
            mon.count('unmatched_patches')
            return
        serial = program(args, None)
    except (RuntimeError, ValueError) as e:
        mon.count('rejected')
        serial = e
    hub = Hub(c['size'], c['seed'])
    sets = [build('rank%d' % k) for k in range(c['size'])]
    out, err = spmd(hub, lambda comm: program(sets[comm.rank], comm))
    if isinstance(serial, Exception):
        mon.check(err is not None and type(err[0]) is type(serial), 'an invalid call was not '
                  'rejected by the ranks', got=err)
        return
    if err is not None:
        mon.fail('ranks failed', error=repr(err[0]), trace=err[1])
        return
    mon.count('mpi_runs')
    mon.count('messages', len(hub.log))
    mon.check(not hub.left(), 'messages that nobody received', got=hub.left())
    got = out[0]
    single = mode != 'again' and not multi
    per_rank = {}
    for src, dst, jobs in hub.log:
        mon.check(dst == 0, 'message to another rank', got=dst)
        per_rank.setdefault(src, []).append(jobs)
    workers = sum(1 for jobs in per_rank.values() if any(j for j in jobs if j))
    if single:
        keys = [j for jobs in per_rank.values() for js in jobs for j in (js or [])]
        if len(got.results):
            mon.count('jobs', len(obj_jobs(got)))
            mon.check(len(keys) == len(set(keys)), 'patch results from more than one rank',
                      got=sorted(k for k in set(keys) if keys.count(k) > 1))
    compare(mon, c, 'after process', got, serial, Ds, mp)
    for d in ('size', 'coords', 'metric', 'bin_type', 'letters', 'ncat', 'scheme', 'low_mem',
              'local', 'mode'):
        mon.cover(d, c[d])
    mon.cover('patched', c['patched'][:len(Ds)])
    if c['size'] > max(ns):
        mon.count('more_ranks_than_patches')
    if mon.fails:
        return
    if workers or (c['size'] > 1 and len(got.results)):
        mon.nontrivial((c['tag'], c['size'], c['bin_type'], c['letters'], c['ncat'], c['scheme'],
                        tuple(c['form'][:len(Ds)]), c['low_mem'], c['local'], max(ns)))
    follow(treecorr, c, mon, q, make, cls, kw, Ds, serial, got, mp, opt, build)


def compare(mon, c, what, got, want, Ds, mp):
    k = len(mon.fails)
    if c['tag'] == '3pt':
        zero = lambda: dict(ntri=(0, np.zeros(want.ntri.shape)))
        c06.same3(mon, c, got, want, Ds, mp, 1, zero)
    else:
        fmax = 1.
        for L, D in zip(c['letters'], Ds if len(Ds) > 1 else [Ds[0]] * 2):
            if L != 'N':
                fmax = fmax * np.max(np.abs(D.field(L)))
        zero = lambda: dict(npairs=(0, np.zeros(want.npairs.shape)))
        c06.same2(mon, c, got, want, 1., fmax, zero, 1)
    for f in mon.fails[k:]:
        f['what'] = what + ': ' + f['what']
    a = {ij: x for ij, x in got.results.items() if done(x)}
    b = {ij: x for ij, x in want.results.items() if done(x)}
    if not mon.check(sorted(a) == sorted(b), what + ': patch results', got=sorted(a),
                     want=sorted(b)):
        return
    mon.check((got.npatch1, got.npatch2) == (want.npatch1, want.npatch2), what + ': npatch')
    for ij in b:
        mon.count('patch_results')
        # pieces without any pairs may lack arrays
        if not np.any(mass(b[ij])):
            mon.check(not np.any(mass(a[ij])), what + ': empty result', ij=ij)
            mon.close(what + ': results[%s].tot' % (ij,), a[ij].tot, b[ij].tot, 0, rtol=1e-11)
            continue
        x, y = arrays(a[ij]), arrays(b[ij])
        for nm in y:
            s = np.max(np.abs(y[nm]), initial=0)
            mon.close(what + ': results[%s].%s' % (ij, nm), x[nm], y[nm], 1e-10 * s, rtol=1e-9)


def follow(treecorr, c, mon, q, make, cls, kw, Ds, serial, got, mp, opt, build):
    """Estimators and covariances."""
    three_ = c['tag'] == '3pt'
    method = c['method']
    rows = {None: None, 'weight': lambda x: np.ravel(x.weight),
            'meanlog': lambda x: np.ravel(x.meanlogd2 if three_ else x.meanlogr)}
    func = rows[c['func']]
    if mp:
        # other values are rounding errors where there are no triangles
        func = rows['weight']
    have = None
    if c['letters'] in ('NN', 'NNN') and not mp:
        if c['rand'] and not three_ and c['ncat'] == 1 and 'local' not in (c['local'],):
            have = randoms(treecorr, c, q, make, Ds, serial, got, opt, build)
            if have:
                mon.count('estimators')
                mon.close('xi', got.xi, serial.xi, 1e-9 * np.max(np.abs(serial.xi), initial=1))
        if not have and func is None:
            func = rows['weight']
    for x in (serial, got):
        x._rng = np.random.RandomState(c['seed'] % 1000)
    n = serial.npatch1 if not hasattr(serial, 'npatch3') else \
        max(serial.npatch1, serial.npatch2, serial.npatch3)
    # Every rank has the whole object
    state = pickle.dumps(got)
    design = q.random() < 0.5
    stats = None
    pair = q.random() < 0.3 and func is None and not three_

    def task(corr, comm):
        k = {} if comm is None else dict(comm=comm)
        f = None
        if pair:
            other = pickle.loads(pickle.dumps(corr))
            other._rng = np.random.RandomState(0)
            fn = treecorr.build_multi_cov_design_matrix if design else treecorr.estimate_multi_cov
            return fn([corr, other], method, **k)
        fn = corr.build_cov_design_matrix if design else corr.estimate_cov
        return fn(method, func=func, **k)
    try:
        want = task(serial, None)
    except (RuntimeError, ValueError) as e:
        mon.count('covariances_rejected')
        want = e
    empty = np.zeros(0, dtype=bool)
    if have:
        # samples without any pairs: their weight is that of the sample before (known finding)
        copy1 = pickle.loads(state)
        copy1._rng = np.random.RandomState(c['seed'] % 1000)
        v1, w1 = copy1.build_cov_design_matrix(method)
        empty = np.all(v1 == 0, axis=1)
    hub = Hub(c['size'], c['seed'] + 1)

    def program(comm):
        corr = pickle.loads(state)
        corr._rng = np.random.RandomState(c['seed'] % 1000)
        return task(corr, comm)
    out, err = spmd(hub, program)
    if isinstance(want, Exception):
        mon.check(err is not None and type(err[0]) is type(want), 'covariance: error not found by '
                  'the ranks', got=err, want=repr(want))
        return
    if err is not None:
        mon.fail('covariance: ranks failed', error=repr(err[0]), trace=err[1])
        return
    mon.check(not hub.left(), 'covariance: messages that nobody received')
    mon.count('covariances')
    mon.cover('method', method)
    mon.cover('task', (design, pair, c['func']))
    for rank, g in enumerate(out):
        if design:
            v, w = g
            mon.check(v.dtype == want[0].dtype, 'design matrix type', got=v.dtype)
            mon.count('design_rows', len(w))
            same(mon, 'rank %d: design matrix' % rank, v, want[0], mp)
            use = ~empty if len(empty) == len(w) else slice(None)
            k = np.max(np.abs(want[1]), initial=0)
            mon.close('rank %d: weights' % rank, w[use], want[1][use], 1e-10 * k)
            if len(empty) == len(w) and np.any(np.abs((w - want[1])[empty]) > 1e-10 * k):
                mon.finding('C09-empty-sample-weight', 'the weight of a sample without pairs '
                            'depends on the sample before')
        elif have and method == 'sample' and np.any(empty):
            mon.count('samples_without_pairs')
            if not np.allclose(g, want, rtol=1e-8, atol=1e-30):
                mon.finding('C09-empty-sample-weight', 'the weight of a sample without pairs '
                            'depends on the sample before')
        else:
            same(mon, 'rank %d: covariance' % rank, g, want, mp, True)


def same(mon, what, a, b, mp, square=False):
    if not mon.check(np.shape(a) == np.shape(b), what + ': shape', got=np.shape(a)):
        return
    if square:
        s = np.sqrt(np.abs(np.outer(np.diag(b), np.diag(b))))
        s = s + 1e-6 * np.sqrt(np.max(s, initial=0)) * np.sqrt(s) + 1e-12 * np.max(s, initial=0)
        if np.max(np.abs(b), initial=0) < 1e-24:
            s = s + 1e-20
        t = 1e-5 * s + 1e-28
    else:
        t = 1e-8 * np.max(np.abs(b), axis=0) + 1e-13
    mon.close(what, a, b, t)


def randoms(treecorr, c, q, make, Ds, serial, got, opt, build):
    """Landy-Szalay with the same randoms for both."""
    D = Ds[0]
    R = gen.Data(c['seed'] + 5, c['coords'], 2 * D.n, c['geom'], c['weights'], D.kw.get('ra_units'),
                 c.get('style', 'xyz')) if False else None
    r = np.random.RandomState(c['seed'] % 99991)
    sub = lambda: np.sort(r.choice(np.flatnonzero(D.w != 0), max(2, int(np.sum(D.w != 0)) * 2 // 3),
                                   replace=False))
    i = sub()
    pk = {}
    n = serial.npatch1
    if c['rand'] == 'patched':
        lab = np.arange(len(i)) % n
        if len(i) < n:
            return False
        pk = dict(patch=lab)
    rc = treecorr.Catalog(**dict(c06.subset(D, i), **pk))
    rr = make()
    rr.process(rc)
    if not np.all(rr.weight):
        return False
    for x in (serial, got):
        x.calculateXi(rr=rr)
    return True
