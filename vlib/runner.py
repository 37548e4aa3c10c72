"""Runs a check: builds, hands cases to worker processes, collects observations, decides."""
import collections, hashlib, importlib, json, os, queue, re, select, shutil, signal, subprocess
import sys, tempfile, threading, time

from . import build as B

VERIF = B.VERIF
BAD_LOG = re.compile(r'(Failed Assert|ERROR: AddressSanitizer|runtime error:|'
                     r'WARNING: ThreadSanitizer|ERROR: LeakSanitizer|'
                     r'terminate called|Fatal Python error|corrupted|double free|free\(\))')


class Worker(object):
    def __init__(self, prop, build_dir, variant, scratch, n, env):
        self.args = (prop, build_dir, variant, scratch, n, env)
        self.n = n
        self.start()

    def start(self):
        prop, build_dir, variant, scratch, n, env = self.args
        self.dir = os.path.join(scratch, 'w%d' % n)
        os.makedirs(self.dir, exist_ok=True)
        self.log = os.path.join(scratch, 'log%d' % n)
        self.san = os.path.join(scratch, 'san%d' % n)
        self.logpos = os.path.getsize(self.log) if os.path.exists(self.log) else 0
        e = dict(os.environ)
        e.update(PYTHONDONTWRITEBYTECODE='1', OMP_WAIT_POLICY='passive', LANG='C.UTF-8',
                 HOME=self.dir, TMPDIR=self.dir, MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1',
                 VERIF_SCRATCH=self.dir)
        for k in ('PYTHONPATH', 'OMP_NUM_THREADS'):
            e.pop(k, None)
        e.update(B.sanitizer_env(variant, self.san))
        e.update(env or {})
        r, w = os.pipe()
        self.p = subprocess.Popen([B.PY, os.path.join(VERIF, 'vlib', 'worker.py'), prop,
                                   build_dir, str(w)], stdin=subprocess.PIPE,
                                  stdout=open(self.log, 'ab'), stderr=subprocess.STDOUT,
                                  pass_fds=[w], env=e, cwd=self.dir, start_new_session=True)
        os.close(w)
        self.r = r
        self.buf = b''
        st, line = self._read(300)
        if st != 'line' or line != b'ready':
            raise RuntimeError('worker did not start: %s %s\n%s' % (st, line, self.newlog()))

    def _read(self, timeout):
        end = time.time() + timeout
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0:
                return 'timeout', None
            rl, _, _ = select.select([self.r], [], [], left)
            if rl:
                d = os.read(self.r, 1 << 16)
                if not d:
                    return 'eof', None
                self.buf += d
        line, self.buf = self.buf.split(b'\n', 1)
        return 'line', line

    def newlog(self):
        t = ''
        try:
            with open(self.log, 'rb') as f:
                f.seek(self.logpos)
                d = f.read()
                self.logpos += len(d)
                t = d.decode(errors='replace')
        except OSError:
            pass
        d = os.path.dirname(self.san)
        for f in sorted(os.listdir(d)):
            if f.startswith(os.path.basename(self.san) + '.'):
                p = os.path.join(d, f)
                t += '\n' + open(p, errors='replace').read()
                os.remove(p)
        return t

    def run(self, case, timeout):
        try:
            self.p.stdin.write(json.dumps(case).encode() + b'\n')
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass
        st, line = self._read(timeout)
        res = None
        if st == 'line':
            res = json.loads(line)
        elif st == 'timeout':
            self.kill(signal.SIGABRT)
            log = self.newlog()
            res = dict(counts={}, covers={}, sigs=[], findings=[], timeout=True,
                       fails=[dict(what='no result within %g s' % timeout,
                                   detail=dict(log=log[-4000:]))])
            self.kill()
            self.start()
            return res
        else:
            rc = self.p.wait()
            log = self.newlog()
            res = dict(counts={}, covers={}, sigs=[], findings=[], crash=True,
                       fails=[dict(what='process ended with status %s' % rc,
                                   detail=dict(log=log[-6000:]))])
            self.kill()
            self.start()
            return res
        log = self.newlog()
        m = BAD_LOG.search(log)
        if m:
            i = max(0, m.start() - 200)
            res['fails'].append(dict(what='sanitizer/assert report: ' + m.group(0),
                                     detail=dict(log=log[i:i + 5000])))
        res['log'] = log
        return res

    def kill(self, sig=signal.SIGKILL):
        try:
            os.killpg(self.p.pid, sig)
        except OSError:
            pass
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            pass

    def close(self, grace=20):
        try:
            self.p.stdin.close()
            self.p.wait(grace)
        except Exception:
            pass
        self.kill()
        try:
            os.close(self.r)
        except OSError:
            pass


def load_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    data = json.load(open(path))
    return {f['id']: f for f in data['findings'] if f['property'] == prop
            and f.get('status', 'open') == 'open'}


def main(prop, replay=None, tier=None, seed=None, only=None, limit=None, verbose=False):
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(seed if seed is not None else os.environ.get('VERIF_SEED') or 1)
    sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True
    mod = importlib.import_module('checks.' + prop.lower())
    known = load_findings(prop)
    variants = getattr(mod, 'VARIANTS', ['o3'])
    try:
        bdirs = {v: B.build(v) for v in variants}
    except B.BuildError as e:
        print('BUILD FAILED\n' + str(e))
        return 2
    tbuild = time.time() - t0
    if replay:
        cases = [json.load(open(replay))['case']]
    else:
        cases = list(mod.cases(tier, seed))
        if only is not None:
            cases = [cases[i] for i in only]
        if limit:
            cases = cases[:limit]
    cap = getattr(mod, 'WALL_CAP', {}).get(tier, 600 if tier == 'quick' else 7200)
    timeout = getattr(mod, 'CASE_TIMEOUT', 180)
    nproc = getattr(mod, 'NPROC', 8)
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop, dir='/tmp')
    os.chmod(scratch, 0o755)
    groups = collections.OrderedDict()
    for i, c in enumerate(cases):
        groups.setdefault(c.get('variant', variants[0]), []).append((i, c))
    agg = dict(counts={}, covers={}, sigs=set())
    fails = []
    seen = []
    lock = threading.Lock()
    status = dict(done=0, truncated=False, dead=None)
    times = []

    def merge(i, case, res, dt):
        with lock:
            status['done'] += 1
            times.append((dt, i))
            for k, v in res['counts'].items():
                agg['counts'][k] = agg['counts'].get(k, 0) + v
            for k, v in res['covers'].items():
                agg['covers'].setdefault(k, set()).update(v)
            agg['sigs'].update(res['sigs'])
            for fid, what in res['findings']:
                if fid in known:
                    seen.append((fid, what))
                else:
                    res['fails'].append(dict(what='%s: %s' % (fid, what), detail={}))
            for f in res['fails']:
                fails.append((i, case, f))
            if verbose:
                print('case %d %.1fs %s' % (i, dt, 'FAIL' if res['fails'] else 'ok'), flush=True)
                for f in res['fails'][:3]:
                    print('   ', f['what'], json.dumps(f['detail'])[:1500])

    try:
        for variant, items in groups.items():
            q = queue.Queue()
            for it in items:
                q.put(it)
            np_ = min(nproc if not isinstance(nproc, dict) else nproc.get(variant, 8), len(items))

            def loop(n):
                w = None
                try:
                    w = Worker(prop, bdirs[variant], variant, scratch, n,
                               getattr(mod, 'ENV', {}).get(variant))
                    while True:
                        if time.time() - t0 - tbuild > cap:
                            status['truncated'] = True
                            return
                        if len(fails) > int(os.environ.get("VERIF_MAXFAIL", "40")):
                            return
                        try:
                            i, c = q.get_nowait()
                        except queue.Empty:
                            return
                        t1 = time.time()
                        res = w.run(c, c.get('timeout', timeout))
                        if res.get('timeout') and not replay and not status.get('hang'):
                            # decide on a second, undisturbed and longer attempt
                            with lock:
                                again = w.run(c, 2 * c.get('timeout', timeout))
                            if not again.get('timeout'):
                                res = again
                            else:
                                status['hang'] = True
                        merge(i, c, res, time.time() - t1)
                except Exception as e:
                    status['dead'] = repr(e)
                finally:
                    if w is not None:
                        w.close()
                        log = w.newlog()
                        m = BAD_LOG.search(log)
                        if m:
                            with lock:
                                i = max(0, m.start() - 200)
                                fails.append((-1, dict(note='at exit'), dict(
                                    what='report at exit: ' + m.group(0),
                                    detail=dict(log=log[i:i + 5000]))))
            ths = [threading.Thread(target=loop, args=(n,)) for n in range(np_)]
            [t.start() for t in ths]
            [t.join() for t in ths]
        if hasattr(mod, 'final') and not replay and only is None and not limit:
            for f in mod.final(agg) or []:
                fails.append((-1, dict(note='final'), f))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    cov = dict(evaluations=status['done'], distinct_nontrivial=len(agg['sigs']),
               rule=mod.RULE, samples=[_trim(c) for c in cases[:3] + cases[-2:]],
               observed={k: (int(v) if v == int(v) else v)
                         for k, v in sorted(agg['counts'].items())},
               coverage_values={k: sorted(v)[:60] for k, v in sorted(agg['covers'].items())},
               distinct_per_dimension={k: len(v) for k, v in sorted(agg['covers'].items())},
               build_variants=variants, build_s=round(tbuild, 1), cases_planned=len(cases),
               truncated_by_time=status['truncated'])
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'),
              coverage=cov, assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=len(fails))
    if not replay and only is None and not limit:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % prop)
        json.dump(ev, open(tmp, 'w'), indent=1)
        os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    for fid in sorted(set(f for f, _ in seen)):
        what = [w for f, w in seen if f == fid][0]
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, fid, what))
    if fails:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        shown = collections.OrderedDict()
        for i, case, f in fails:
            shown.setdefault(f['what'][:60], (i, case, f))
        first = True
        for i, case, f in list(shown.values())[:8]:
            key = hashlib.sha256(json.dumps([case, f['what']], sort_keys=True).encode())
            path = os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, key.hexdigest()[:10]))
            json.dump(dict(property=prop, case=case, failure=f), open(path, 'w'), indent=1)
            if first:
                print('VIOLATION property=%s replay=%s' % (prop, path))
                first = False
            print('  case %d: %s  %s' % (i, f['what'], json.dumps(f['detail'])[:1200]))
        print('%s: %d violations in %d cases, %.1f s' % (prop, len(fails), status['done'],
                                                         time.time() - t0))
        return 1
    if status['dead']:
        print('INCONCLUSIVE: a worker could not run: %s' % status['dead'])
        return 2
    if not replay and only is None and not limit:
        need = getattr(mod, 'MIN_EVENTS', {})
        low = {k: (agg['counts'].get(k, 0), v) for k, v in need.items()
               if agg['counts'].get(k, 0) < v}
        if low and not status['truncated']:
            print('INCONCLUSIVE: too little observed: %s' % low)
            return 2
    slow = sorted(times)[-1:] if times else []
    print('%s ok: tier %s seed %d, %d cases, %d distinct non-trivial, %s, %.1f s (build %.1f s, '
          'slowest case %s)' % (prop, tier, seed, status['done'], len(agg['sigs']),
                               ', '.join('%s=%d' % (k, v) for k, v in
                                         sorted(agg['counts'].items())[:6]),
                               time.time() - t0, tbuild,
                               slow and '%d %.1fs' % (slow[0][1], slow[0][0])))
    return 0


def _trim(c):
    s = json.dumps(c)
    return c if len(s) < 3000 else json.loads(json.dumps(dict(note='long case', head=s[:2500])))
