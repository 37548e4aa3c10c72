"""Builds the TreeCorr extension from /repo's current sources, out of tree.

variant 'o3'   : the flags of the stock build (same command lines, so ccache entries are shared)
        'asan' : AddressSanitizer + UBSan, no -ffast-math, libgomp
        'tsan' : ThreadSanitizer, linked against native/gomp_shim.c instead of libgomp
        'sched': stock flags, linked against native/gomp_shim.c (seeded schedule perturbation)
The result directory is keyed by the hash of every source file and of the flags.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
PY = '/opt/venv/bin/python'
EXT = '_treecorr.cpython-312-x86_64-linux-gnu.so'

INC = ['-I/opt/venv/include', '-I/usr/include/python3.12', '-Iinclude',
       '-I/opt/venv/lib/python3.12/site-packages/pybind11/include']
STOCK1 = ['-fno-strict-overflow', '-Wsign-compare', '-DNDEBUG', '-g', '-O2', '-Wall', '-fPIC']
STOCK2 = ['-fopenmp', '-O3', '-ffast-math', '-std=c++11']

VARIANTS = {
    'o3': dict(pre=STOCK1, post=STOCK2, link=['-fopenmp'], shim=False),
    'sched': dict(pre=STOCK1, post=STOCK2, link=['-lpthread'], shim=True),
    'asan': dict(pre=['-fno-strict-overflow', '-g1', '-fPIC', '-w'],
                 post=['-fopenmp', '-O1', '-fno-inline-functions-called-once', '-std=c++11',
                       '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR=1',
                       '-fno-omit-frame-pointer', '-fsanitize=address',
                       '-fsanitize=bounds,shift,integer-divide-by-zero,signed-integer-overflow,'
                       'null,alignment,bool,enum,float-cast-overflow,return,unreachable,vla-bound',
                       '-fno-sanitize-recover=undefined'],
                 link=['-fopenmp', '-fsanitize=address,undefined'], shim=False),
    'tsan': dict(pre=['-fno-strict-overflow', '-g1', '-fPIC', '-w'],
                 post=['-fopenmp', '-O1', '-std=c++11', '-fno-omit-frame-pointer',
                       '-fsanitize=thread'],
                 link=['-fsanitize=thread', '-lpthread'], shim=True),
}


class BuildError(Exception):
    pass


def _hash(variant):
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + '/src/*') + glob.glob(REPO + '/include/*'))
    for f in files:
        h.update(os.path.basename(f).encode())
        h.update(open(f, 'rb').read())
    h.update(repr(VARIANTS[variant]).encode())
    if VARIANTS[variant]['shim']:
        h.update(open(os.path.join(VERIF, 'native', 'gomp_shim.c'), 'rb').read())
    return h.hexdigest()[:16]


def _run(cmd, env):
    p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[-4000:])


def build(variant='o3'):
    """Returns the directory that holds the built extension."""
    v = VARIANTS[variant]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, variant + '-' + _hash(variant))
    target = os.path.join(out, EXT)
    if os.path.exists(target):
        try:
            os.utime(out)
        except OSError:
            pass
        return out
    with open(os.path.join(BUILD, variant + '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(target):
            return out
        _prune(variant)
        tmp = out + '.tmp%d' % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        env = dict(os.environ)
        env.pop('LD_PRELOAD', None)
        env.update(CC='gcc', LANG='C.UTF-8', HOME='/root',
                   PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
        cxx = ['g++']
        if shutil.which('ccache'):
            cxx = ['ccache', 'g++']
            if variant == 'o3' and os.access('/opt/ccache', os.W_OK):
                env.update(CCACHE_DIR='/opt/ccache', CCACHE_MAXSIZE='2G')
            else:
                env.update(CCACHE_DIR=os.path.join(BUILD, 'ccache'), CCACHE_MAXSIZE='1G')
        srcs = sorted(glob.glob(REPO + '/src/*.cpp'))
        objs = []
        jobs = []
        for s in srcs:
            rel = os.path.relpath(s, REPO)
            o = os.path.join(tmp, os.path.basename(s)[:-4] + '.o')
            objs.append(o)
            jobs.append(cxx + v['pre'] + INC + ['-c', rel, '-o', o] + v['post'])
        if v['shim']:
            o = os.path.join(tmp, 'gomp_shim.o')
            objs.append(o)
            flags = ['-O1', '-g', '-fPIC']
            if variant == 'tsan':
                flags.append('-fsanitize=thread')
            jobs.append(['gcc'] + flags + ['-c', os.path.join(VERIF, 'native', 'gomp_shim.c'),
                                           '-o', o])
        try:
            with ThreadPoolExecutor(8) as ex:
                for r in ex.map(lambda c: _run(c, env), jobs):
                    pass
            _run(['g++', '-fno-strict-overflow', '-Wsign-compare', '-shared',
                  '-Wl,-O1', '-Wl,-Bsymbolic-functions'] + objs
                 + ['-L/usr/lib/x86_64-linux-gnu', '-o', os.path.join(tmp, EXT)] + v['link'], env)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
        for o in objs:
            os.remove(o)
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.rename(tmp, out)
    return out


def _prune(variant, keep=6):
    ds = [d for d in glob.glob(os.path.join(BUILD, variant + '-*')) if os.path.isdir(d)]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-keep]:
        shutil.rmtree(d, ignore_errors=True)


def sanitizer_env(variant, log_path):
    """Environment for a Python process that loads the given variant."""
    env = {}
    if variant == 'asan':
        lib = subprocess.check_output(['gcc', '-print-file-name=libasan.so']).decode().strip()
        ub = subprocess.check_output(['gcc', '-print-file-name=libubsan.so']).decode().strip()
        std = subprocess.check_output(['gcc', '-print-file-name=libstdc++.so.6']).decode().strip()
        env['LD_PRELOAD'] = ' '.join([os.path.realpath(lib), os.path.realpath(std)])
        env['ASAN_OPTIONS'] = ('detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=77:'
                               'detect_stack_use_after_return=0:allocator_may_return_null=1:'
                               'malloc_context_size=12:log_path=' + log_path)
        env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=77:log_path=' + log_path
    elif variant == 'tsan':
        lib = subprocess.check_output(['gcc', '-print-file-name=libtsan.so']).decode().strip()
        env['LD_PRELOAD'] = os.path.realpath(lib)
        env['TSAN_OPTIONS'] = ('halt_on_error=0:exitcode=66:report_bugs=1:history_size=4:'
                               'ignore_noninstrumented_modules=1:second_deadlock_stack=1:'
                               'log_path=' + log_path)
    return env


if __name__ == '__main__':
    for var in sys.argv[1:] or ['o3']:
        t = time.time()
        print(build(var), '%.1f s' % (time.time() - t))
