"""C19: corr2 and corr3 do what their configuration says."""
import copy
import contextlib
import io
import json
import logging
import os
import runpy
import shutil
import sys
import numpy as np
from vlib import gen
from checks.c11 import read_columns

VARIANTS = ['o3']
RULE = ('Random configurations (one to four slots of catalogs in several files and formats, per-slot '
        'lists of options, patches, every output, statistics) expressed in yaml, json, params with '
        'includes, as a dict, and as command-line overrides; the real programs and functions are run on '
        'them and their files read by independent readers and compared with those of the same '
        'calculation by explicit API calls on catalogs made from the arrays; all sources must parse to '
        'the same typed configuration; invalid configurations must be rejected without any output.  '
        'Non-trivial: distinct (program, source, outputs, options).')
ASSUMPTIONS = ['the scripts are run in process with sys.argv set (and some in a process of their own)',
               'values containing spaces, commas or # are not expressed in params syntax, which has '
               'no quoting']
MIN_EVENTS = dict(outputs=2000, columns=15000, parsed=2000, rejected=1500, overrides=1200,
                  lists=4000, subprocesses=8)
CASE_TIMEOUT = 120

TWO = ['nn', 'nk', 'kk', 'nz', 'kz', 'zz', 'nv', 'kv', 'vv', 'ng', 'kg', 'gg', 'nt', 'kt', 'tt', 'nq',
       'kq', 'qq', 'm2', 'nm', 'norm']
THREE = ['nnn', 'kkk', 'ggg', 'm3']
FIELDS = ['k', 'z1', 'z2', 'v1', 'v2', 'g1', 'g2', 't1', 't2', 'q1', 'q2']


def cases(tier, seed):
    q = gen.prng('C19', seed)
    out = []
    n = 1200 if tier == 'quick' else 9000
    for i in range(n):
        kind = ['run2', 'run2', 'parse', 'run3', 'reject', 'run2', 'parse', 'reject'][i % 8]
        out.append(dict(kind=kind, seed=q.randrange(2 ** 31), sub=(kind in ('run2', 'run3') and
                                                                   (i // 8) % 16 == 0 and i % 8 in (0, 3))))
    return out


class Slot(object):
    """The catalogs of one of file_name, file_name2, rand_file_name, rand_file_name2."""

    def __init__(self, q, r, d, name, num, rand, c):
        self.name, self.num, self.rand = name, num, rand
        self.files, self.data = [], []
        for i in range(c['nfiles']):
            n = q.choice([8, 15, 25])
            D = {}
            if c['coords'] == 'flat':
                D['x'], D['y'] = r.uniform(0, 10, n), r.uniform(0, 10, n)
            elif c['coords'] == '3d':
                D['x'], D['y'], D['z'] = r.uniform(0, 10, (3, n))
            else:
                D['ra'], D['dec'] = r.uniform(0, 10, n), r.uniform(-5, 5, n)
                if c['coords'] == 'radecr':
                    D['r'] = r.uniform(40, 60, n)
            D['w'] = r.randint(0, 8, n) / 8. if q.random() < 0.3 else r.randint(1, 9, n) / 8.
            D['w'][:2] = 1.
            for f in FIELDS:
                D[f] = r.normal(size=n)
            D['patch'] = np.arange(n) % c['npatch'] if c['npatch'] else np.zeros(n, int)
            r.shuffle(D['patch'])
            D['flag'] = r.choice([0, 0, 0, 1, 2, 4], size=n)
            D['flag'][:3] = 0
            # every patch keeps some object
            k = max(1, c['npatch'])
            D['patch'][:k] = np.arange(k)
            D['flag'][:k] = 0
            D['w'][:k] = 1
            D['junk'] = np.zeros(n)
            for k in ('patch', 'flag'):
                D[k] = D[k].astype(int)
            S = c['slots'][num]
            fn = os.path.join(d, '%s_%d%s' % (name, i, S['ext']))
            cols = S['order']
            if S['format'] == 'ASCII':
                with open(fn, 'w') as f:
                    f.write('%s a comment\n' % S['comment'])
                    for j in range(n):
                        f.write(S['sep'].join(repr(D[k][j].item()) for k in cols) + '\n')
            elif S['format'] == 'FITS':
                import fitsio
                a = np.zeros(n, dtype=[(S['names'][k], D[k].dtype) for k in cols])
                for k in cols:
                    a[S['names'][k]] = D[k]
                with fitsio.FITS(fn, 'rw', clobber=True) as f:
                    f.write(a)
            else:
                import h5py
                with h5py.File(fn, 'w') as f:
                    for k in cols:
                        f[S['names'][k]] = D[k]
            self.files.append(fn)
            self.data.append(D)


def slot_options(q, c):
    S = dict(format=q.choice(['ASCII', 'ASCII', 'FITS', 'HDF']))
    S['ext'] = dict(ASCII=q.choice(['.dat', '.txt']), FITS='.fits', HDF='.hdf5')[S['format']]
    S['comment'] = q.choice(['#', '#', '%', '!'])
    S['sep'] = q.choice([' ', ' ', ',', ';']) if S['format'] == 'ASCII' else ' '
    pos = dict(flat=['x', 'y'], radec=['ra', 'dec'], radecr=['ra', 'dec', 'r'])
    pos['3d'] = ['x', 'y', 'z']
    S['pos'] = pos[c['coords']]
    order = S['pos'] + ['w', 'patch', 'flag', 'junk'] + FIELDS
    q.shuffle(order)
    S['order'] = order
    S['names'] = {k: 'C%d%s' % (q.randrange(90), k) for k in order}
    S['flip'] = {f: q.random() < 0.3 for f in FIELDS if f != 'k'} if q.random() < 0.4 else {}
    S['w'] = q.random() < 0.7
    S['first'] = q.choice([1, 1, 1, 2])
    S['last'] = q.choice([None, None, 7])
    S['nth'] = q.choice([1, 1, 1, 2])
    if c['npatch'] and S['nth'] * S['first'] > 1:
        S['first'] = S['nth'] = 1
    if c['npatch']:
        S['last'] = None
    S['flag'] = q.random() < 0.3
    S['units'] = q.choice(['deg', 'degrees', 'arcmin', 'rad', 'hours'])
    S['vars'] = {k: q.choice([0.25, 0.5, 2.]) for k in 'kzvgtq' if q.random() < 0.15}
    return S


def column(S, k):
    return str(S['order'].index(k) + 1) if S['format'] == 'ASCII' else S['names'][k]


def catalog_config(q, c):
    """The configuration of the catalogs, using lists where the two slots differ."""
    S = c['slots']
    conf = {}

    def put(key, vals, default=None):
        vals = vals[:2] if c['second'] else vals[:1]
        if all(v == default for v in vals) and q.random() < 0.8:
            return
        if len(vals) == 2 and (vals[0] != vals[1] or q.random() < 0.2):
            if any(v is None for v in vals):
                return vals
            conf[key] = list(vals)
            c['lists'] += 1
        elif vals[0] is not None:
            conf[key] = vals[0]

    for k in sorted(set(S[0]['pos'])) + FIELDS:
        put(k + '_col', [column(s, k) for s in S])
    put('w_col', [column(s, 'w') if s['w'] else '0' for s in S], '0')
    if c['npatch']:
        put('patch_col', [column(s, 'patch') for s in S])
    if any(s['flag'] for s in S[:2 if c['second'] else 1]):
        put('flag_col', [column(s, 'flag') if s['flag'] else '0' for s in S], '0')
        conf['ok_flag'] = 2
    put('file_type', [s['format'] for s in S])
    put('first_row', [s['first'] for s in S], 1)
    put('every_nth', [s['nth'] for s in S], 1)
    put('last_row', [-1 if s['last'] is None else s['last'] for s in S], -1)
    if 'ra' in S[0]['pos']:
        put('ra_units', [s['units'] for s in S])
        put('dec_units', ['deg', 'deg'] if q.random() < 0.5 else [s['units'] for s in S])
        c['dec_units'] = conf.get('dec_units')
    for f in FIELDS:
        if f != 'k':
            put('flip_' + f, [bool(s['flip'].get(f, False)) for s in S], False)
    for k in 'kzvgtq':
        v = [s['vars'].get(k) for s in S[:2 if c['second'] else 1]]
        if None not in v:
            put('var' + k, v)
        else:
            for s in S:
                s['vars'].pop(k, None)
    if any(s['format'] == 'ASCII' for s in S):
        put('delimiter', [None if s['sep'] == ' ' else s['sep'] for s in S], None)
        put('comment_marker', [s['comment'] for s in S], '#')
    return conf


def scenario(q, d, three):
    c = dict(lists=0)
    c['coords'] = q.choice(['flat', 'flat', 'radec', 'radecr', '3d'])
    c['second'] = not three and q.random() < 0.65
    c['npatch'] = q.choice([0, 0, 3, 4])
    # Lists are like patches: all must have the same number
    c['nfiles'] = q.choice([1, 1, 1, 2, 3]) if not c['npatch'] else 1
    c['rand'] = q.random() < 0.6
    c['slots'] = [slot_options(q, c), slot_options(q, c)]
    S = c['slots']
    # the delimiter can only be given for both or none
    ns = 2 if c['second'] else 1
    if any(s['sep'] == ' ' for s in S[:ns] if s['format'] == 'ASCII'):
        for s in S:
            s['sep'] = ' '
    elif q.random() < 0.5:
        S[1]['sep'] = S[0]['sep']
    if ns == 2 and any(s['format'] != 'ASCII' for s in S):
        for s in S:
            if s['format'] != 'ASCII':
                s['sep'] = S[0]['sep'] if S[0]['format'] == 'ASCII' else S[1]['sep']
                s['comment'] = q.choice(['#', '%'])
    r = np.random.RandomState(q.randrange(2 ** 31))
    names = [('file_name', 'file_list', 0, False)]
    if c['second']:
        names.append(('file_name2', 'file_list2', 1, False))
    if c['rand']:
        names.append(('rand_file_name', 'rand_file_list', 0, True))
        if c['second']:
            names.append(('rand_file_name2', 'rand_file_list2', 1, True))
    conf = catalog_config(q, c)
    c['cats'] = {}
    for nm, ls, num, rand in names:
        s = Slot(q, r, d, nm, num, rand, c)
        c['cats'][nm] = s
        if q.random() < 0.3:
            fn = os.path.join(d, ls + '.txt')
            with open(fn, 'w') as f:
                f.write('\n'.join(s.files) + ('\n' if q.random() < 0.7 else ''))
            conf[ls] = fn
        elif len(s.files) == 1 and q.random() < 0.8:
            conf[nm] = s.files[0]
        else:
            conf[nm] = list(s.files)
    # the binning
    b = {}
    if three:
        b['bin_type'] = q.choice(['LogRUV', 'LogSAS', 'LogMultipole'])
        if b['bin_type'] == 'LogRUV':
            b.update(nubins=q.choice([2, 3]), nvbins=2)
        elif b['bin_type'] == 'LogSAS':
            b.update(nphi_bins=q.choice([2, 4]))
        else:
            b.update(max_n=q.choice([2, 4]))
        b['nbins'] = q.choice([2, 3])
    else:
        b['bin_type'] = q.choice(['Log', 'Log', 'Linear'] + ['TwoD'] * (c['coords'] == 'flat'))
        b['nbins'] = q.choice([3, 4, 7])
    b['min_sep'], b['max_sep'] = q.choice([(0.5, 9.), (1., 6.)])
    if b['bin_type'] == 'TwoD':
        b['min_sep'] = 0.
    if 'ra' in S[0]['pos'] and c['coords'] == 'radec':
        b['sep_units'] = q.choice(['deg', 'degrees'])
    b['bin_slop'] = 0
    if q.random() < 0.5:
        b['brute'] = True
    b['precision'] = q.choice([9, 11, 13])
    if not three:
        b['m2_uform'] = q.choice(['Crittenden', 'Schneider'])
        if c['coords'] == 'radec' and q.random() < 0.3:
            b['metric'] = 'Arc'
        if c['coords'] in ('radecr', '3d') and q.random() < 0.3 and b['bin_type'] == 'Log':
            b['metric'] = 'Rperp'
            b['min_rpar'], b['max_rpar'] = -8., 9.
        if c['coords'] == 'flat' and q.random() < 0.2 and b['bin_type'] != 'TwoD':
            b['metric'], b['period'] = 'Periodic', 30.
    # drop defaults
    for k, v in (('bin_type', 'LogRUV' if three else 'Log'), ('m2_uform', 'Crittenden')):
        if b.get(k) == v and q.random() < 0.5 and not three:
            b.pop(k)
    if c['npatch']:
        b['var_method'] = q.choice(['shot', 'jackknife'])
        if b.get('bin_type') in ('LogSAS', 'LogMultipole'):
            # samples may have bins with only rounding errors
            b['var_method'] = 'shot'
    c['bins'] = b
    conf.update(b)
    conf['num_threads'] = 1
    conf['verbose'] = q.choice([0, 0, 0, 1])
    c['conf'] = conf
    return c


def build_cats(treecorr, c, nm):
    """Catalogs from the arrays by explicit rules."""
    s = c['cats'].get(nm)
    if s is None:
        return None
    S = c['slots'][s.num]
    out = []
    for D in s.data:
        sl = slice(S['first'] - 1, S['last'], S['nth'])
        kw = {}
        for k in S['pos']:
            kw[k] = D[k][sl]
        if 'ra' in S['pos']:
            kw['ra_units'] = S['units']
            du = c['dec_units']
            kw['dec_units'] = du[s.num] if isinstance(du, list) else du
        w = D['w'][sl] if S['w'] else None
        if S['flag'] and c['conf'].get('flag_col'):
            bad = (D['flag'][sl] & ~2) != 0
            w = np.ones(len(bad)) if w is None else w
            w = np.where(bad, 0, w)
        if w is not None:
            kw['w'] = w
        if not s.rand:
            for f in FIELDS:
                kw[f] = -D[f][sl] if S['flip'].get(f) else D[f][sl]
            for k, v in S['vars'].items():
                kw['var' + k] = v
        if c['npatch']:
            kw['patch'] = D['patch'][sl]
        out += treecorr.Catalog(num_threads=1, **kw).get_patches()
    return out


def api2(treecorr, c, outputs, fn, stats):
    """The same by direct calls."""
    b = dict(c['bins'], num_threads=1)
    cat1, cat2, r1, r2 = [build_cats(treecorr, c, k) for k in
                          ('file_name', 'file_name2', 'rand_file_name', 'rand_file_name2')]
    cls = lambda t: getattr(treecorr, t.upper() + 'Correlation')

    def run(t, a, b2=None):
        x = cls(t)(**b)
        x.process(a) if b2 is None else x.process(a, b2)
        return x

    def comp(t):
        return r1 is not None and stats.get(t + '_statistic', 'compensated') == 'compensated'

    for t in outputs:
        if t == 'nn':
            x = run('nn', cat1, cat2)
            kw = {}
            if r1 is not None:
                kw['rr'] = run('nn', r1, r2)
                if stats.get('nn_statistic', 'compensated') == 'compensated':
                    kw['dr'] = run('nn', cat1, r2 if r2 is not None else r1)
                    if cat2 is not None:
                        kw['rd'] = run('nn', r1, cat2)
            x.write(fn(t), **kw)
        elif t in ('nm', 'norm', 'ng'):
            x = run('ng', cat1, cat2)
            rg = run('ng', r1, cat2) if comp('ng') else None
            if t == 'ng':
                x.write(fn(t), rg=rg)
            elif t == 'nm':
                x.writeNMap(fn(t), rg=rg, m2_uform=b.get('m2_uform', 'Crittenden'),
                            precision=b['precision'])
            else:
                kw = {}
                if stats.get('nn_statistic', 'compensated') == 'compensated':
                    kw['dr'] = run('nn', cat1, r1)
                x.writeNorm(fn(t), gg=run('gg', cat2), dd=run('nn', cat1), rr=run('nn', r1), rg=rg,
                            m2_uform=b.get('m2_uform', 'Crittenden'), precision=b['precision'], **kw)
        elif t == 'm2':
            run('gg', cat1, cat2).writeMapSq(fn(t), m2_uform=b.get('m2_uform', 'Crittenden'),
                                             precision=b['precision'])
        elif t[0] == 'n':
            x = run(t, cat1, cat2)
            kw = {'r' + t[1]: run(t, r1, cat2)} if comp(t) else {}
            x.write(fn(t), **kw)
        else:
            run(t, cat1, cat2).write(fn(t))


def api3(treecorr, c, outputs, fn, stats):
    b = dict(c['bins'], num_threads=1)
    cat, ran = [build_cats(treecorr, c, k) for k in ('file_name', 'rand_file_name')]
    for t in outputs:
        L = dict(m3='ggg').get(t, t)
        cls = getattr(treecorr, L.upper() + 'Correlation')
        x = cls(**b)
        x.process(cat)
        if t == 'm3':
            x.writeMap3(fn(t), precision=b['precision'])
            continue
        kw = {}
        if t == 'nnn' and ran is not None:
            kw['rrr'] = cls(**b)
            kw['rrr'].process(ran)
            if stats.get('nnn_statistic', 'compensated') == 'compensated':
                kw['drr'] = cls(**b)
                kw['drr'].process(cat, ran, ordered=False)
                kw['rdd'] = cls(**b)
                kw['rdd'].process(ran, cat, ordered=False)
        x.write(fn(t), **kw)


# Expressing configurations

def word(q, v, key):
    """A value in params syntax."""
    if isinstance(v, bool):
        return q.choice(['true', 'True', 'yes', 'T', 'y', 'Y'] if v else
                        ['false', 'False', 'no', 'F', 'n', 'N', 'none'])
    if v is None:
        raise ValueError
    return str(v)


def params_line(q, k, v):
    if isinstance(v, list):
        w = [word(q, x, k) for x in v]
        o, e = q.choice(['[]', '()', '{}'])
        style = q.randrange(2)
        if style == 0 or len(v) == 1:
            s = o + q.choice([',', ', ', ' , ']).join(w) + e
        else:
            s = q.choice([' ', '  ']).join(w)
    else:
        s = word(q, v, k)
    tail = q.choice(['', '', '', ' # note', '#x=y'])
    return k + q.choice(['=', ' = ', ' =', '= ']) + s + tail


def can_params(v):
    vs = v if isinstance(v, list) else [v]
    return all(not (isinstance(x, str) and any(ch in x for ch in '#, \t')) and x is not None
               for x in vs)


def native(q, v, loose=True):
    """A value for yaml or json: the same value in one of the types that are accepted."""
    if isinstance(v, list):
        return [native(q, x, loose) for x in v]
    if isinstance(v, bool):
        return v if q.random() < 0.8 else word(q, v, '')
    if isinstance(v, (int, float)) and loose and q.random() < 0.25:
        return str(v)
    if isinstance(v, str) and v.isdigit() and q.random() < 0.5:
        return int(v)
    return v


def write_config(q, conf, d, tag):
    """Returns (file name, file type option)."""
    import yaml
    kind = q.choice(['yaml', 'json', 'params', 'params'])
    keys = list(conf)
    q.shuffle(keys)
    if kind == 'params' and not all(can_params(v) for v in conf.values()):
        kind = 'yaml'
    opt = q.random() < 0.3
    fn = os.path.join(d, tag + ('.conf' if opt else '.' + kind))
    if kind == 'params':
        lines = []
        inc = None
        if q.random() < 0.4:
            # some keys in an included file; a wrong value there may be overridden here
            inc = [k for k in keys if q.random() < 0.4]
            sub = {k: conf[k] for k in inc}
            keys = [k for k in keys if k not in inc]
            if keys and q.random() < 0.5:
                k = q.choice(keys)
                if isinstance(conf[k], (int, float)) and not isinstance(conf[k], bool):
                    sub[k] = conf[k] + 1
            fn2, _ = write_config_plain(q, sub, d, tag + '_inc')
            lines.append('+' + fn2)
        for k in keys:
            lines.append(params_line(q, k, conf[k]))
            if q.random() < 0.2:
                lines.append(q.choice(['', '# comment', '   ', '#x = 3']))
        with open(fn, 'w') as f:
            f.write('\n'.join(lines) + '\n')
    else:
        write_native(q, {k: native(q, conf[k]) for k in keys}, fn, kind)
    return fn, kind if opt else None


def write_config_plain(q, conf, d, tag):
    kind = q.choice(['yaml', 'json', 'params'])
    if kind == 'params' and not all(can_params(v) for v in conf.values()):
        kind = 'json'
    fn = os.path.join(d, tag + '.' + kind)
    if kind == 'params':
        with open(fn, 'w') as f:
            f.write('\n'.join(params_line(q, k, v) for k, v in conf.items()) + '\n')
    else:
        write_native(q, conf, fn, kind)
    return fn, None


def write_native(q, conf, fn, kind):
    import yaml
    with open(fn, 'w') as f:
        if kind == 'json':
            json.dump(conf, f)
        else:
            yaml.safe_dump(conf, f, default_flow_style=q.choice([True, False, None]))


@contextlib.contextmanager
def quiet():
    out, err = io.StringIO(), io.StringIO()
    a, b = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    try:
        yield out
    finally:
        sys.stdout, sys.stderr = a, b


def drop_loggers():
    for n in list(logging.Logger.manager.loggerDict):
        if n.startswith('treecorr'):
            lg = logging.getLogger(n)
            for h in list(lg.handlers):
                lg.removeHandler(h)
                h.close()


def program(prog):
    from vlib import build
    return os.path.join(build.REPO, 'scripts', prog)


def launch(treecorr, q, c, prog, conf, d, mon, sub, tag='conf'):
    """Runs a configuration in one of the ways."""
    how = q.choice(['script', 'script', 'script', 'function', 'read_config']) if not sub else 'script'
    mon.cover('how', how)
    if how == 'function':
        before = copy.deepcopy(conf)
        drop_loggers()
        with quiet():
            getattr(treecorr, prog)(conf)
        mon.check(conf == before, 'config argument changed', got=conf, want=before)
        return
    if how == 'read_config':
        fn, ft = write_config(q, conf, d, tag)
        drop_loggers()
        with quiet():
            got = treecorr.read_config(fn, **({'file_type': ft} if ft else {}))
            getattr(treecorr, prog)(got)
        return
    base, over = dict(conf), []
    if q.random() < 0.6:
        for k in list(base):
            if q.random() < 0.2 and can_params(base[k]):
                v = base[k]
                # the command line replaces the value in the file
                if q.random() < 0.5 or k.endswith('list') or k.startswith('rand') or \
                        k.startswith('file_name'):
                    base.pop(k)
                elif isinstance(v, (int, float)) and not isinstance(v, bool):
                    base[k] = v + 1
                over.append(params_line(q, k, v).split('#')[0])
                mon.count('overrides')
    fn, ft = write_config(q, base, d, tag)
    argv = [fn] + over
    if ft:
        argv = ['-f', ft] + argv if q.random() < 0.5 else argv + ['--file_type=' + ft]
    log = None
    if q.random() < 0.25 and 'log_file' not in conf:
        log = os.path.join(d, 'log.txt')
        argv = argv + q.choice([['-l', log], ['--log_file', log]])
    if q.random() < 0.2:
        argv = ['-v', q.choice(['0', '1', '2'])] + argv
    if sub:
        import subprocess
        mon.count('subprocesses')
        boot = ('import sys; sys.path.insert(0, %r)\n'
                'from vlib import inject\ninject.install(%r)\nimport runpy\n'
                'sys.argv = %r\nrunpy.run_path(%r, run_name="__main__")\n' % (
                    os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                    os.path.dirname(
                        sys.modules['treecorr._treecorr'].__file__), [prog] + argv, program(prog)))
        p = subprocess.run([sys.executable, '-c', boot], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, cwd=d, timeout=100)
        if p.returncode:
            raise RuntimeError(p.stderr.decode()[-1500:])
    else:
        drop_loggers()
        old = sys.argv
        sys.argv = [prog] + argv
        try:
            with quiet():
                runpy.run_path(program(prog), run_name='__main__')
        finally:
            sys.argv = old
    if log:
        mon.check(os.path.exists(log), 'log file not written')


def run(c, mon):
    import treecorr
    scratch = os.path.join(os.environ['VERIF_SCRATCH'], 'c19')
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    cwd = os.getcwd()
    os.chdir(scratch)
    try:
        with np.errstate(all='ignore'):
            dict(run2=run_programs, run3=run_programs, parse=run_parse,
                 reject=run_reject)[c['kind']](treecorr, c, mon, scratch)
    finally:
        drop_loggers()
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


EXT = ['.out', '.txt', '.fits', '.hdf5']


def choose_outputs(q, c, three):
    if three:
        pool = (['nnn'] if not c['rand'] or c['bins']['bin_type'] != 'LogMultipole' else []) + \
            ['kkk', 'ggg'] + (['m3'] if c['bins'].get('bin_type') == 'LogRUV' else [])
    else:
        pool = list(TWO) if c['second'] else [t for t in TWO if t[0] == t[1] or t == 'm2']
        if not (c['second'] and c['rand']):
            pool = [t for t in pool if t != 'norm']
        if c['bins'].get('bin_type', 'Log') != 'Log':
            pool = [t for t in pool if t not in ('m2', 'nm', 'norm')]
    q.shuffle(pool)
    return pool[:q.choice([1, 2, 4, 7, 21])]


def run_programs(treecorr, c0, mon, d):
    q = gen.prng('run', c0['seed'])
    three = c0['kind'] == 'run3'
    c = scenario(q, d, three)
    outs = choose_outputs(q, c, three)
    conf = c['conf']
    mon.count('lists', c['lists'])
    stats = {}
    for t in ('nnn',) if three else ('nn', 'nk', 'nz', 'nv', 'ng', 'nt', 'nq'):
        if q.random() < 0.4:
            v = q.choice(['simple', 'compensated'])
            # This needs randoms.
            if v == 'compensated' and not c['rand'] and t[:2] != 'nn':
                continue
            stats[t + '_statistic'] = v
    conf.update(stats)
    ext = {t: q.choice(EXT) for t in outs}
    for t in outs:
        conf[t + '_file_name'] = os.path.join(d, q.choice(['', 'res']), 'got_' + t + ext[t])
    want = lambda t: os.path.join(d, 'want_' + t + ext[t])
    prog = 'corr3' if three else 'corr2'
    launch(treecorr, q, c, prog, conf, d, mon, c0['sub'])
    logging.disable(logging.CRITICAL)
    (api3 if three else api2)(treecorr, c, outs, want, stats)
    logging.disable(logging.NOTSET)
    for t in outs:
        fn = conf[t + '_file_name']
        if not mon.check(os.path.exists(fn), 'no output for ' + t):
            continue
        mon.count('outputs')
        compare_files(mon, t, fn, want(t), conf['precision'])
        mon.cover('output', t)
    for k in ('coords', 'second', 'npatch', 'rand'):
        mon.cover(k, c[k])
    mon.cover('formats', '+'.join(s['format'] for s in c['slots']))
    made = [f for f in os.listdir(d) if f.startswith('got_')]
    if os.path.isdir(os.path.join(d, 'res')):
        made += os.listdir(os.path.join(d, 'res'))
    mon.equal('output files', len(made), len(outs))
    mon.nontrivial((prog, c['coords'], c['second'], c['rand'], c['npatch'], tuple(sorted(outs))[:3],
                    c['bins'].get('bin_type'), c['bins'].get('metric')))


def compare_files(mon, t, fn, ref, prec):
    fmt = dict(fits='FITS', hdf5='HDF').get(fn.rsplit('.')[-1], 'ASCII')
    a, b = read_columns(fn, fmt, None), read_columns(ref, fmt, None)
    if not mon.check(sorted(a) == sorted(b), t + ': columns', got=sorted(a), want=sorted(b)):
        return
    use = slice(None)
    wt = b.get('weight', b.get('DDD', b.get('ntri'))) if t in THREE else None
    if wt is not None:
        # the multipole algorithm leaves rounding errors in bins without triangles
        use = np.abs(wt) > 1e-7 * np.max(np.abs(wt))
        if 'RRR' in b:
            use &= np.abs(b['RRR']) > 1e-7 * max(np.max(np.abs(b['RRR'])), np.max(np.abs(wt)), 1e-3)
        if 'weight_re' in b:
            use &= np.hypot(b['weight_re'], b['weight_im']) > 1e-7 * np.max(np.abs(b['weight_re']))
        for x in (a, b):
            for k in x:
                if len(x[k]) == len(use) and k not in ('weight', 'DDD', 'RRR', 'ntri'):
                    x[k] = x[k][use]
    for k in b:
        mon.count('columns')
        g, w = np.asarray(a[k], float), np.asarray(b[k], float)
        if not mon.check(g.shape == w.shape, '%s: shape of %s' % (t, k), got=g.shape, want=w.shape):
            continue
        f = np.isfinite(w)
        s = np.max(np.abs(w[f]), initial=0)
        mon.close('%s: column %s' % (t, k), g, w, 1e-9 * s + 1e-12, rtol=1e-7)


# Parsing

def params_of(treecorr, prog):
    import treecorr.exec_corr2 as e2
    import treecorr.exec_corr3 as e3
    return e2.corr2_valid_params if prog == 'corr2' else e3.corr3_valid_params


def random_value(q, key, spec):
    """(value, whether it is a list)"""
    typ, may, default, valid = spec[:4]

    def one():
        if valid is not None:
            if key == 'brute':
                return q.choice([True, False])
            return q.choice(valid)
        if typ is bool:
            return q.choice([True, False])
        if typ is int:
            return q.choice([0, 1, -3, 17, 123456])
        if typ is float:
            return q.choice([0., 1.5, -2e-7, 1e10, 3.])
        if typ is list:
            return [q.choice(['a', 'col', 'RA', 'e1x']) for _ in range(q.choice([1, 2, 3]))]
        return q.choice(['a', 'abc', 'x.fits', '/tmp/q/r.dat', 'a-b_c', '1', '12', '0.5', 'a=b',
                         'np.sqrt(g1)', '2*x+1'])
    if may and q.random() < 0.4:
        return [one() for _ in range(q.choice([2, 2, 3]))]
    return one()


def typed(v):
    if isinstance(v, list):
        return [typed(x) for x in v]
    return (type(v).__name__, v)


def run_parse(treecorr, c0, mon, d):
    """Every source gives the same typed configuration."""
    q = gen.prng('parse', c0['seed'])
    prog = q.choice(['corr2', 'corr3'])
    valid = params_of(treecorr, prog)
    keys = sorted(valid)
    q.shuffle(keys)
    keys = keys[:q.choice([3, 10, 40])]
    conf = {k: random_value(q, k, valid[k]) for k in keys}
    expect = {k: v for k, v in conf.items()}
    for k, v in valid.items():
        if k not in expect and v[2] is not None:
            expect[k] = v[2]

    def get(raw, source):
        mon.count('parsed')
        got = treecorr.config.check_config(raw, valid)
        mon.check(set(got) == set(expect), source + ': keys', got=sorted(set(got) ^ set(expect)))
        for k in expect:
            if k in got:
                mon.check(typed(got[k]) == typed(expect[k]), '%s: %s' % (source, k), got=got[k],
                          want=expect[k])
    before = copy.deepcopy(conf)
    get(conf, 'dict')
    mon.check(conf == before, 'check_config changed its argument')
    for kind in ('yaml', 'json'):
        fn = os.path.join(d, 'a.' + kind)
        write_native(q, conf, fn, kind)
        get(treecorr.read_config(fn), kind)
        write_native(q, {k: native(q, v) if valid[k][0] not in (str, list) else v
                         for k, v in conf.items() if k not in ('brute',)} |
                     {k: v for k, v in conf.items() if k in ('brute',)}, fn, kind)
        get(treecorr.read_config(fn, file_type=kind), kind + ' (loose)')
    if all(can_params(v) for v in conf.values()):
        fn = os.path.join(d, 'a.params')
        with open(fn, 'w') as f:
            f.write('\n'.join(params_line(q, k, v) for k, v in conf.items()
                              if k != 'brute') + '\n')
            if 'brute' in conf:
                f.write('brute = %s\n' % conf['brute'])
        get(treecorr.read_config(fn), 'params')
        fn, ft = write_config(q, {k: v for k, v in conf.items() if k != 'brute'}, d, 'b')
        raw = treecorr.read_config(fn, file_type=ft or 'auto')
        if 'brute' in conf:
            raw['brute'] = str(conf['brute'])
        get(raw, 'mixed')
        raw = {}
        for k, v in conf.items():
            treecorr.config.parse_variable(raw, params_line(q, k, v) if k != 'brute' else
                                           'brute=%s' % v)
        get(raw, 'command line')
    mon.nontrivial(('parse', prog, len(keys), tuple(keys[:2])))


def bad_value(q, key, spec):
    """A value that is invalid in every source, or None."""
    typ, may, default, valid = spec[:4]
    if valid is not None:
        if typ is str:
            return q.choice(['Nope', 'xyz', 'euclid'])
        return q.choice([17, -4]) if typ is int else 'maybe'
    if typ is bool:
        return q.choice(['maybe', 'tru', '2.5', 2.5])
    if typ is int:
        return q.choice(['abc', '1.5', '3x'])
    if typ is float:
        return q.choice(['abc', '1.5.2', '3x'])
    return None


def run_reject(treecorr, c0, mon, d):
    q = gen.prng('reject', c0['seed'])
    three = q.random() < 0.4
    prog = 'corr3' if three else 'corr2'
    valid = params_of(treecorr, prog)
    c = scenario(q, d, three)
    base = dict(c['conf'], verbose=0)
    outs = choose_outputs(q, c, three)[:3]
    for t in outs:
        base[t + '_file_name'] = os.path.join(d, 'got_' + t + q.choice(EXT))
    for j in range(8):
        conf = dict(base)
        kind = q.choice(['unknown', 'value', 'value', 'value', 'missing', 'combination'])
        if kind == 'unknown':
            k = q.choice(['nbin', 'minsep', 'foo', 'File_name', 'sep_unit', 'ng_filename', 'kk_statistic',
                          'bin_typ', 'x_column', 'file_name3', ' verbose2', 'max_sepp'])
            if not three:
                k = q.choice([k, 'nubins', 'max_n', 'nnn_file_name', 'nphi_bins'])
            else:
                k = q.choice([k, 'nn_file_name', 'm2_uform', 'file_name2', 'min_rpar2'])
            if k.strip() in valid:
                continue
            conf[k] = q.choice(['1', 'abc', 3])
            what = 'unknown ' + k
        elif kind == 'value':
            k = q.choice([k for k in sorted(valid) if bad_value(q, k, valid[k]) is not None])
            conf[k] = bad_value(q, k, valid[k])
            if valid[k][1] and q.random() < 0.3:
                conf[k] = [conf[k], conf[k]]
            what = 'value of ' + k
        elif kind == 'missing':
            k = q.choice(['file', 'binning', 'rand2', 'file2'])
            if k == 'file':
                conf.pop('file_name', None)
                conf.pop('file_list', None)
            elif k == 'binning':
                conf.pop(q.choice(['max_sep', 'nbins']))
            elif k == 'rand2':
                if not (c['second'] and c['rand']):
                    continue
                for n in outs:
                    conf.pop(n + '_file_name')
                conf['nn_file_name'] = os.path.join(d, 'got_nn.out')
                conf.pop('rand_file_name2', None)
                conf.pop('rand_file_list2', None)
            else:
                if three or c['second']:
                    continue
                t = q.choice([t for t in TWO if t[0] in 'nk' and t[1] in 'kzvgtqm' and t != 'kk'])
                for n in outs:
                    conf.pop(n + '_file_name')
                conf[t + '_file_name'] = os.path.join(d, 'got_x.out')
            what = 'missing ' + k
        else:
            k = q.choice(['both', 'randoms2', 'statistic', 'file'])
            if k == 'both':
                if 'file_name' in conf:
                    with open(os.path.join(d, 'l.txt'), 'w') as f:
                        f.write(c['cats']['file_name'].files[0] + '\n')
                    conf['file_list'] = os.path.join(d, 'l.txt')
                else:
                    conf['file_name'] = c['cats']['file_name'].files[0]
            elif k == 'randoms2':
                if three or c['second'] or not c['rand']:
                    continue
                conf['rand_file_name2'] = c['cats']['rand_file_name'].files[0]
            elif k == 'statistic':
                if three or c['rand'] or not c['second']:
                    continue
                t = q.choice(['nk', 'nz', 'nv', 'ng', 'nt', 'nq'])
                for n in outs:
                    conf.pop(n + '_file_name')
                conf[t + '_file_name'] = os.path.join(d, 'got_x.out')
                conf[t + '_statistic'] = 'compensated'
            else:
                conf.pop('file_list', None)
                conf['file_name'] = os.path.join(d, 'nosuch.dat')
            what = 'combination ' + k
        try:
            launch(treecorr, q, c, prog, conf, d, _Null, False, 'c%d' % j)
        except (TypeError, ValueError, OSError, KeyError, AttributeError, RuntimeError) as e:
            mon.count('rejected')
            mon.cover('rejected', what)
        else:
            mon.fail('not rejected: ' + what, conf={k: v for k, v in conf.items()
                                                   if k not in c['conf'] or conf[k] != c['conf'][k]})
        made = [f for f in os.listdir(d) if f.startswith('got_')]
        mon.check(not made or kind in ('missing', 'combination'), what + ': outputs written', got=made)
        for f in made:
            os.remove(os.path.join(d, f))
    mon.nontrivial(('reject', c0['seed']))


class _Null(object):
    @staticmethod
    def count(*a):
        pass

    @staticmethod
    def cover(*a):
        pass

    @staticmethod
    def check(*a, **k):
        return True
