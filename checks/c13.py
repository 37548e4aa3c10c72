"""C13: cleaning of catalogs (row selection, flags, NaNs, weights, units, flips) against a
reference written from the documentation, and its effect on correlations."""
import copy
import numpy as np
from vlib import gen
from oracle import catref, pairs as P

RULE = ('Random raw columns (positions in every coordinate system and unit, random subsets of '
        'fields, weights and position weights with zeros and NaNs, integer flags, patch numbers) '
        'in many array containers; the real Catalog is compared column by column with reference '
        'cleaning rules, its totals and variances with their definitions, the inputs with '
        'snapshots, and correlations of the dirty catalog with those of the cleaned columns.  '
        'Non-trivial: some row was removed or zeroed and some survived; distinct by the set of '
        'features used.')
ASSUMPTIONS = ['integer flags only; infinities are not used as input',
               'rows with NaN positions are left out of single-patch selection by centers']
MIN_EVENTS = dict(clean=200, corr=60, select=40, combine=40, single=30, vars=40, invalid=30,
                  removed_rows=2000)

FIELDSETS = ['k', 'z', 'v', 'g', 't', 'q']
TWO = {'k': ['k']}


def cols_of(letters):
    out = []
    for l in letters:
        out += ['k'] if l == 'k' else [l + '1', l + '2']
    return out


def cases(tier, seed):
    q = gen.prng('C13', seed)
    out = []
    n = 2200 if tier == 'quick' else 40000
    kinds = ['clean', 'clean', 'clean', 'corr', 'select', 'combine', 'single', 'vars', 'clean',
             'invalid']
    for i in range(n):
        out.append(dict(kind=kinds[i % len(kinds)], seed=q.randrange(2 ** 31)))
    return out


def raw_columns(q, r, n=None, coords=None, nan=True, letters=None, patch=None):
    n = n or q.choice([1, 2, 3, 7, 20, 60, 200])
    coords = coords or q.choice(['flat', 'flat', '3d', 'spherical', '3dra', 'both'])
    raw = {}
    units = {}
    if coords in ('flat', '3d'):
        raw['x'] = r.uniform(-10, 10, n)
        raw['y'] = r.uniform(-10, 10, n)
        if coords == '3d':
            raw['z'] = r.uniform(-10, 10, n)
        elif q.random() < 0.4:
            units['x'], units['y'] = [q.choice(['deg', 'arcmin', 'arcsec', 'hours', 'radians'])
                                      for _ in range(2)]
    else:
        units['ra'] = q.choice(['deg', 'hours', 'rad', 'arcmin', 'degrees', 'arcsec'])
        units['dec'] = q.choice(['deg', 'rad', 'arcmin', 'degrees', 'arcsec', 'hours'])
        raw['ra'] = r.uniform(-0.5, 6.9, n) / P.ANGLE[units['ra']]
        raw['dec'] = np.arcsin(r.uniform(-1, 1, n)) / P.ANGLE[units['dec']]
        if coords != 'spherical':
            raw['r'] = r.uniform(1, 50, n)
        if coords == 'both':
            ra = raw['ra'] * P.ANGLE[units['ra']]
            dec = raw['dec'] * P.ANGLE[units['dec']]
            p = P.sph(ra, dec) * raw['r'][:, None]
            raw['x'], raw['y'], raw['z'] = p.T.copy()
    letters = letters if letters is not None else [l for l in FIELDSETS if q.random() < 0.3]
    for c in cols_of(letters):
        raw[c] = r.randint(-64, 65, n) / 32.
    wk = q.choice(['none', 'dyadic', 'zeros', 'ones', 'neg'])
    if wk == 'dyadic':
        raw['w'] = r.randint(1, 65, n) / 16.
    elif wk == 'zeros':
        raw['w'] = r.randint(0, 4, n) / 2.
    elif wk == 'ones':
        raw['w'] = np.ones(n)
    elif wk == 'neg':
        raw['w'] = r.randint(-1, 6, n) / 2.
    if q.random() < 0.3:
        raw['wpos'] = r.randint(0 if q.random() < 0.6 else 1, 5, n) / 2.
    if q.random() < 0.5:
        raw['flag'] = (r.randint(0, 16, n) * (r.uniform(0, 1, n) < q.choice([0.1, 0.5, 1.])))
    if patch or (patch is None and q.random() < 0.3):
        raw['patch'] = r.randint(0, q.choice([1, 3, 6]), n)
    feats = [coords, wk] + [f for f in ('wpos', 'flag', 'patch') if f in raw] + list(letters)
    if nan and q.random() < 0.6:
        for c in catref.COLS:
            if c in raw and q.random() < 0.35:
                bad = r.uniform(0, 1, n) < q.choice([0.02, 0.1, 0.3])
                raw[c] = raw[c].copy()
                raw[c][bad] = np.nan
                if bad.any():
                    feats.append('nan-' + c)
    return raw, units, feats


def options(q, raw, n, rows=True):
    o = {}
    if rows and q.random() < 0.4:
        o['first_row'] = q.choice([1, 1, 2, 3, max(1, n // 2)])
        if q.random() < 0.6:
            o['last_row'] = q.choice([-1, n, max(o['first_row'], n - 1),
                                      max(o['first_row'], n // 2), n + 5])
        if q.random() < 0.6:
            o['every_nth'] = q.choice([1, 2, 3, 7])
        o['first_row'] = min(o['first_row'], n)
    if 'flag' in raw:
        f = q.choice(['none', 'none', 'ignore', 'ok', 'okmask'])
        if f == 'ignore':
            o['ignore_flag'] = q.choice([0, 1, 2, 5, 8, 255])
        elif f == 'ok':
            o['ok_flag'] = q.choice([0, 1, 3, 6, 15])
    if q.random() < 0.4:
        o['keep_zero_weight'] = True
    fl = [c for c in catref.FIELDS if c in raw and c != 'k' and q.random() < 0.3]
    return o, fl


def kwargs_of(raw, units, o, fl):
    kw = dict(raw)
    kw.update(o)
    for c, u in units.items():
        kw[c + '_units'] = u
    for c in fl:
        kw['flip_' + c] = True
    if 'x' in raw and 'ra' in raw:
        kw['allow_xyz'] = True
    return kw


CONTAINERS = ['array', 'list', 'tuple', 'float32', 'strided', 'bigendian', 'readonly', '2d',
              'series', 'column', 'reversed', 'int']


def contain(q, kw, kind=None):
    """The same values in other array-likes.  float32/int are only used where exact."""
    out = {}
    used = set()
    for c, v in kw.items():
        if c not in catref.ALL or not isinstance(v, np.ndarray):
            out[c] = v
            continue
        k = kind or q.choice(CONTAINERS)
        if c == 'flag' or c == 'patch':
            k = {'float32': 'int32', '2d': 'array', 'int': 'int32'}.get(k, k)
        if k == 'list':
            x = v.tolist()
        elif k == 'tuple':
            x = tuple(v.tolist())
        elif k == 'float32':
            x = v.astype(np.float32)
            if not np.array_equal(x.astype(float), v, equal_nan=True):
                x = v
                k = 'array'
        elif k == 'int':
            x = v
            if not np.any(np.isnan(v)) and np.array_equal(v, np.round(v)):
                x = v.astype(int)
        elif k == 'int32':
            x = v.astype(np.int32)
        elif k == 'strided':
            b = np.full(3 * len(v), 99).astype(v.dtype)
            b[1::3] = v
            x = b[1::3]
        elif k == 'bigendian':
            x = v.astype(v.dtype.newbyteorder('>'))
        elif k == 'readonly':
            x = v.copy()
            x.setflags(write=False)
        elif k == '2d':
            x = v.reshape(1, -1)
        elif k == 'column':
            x = np.asarray(np.stack([v, v], axis=1))[:, 0]
        elif k == 'reversed':
            x = v[::-1].copy()[::-1]
        elif k == 'series':
            import pandas
            x = pandas.Series(v, index=np.arange(len(v))[::-1])
        else:
            x = v.copy()
        used.add(k)
        out[c] = x
    return out, used


def snapshot(kw):
    return {k: copy.deepcopy(v) for k, v in kw.items()}


def unchanged(mon, kw, snap):
    for k, v in kw.items():
        a, b = np.asarray(v), np.asarray(snap[k])
        same = (type(v) is type(snap[k]) and a.dtype == b.dtype and a.shape == b.shape and
                (np.array_equal(a, b, equal_nan=True) if a.dtype.kind == 'f'
                 else np.array_equal(a, b)))
        if not same:
            mon.fail('the input %s was modified' % k)
        mon.count('inputs_compared')
    if set(kw) != set(snap):
        mon.fail('the configuration keys were modified')


def built(mon, treecorr, kw, E):
    """Builds the catalog; checks rejection where the reference says there is nothing valid."""
    if E.invalid:
        mon.count('rejections')
        mon.raises('catalog without any valid weight accepted', (ValueError,),
                   lambda: treecorr.Catalog(**kw))
        return None
    if abs(E.sumw) < 1e-12:
        return None
    return treecorr.Catalog(**kw)


def run(c, mon):
    import treecorr
    q = gen.prng('C13case', c['seed'])
    r = gen.rstate('C13', c['seed'])
    mon.count(c['kind'])
    return globals()['run_' + c['kind']](c, mon, q, r, treecorr)


def ref_of(raw, units, o, fl, **kw):
    return catref.clean(raw, units=units, flips=fl, **dict(o, **kw))


def run_clean(c, mon, q, r, treecorr):
    raw, units, feats = raw_columns(q, r)
    n = len(next(iter(raw.values())))
    o, fl = options(q, raw, n)
    E = ref_of(raw, units, o, fl)
    kw = kwargs_of(raw, units, o, fl)
    kw, used = contain(q, kw)
    # through a config dict, keyword arguments or both
    cfg = None
    style = q.choice(['kw', 'config', 'both', 'num'])
    params = {k: v for k, v in kw.items() if k not in catref.ALL}
    cols = {k: v for k, v in kw.items() if k in catref.ALL}
    if style == 'config':
        cfg = params
        args = dict(cols, config=cfg)
    elif style == 'both':
        cfg = {k: v for k, v in params.items() if q.random() < 0.5}
        args = dict(cols, config=cfg, **{k: v for k, v in params.items() if k not in cfg})
    elif style == 'num':
        lists = ('first_row', 'last_row', 'every_nth', 'ra_units', 'dec_units', 'x_units',
                 'y_units', 'ignore_flag', 'ok_flag') + tuple('flip_' + f for f in catref.FIELDS)
        wrong = dict(first_row=2, last_row=2, every_nth=5, ra_units='hours', dec_units='hours',
                     x_units='hours', y_units='hours', ignore_flag=3, ok_flag=3)
        cfg = {k: ([v, wrong.get(k, False)] if k in lists else v) for k, v in params.items()}
        num = q.randrange(2)
        if num:
            cfg = {k: (v[::-1] if k in lists else v) for k, v in cfg.items()}
        if 'first_row' in cfg and 'last_row' not in cfg:
            pass
        args = dict(cols, config=cfg, num=num)
    else:
        args = kw
    snap = snapshot(args)
    cat = built(mon, treecorr, args, E)
    unchanged(mon, args, snap)
    if cat is None:
        return
    if E.ntot == 0:
        return
    catref.compare(mon, E, cat)
    catref.compare_vars(mon, E, cat)
    unchanged(mon, args, snap)
    mon.count('removed_rows', E.n_removed)
    mon.count('bad_rows', E.n_bad)
    # arrays of the catalog are its own
    for k in catref.COLS:
        v = args.get(k)
        a = getattr(cat, k)
        if a is not None and isinstance(v, np.ndarray) and np.shares_memory(a, v):
            mon.fail('column %s shares memory with the input' % k)
    for f in feats:
        mon.cover('feature', f)
    for u in used:
        mon.cover('container', u)
    mon.cover('style', style)
    if E.n_bad + E.n_removed and E.nobj:
        mon.nontrivial('clean-' + '-'.join(sorted(feats)) + '-' + '-'.join(sorted(o)))


def run_corr(c, mon, q, r, treecorr):
    """Sums over a catalog with bad rows equal those over the surviving rows only."""
    letter = q.choice('NKZVGTQ')
    letters = [] if letter == 'N' else [letter.lower()]
    raw, units, feats = raw_columns(q, r, n=q.choice([4, 12, 40, 100]), letters=letters,
                                    patch=False)
    n = len(next(iter(raw.values())))
    if 'w' in raw:
        raw['w'] = np.abs(raw['w'])
    o, fl = options(q, raw, n)
    E = ref_of(raw, units, o, fl)
    if E.invalid or E.ntot == 0 or E.nobj < 2:
        return
    cat = treecorr.Catalog(**kwargs_of(raw, units, o, fl))
    good = E.col['w'] != 0
    # the same rows given clean: only rows with non-zero weight, in internal units
    ckw = {k: v[good] for k, v in E.col.items() if not (E.made_xyz and k in 'xyz')}
    if 'wpos' in ckw and q.random() < 0.5:
        ckw.pop('wpos')            # with no slop the position weight does not matter
    if 'ra' in ckw:
        ckw.update(ra_units='rad', dec_units='rad', allow_xyz='x' in ckw)
    ref = treecorr.Catalog(**ckw)
    corr = treecorr.__dict__[{'N': 'NN'}.get(letter, letter + letter) + 'Correlation']
    d = np.stack([ref.x, ref.y] + ([ref.z] if ref.z is not None else []), axis=1)
    dd = np.sqrt(np.sum((d[:, None] - d[None]) ** 2, axis=2))
    dd = np.sort(dd[dd > 1e-9])
    if len(dd) == 0:
        return
    lo, hi = dd[0] * 0.9, dd[-1] * 1.1
    a, b = [corr(min_sep=lo, max_sep=hi, nbins=3, bin_slop=0, angle_slop=0) for _ in range(2)]
    a.process(cat)
    b.process(ref)
    mon.equal('npairs', a.npairs, b.npairs)
    mon.close('weight', a.weight, b.weight, 0, 1e-12)
    mon.close('meanr*weight', a.meanr * a.weight, b.meanr * b.weight, 0, 1e-9)
    if letter == 'N':
        mon.close('tot', a.tot, b.tot, 0, 1e-12)
    else:
        for x in ('xi', 'xip', 'xim'):      # imaginary parts depend on the order in pairs
            if hasattr(a, x):
                mon.close(x, getattr(a, x), getattr(b, x), 1e-9, 0)
        mon.close('varxi', getattr(a, 'varxi', getattr(a, 'varxip', 0)),
                  getattr(b, 'varxi', getattr(b, 'varxip', 0)), 1e-300, 1e-8)
    mon.count('pairs_compared', float(np.sum(b.npairs)))
    if q.random() < 0.5 and np.all(raw.get('w', np.ones(1)) >= 0):
        # with slop the tree sees the zero-weight objects: weights stay the same
        hi2, lo2 = hi, lo
        a, b = [corr(min_sep=lo2, max_sep=hi2, nbins=1) for _ in range(2)]
        a.process(cat)
        b.process(ref)
        mon.close('total weight', a.weight, b.weight, 0, 1e-10)
        mon.count('slop_compared')
    if E.n_bad + E.n_removed:
        mon.nontrivial('corr-%s-%s-%s' % (letter, feats[0], bool(o.get('keep_zero_weight'))))
    if (letter == 'N' and o.get('keep_zero_weight') and E.nobj < E.ntot and 'wpos' not in raw):
        # documented: such objects "would be included ... in npairs calculations"
        full = np.stack([E.col['x'], E.col['y']] + ([E.col['z']] if 'z' in E.col else []), axis=1)
        f = np.sqrt(np.sum((full[:, None] - full[None]) ** 2, axis=2))[np.triu_indices(len(full), 1)]
        nall = int(np.sum((f >= lo) & (f < hi)))
        a = treecorr.NNCorrelation(min_sep=lo, max_sep=hi, nbins=1, brute=True)
        a.process(cat)
        got = float(np.sum(a.npairs))
        nused = float(np.sum((dd >= lo) & (dd < hi))) / 2
        if got == nall:
            pass
        elif got == nused:
            mon.finding('C13-zero-weight-npairs',
                        'npairs leaves out the zero-weight objects of keep_zero_weight')
        else:
            mon.fail('npairs with keep_zero_weight', got=got, all=nall, nonzero=nused)


def run_select(c, mon, q, r, treecorr):
    """cat.select(indx) leaves the catalog that has just those rows."""
    raw, units, feats = raw_columns(q, r)
    n = len(next(iter(raw.values())))
    if 'w' in raw:
        raw['w'] = np.abs(raw['w'])
    o, fl = options(q, raw, n)
    E = ref_of(raw, units, o, fl)
    if E.invalid or E.ntot < 2 or E.sumw == 0:
        return
    kw = kwargs_of(raw, units, o, fl)
    user = {}
    for l in 'kg':
        if cols_of([l])[0] in raw and q.random() < 0.3:
            user['var' + l] = 0.5
    kw.update(user)
    cat = treecorr.Catalog(**kw)
    # use it first, so that everything that can be cached is cached
    if q.random() < 0.7:
        cat.nobj, cat.sumw2, cat.patch_centers if 'patch' not in raw else None
        [getattr(cat, 'var' + l) for l in 'kzvgtq']
        cat.getNField()
        cat._get_center_size()
        if cat.patch is not None and np.all(E.col['w'] != 0):
            cat.patches
        mon.count('select_after_use')
    how = q.choice(['mask', 'indices', 'slice', 'order'])
    m = len(E.col['w'])
    if how == 'mask':
        ix = r.uniform(0, 1, m) < 0.6
    elif how == 'indices':
        ix = np.sort(r.permutation(m)[:max(1, m // 2)])
    elif how == 'order':
        ix = r.permutation(m)[:max(1, 2 * m // 3)]
    else:
        ix = slice(q.randrange(m), None, q.choice([1, 2]))
    F = copy.copy(E)
    F.col = {k: v[ix] for k, v in E.col.items()}
    F.index = E.index[ix]
    if E.patch is not None:
        F.patch = E.patch[ix]
    F.ntot = len(F.col['w'])
    F.nobj = int(np.sum(F.col['w'] != 0))
    F.sumw = np.sum(F.col['w'])
    F.sumw2 = np.sum(F.col['w'] ** 2)
    if F.ntot == 0 or F.sumw == 0:
        return
    cat.select(ix)
    catref.compare(mon, F, cat, label='after select: ')
    for l in 'kzvgtq':
        if 'var' + l in user:
            mon.equal('user var after select', getattr(cat, 'var' + l), user['var' + l])
    for k in list(F.col):
        if 'var' + k[0] in user:
            F = copy.copy(F)
            F.col = dict(F.col)
            F.col.pop(k)
    G = copy.copy(F)
    for l in 'kzvgtq':
        if 'var' + l in user:
            continue
        cols = cols_of([l])
        want = np.mean([catref.mean_var(G, x)[1] for x in cols])
        mon.close('after select: var' + l, getattr(cat, 'var' + l), want, 1e-11, 1e-10)
    # (a patch without any weight is an invalid catalog on its own)
    whole = F.patch is None or all(np.sum(F.col['w'][F.patch == i]) for i in set(F.patch))
    f = cat.getNField()
    mon.equal('after select: points in field', int(f.ntot if hasattr(f, 'ntot') else F.ntot),
              F.ntot)
    if cat.patch is not None and np.ndim(cat.patch) and whole:
        tot = sum(p.ntot for p in cat.get_patches())
        mon.equal('after select: objects in patches', tot, F.ntot)
    # and a correlation
    if F.nobj > 2 and whole:
        nn = treecorr.NNCorrelation(min_sep=1e-3, max_sep=100, nbins=1, bin_slop=0)
        nn.process(cat)
        p = np.stack([F.col['x'], F.col['y']] + ([F.col['z']] if 'z' in F.col else []), axis=1)
        p = p[F.col['w'] != 0]
        w = F.col['w'][F.col['w'] != 0]
        d = np.sqrt(np.sum((p[:, None] - p[None]) ** 2, axis=2))[np.triu_indices(len(p), 1)]
        ww = (w[:, None] * w[None])[np.triu_indices(len(p), 1)]
        near = np.abs(d - 1e-3) < 1e-9
        ok = (d >= 1e-3) & (d < 100)
        if not near.any() and np.max(d) < 99:
            if F.coords == 'spherical':
                pass
            else:
                mon.close('after select: pair weight', nn.weight[0], np.sum(ww[ok]), 1e-9, 1e-9)
        if cat.patch is None or np.ndim(cat.patch) == 0:
            mon.close('after select: tot', nn.tot, 0.5 * np.sum(w) ** 2, 0, 1e-10)
    mon.nontrivial('select-%s-%s' % (how, feats[0]))


def run_combine(c, mon, q, r, treecorr):
    nc = q.choice([1, 2, 3])
    coords = q.choice(['flat', '3d', 'spherical', '3dra'])
    letters = [l for l in FIELDSETS if q.random() < 0.3]
    Es, cats = [], []
    wk = q.random()
    wp = q.random() < 0.2
    for i in range(nc):
        raw, units, feats = raw_columns(q, r, coords=coords, letters=letters, nan=False,
                                        patch=False)
        n = len(next(iter(raw.values())))
        raw.pop('flag', None)
        raw.pop('w', None)
        raw.pop('wpos', None)
        if wk < 0.6:
            raw['w'] = r.randint(0 if wk < 0.3 else 1, 5, n) / 2.
        if wp:
            raw['wpos'] = r.randint(1, 5, n) / 2.
        keep = q.random() < 0.5
        E = ref_of(raw, units, dict(keep_zero_weight=keep), ())
        if E.invalid or E.ntot == 0:
            return
        Es.append(E)
        cats.append(treecorr.Catalog(keep_zero_weight=keep, **kwargs_of(raw, units, {}, ())))
    masks = None
    if q.random() < 0.5:
        masks = [r.uniform(0, 1, E.ntot) < 0.6 for E in Es]
        if q.random() < 0.3:
            masks = [np.where(m)[0] for m in masks]
    F = copy.copy(Es[0])
    F.col = {}
    for k in Es[0].col:
        F.col[k] = np.concatenate([E.col[k] if masks is None else E.col[k][m]
                                   for E, m in zip(Es, masks or [0] * nc)])
    if len(F.col['w']) == 0 or np.sum(F.col['w']) == 0:
        return
    before = [{k: np.copy(getattr(x, k)) for k in E.col} for x, E in zip(cats, Es)]
    anyzero = any(np.any(E.col.get('wpos', E.col['w']) == 0) for E in Es)
    first = np.any(Es[0].col.get('wpos', Es[0].col['w']) == 0)
    cat = treecorr.Catalog.combine(cats, mask_list=masks)
    if not first:
        # zero weights are kept according to the first catalog
        good = F.col.get('wpos', F.col['w']) != 0
        F.col = {k: v[good] for k, v in F.col.items()}
        if anyzero:
            mon.count('mixed_zero_weights')
    F.index = np.arange(len(F.col['w']))
    F.ntot = len(F.col['w'])
    F.nobj = int(np.sum(F.col['w'] != 0))
    F.sumw = np.sum(F.col['w'])
    F.sumw2 = np.sum(F.col['w'] ** 2)
    catref.compare(mon, F, cat, label='combined: ', patch=None)
    for x, b in zip(cats, before):
        for k, v in b.items():
            if not np.array_equal(getattr(x, k), v):
                mon.fail('combine changed column %s of an input catalog' % k)
    mon.nontrivial('combine-%s-%d-%s-%s' % (coords, nc, masks is not None, wk < 0.6))


def run_single(c, mon, q, r, treecorr):
    """One patch of array input, selected by number or by centers."""
    by = q.choice(['centers', 'none'])
    raw, units, feats = raw_columns(q, r, patch=False, n=q.choice([5, 20, 80]))
    n = len(next(iter(raw.values())))
    o, fl = options(q, raw, n)
    for k in ('x', 'y', 'z', 'ra', 'dec', 'r'):
        if k in raw:
            raw[k] = np.nan_to_num(raw[k])
    npatch = q.choice([2, 3, 5])
    E0 = catref.clean({k: v for k, v in raw.items() if k in ('x', 'y', 'z', 'ra', 'dec', 'r')},
                      units=units)
    p = np.stack([E0.col['x'], E0.col['y']] + ([E0.col['z']] if 'z' in E0.col else []), axis=1)
    ip = q.randrange(npatch)
    if by == 'centers':
        cen = p[r.permutation(n)[:npatch]] + r.normal(0, 0.01, (min(n, npatch), p.shape[1]))
        npatch = len(cen)
        ip = q.randrange(npatch)
        # TreeCorr compares with centers as they are given
        d = np.sum((p[:, None] - cen[None]) ** 2, axis=2)
        label = np.argmin(d, axis=1)
        srt = np.sort(d, axis=1)
        if npatch > 1 and np.any(srt[:, 1] - srt[:, 0] < 1e-9 * (1 + srt[:, 0])):
            return
        kw = kwargs_of(raw, units, o, fl)
        E = ref_of(dict(raw, patch=label), units, o, fl, patch_only=ip)
        kw.update(patch=ip, patch_centers=cen)
    else:
        E = ref_of(raw, units, o, fl)
        kw = kwargs_of(raw, units, o, fl)
        kw.update(patch=ip, npatch=npatch)
    if E.invalid or E.ntot == 0 or abs(E.sumw) < 1e-12:
        return
    cat = treecorr.Catalog(**kw)
    catref.compare(mon, E, cat, label='single patch: ', patch=ip)
    mon.count('removed_rows', E.n_removed)
    mon.nontrivial('single-%s-%s' % (by, '-'.join(sorted(feats[:4]))))


def run_vars(c, mon, q, r, treecorr):
    """Variance of a list of catalogs = that of the concatenation; user values win."""
    letter = q.choice('kzvgtq')
    Es, cats, users = [], [], []
    nc = q.choice([1, 2, 3, 5])
    user = q.random() < 0.3
    for i in range(nc):
        raw, units, feats = raw_columns(q, r, coords='flat', letters=[letter], patch=False,
                                        nan=q.random() < 0.3)
        if 'w' in raw:
            raw['w'] = np.abs(raw['w'])
        for k in cols_of([letter]):
            raw[k] = raw[k] + q.choice([0., 1., 30.])
        n = len(next(iter(raw.values())))
        o, fl = options(q, raw, n)
        E = ref_of(raw, units, o, fl)
        if E.invalid or E.ntot == 0:
            continue
        kw = kwargs_of(raw, units, o, fl)
        if user:
            kw['var' + letter] = 0.125 * (i + 1)
        users.append((0.125 * (i + 1), E.sumw))
        Es.append(E)
        cats.append(treecorr.Catalog(**kw))
    if not cats:
        return
    fn = getattr(treecorr, 'calculateVar' + letter.upper())
    low = q.random() < 0.5
    if q.random() < 0.5 and len(cats) == 1:
        got = fn(cats[0], low_mem=low)
    else:
        got = fn(cats, low_mem=low)
    if user:
        want = sum(a * b for a, b in users) / sum(b for a, b in users)
        tol = 1e-12
    else:
        want = catref.field_var(Es, letter)
        tol = 1e-9 * sum(np.max(np.abs(E.col[k])) ** 2 * E.sumw2 / E.sumw
                         for E in Es for k in cols_of([letter]))
    mon.close('var of %d catalogs' % len(cats), got, want, tol + 1e-300, 1e-10)
    mon.nontrivial('vars-%s-%d-%s-%s' % (letter, len(cats), user, low))


def run_invalid(c, mon, q, r, treecorr):
    raw, units, feats = raw_columns(q, r, n=q.choice([3, 20]), nan=False,
                                    letters=[l for l in FIELDSETS if q.random() < 0.6])
    for k in ('w', 'wpos'):
        if k in raw:
            raw[k] = np.ones(len(raw[k]))
    if 'flag' in raw:
        raw['flag'] = np.zeros(len(raw['flag']), dtype=int)
    n = len(next(iter(raw.values())))
    kw = kwargs_of(raw, units, {}, ())
    treecorr.Catalog(**kw)       # valid as it is
    opts = []
    for k in [x for x in catref.ALL if x in raw]:
        opts.append(('length', k))
        if k in ('x', 'y', 'ra', 'dec') or (k in catref.FIELDS and k != 'k'):
            if not ('x' in raw and 'ra' in raw and k in ('ra', 'dec')):
                opts.append(('partner', k))
    for u in units:
        opts.append(('nounit', u))
    opts += [('first0', ''), ('lastfirst', ''), ('nth0', ''), ('unknown', ''), ('badunit', ''),
             ('allzero', ''), ('allflag', ''), ('npatch0', ''), ('npatchsmall', ''),
             ('file+arrays', ''), ('nopos', ''), ('xyz', ''), ('empty', '')]
    what, k = q.choice(opts)
    bad = dict(kw)
    exc = (ValueError, TypeError)
    if what == 'length':
        bad[k] = bad[k][:-1] if q.random() < 0.5 else np.concatenate([bad[k], bad[k][:1]])
        if k == 'flag':
            exc = (ValueError, TypeError, IndexError)
    elif what == 'partner':
        bad.pop(k)
        if k in ('x', 'y', 'ra', 'dec'):
            if k + '_units' in bad and q.random() < 0.5:
                bad.pop(k + '_units')
    elif what == 'nounit':
        if k in 'xy':
            bad.pop(k + '_units')
        else:
            bad.pop(k + '_units')
    elif what == 'first0':
        bad['first_row'] = q.choice([0, -1])
    elif what == 'lastfirst':
        bad.update(first_row=3, last_row=q.choice([1, 2]))
    elif what == 'nth0':
        bad['every_nth'] = q.choice([0, -2])
    elif what == 'unknown':
        bad[q.choice(['wieght', 'ra_unit', 'K', 'g3', 'flip_k'])] = 1
    elif what == 'badunit':
        if 'ra' in raw:
            bad['ra_units'] = 'parsec'
        else:
            bad.update(x_units='parsec', y_units='parsec')
    elif what == 'allzero':
        bad['w'] = np.zeros(n)
    elif what == 'allflag':
        bad['flag'] = np.ones(n, dtype=int)
    elif what == 'npatch0':
        bad.pop('patch', None)
        bad['npatch'] = q.choice([0, -1])
    elif what == 'npatchsmall':
        bad['patch'] = np.arange(n)
        bad['npatch'] = n - 1
    elif what == 'file+arrays':
        bad['file_name'] = 'nosuch.dat'
    elif what == 'nopos':
        for x in ('x', 'y', 'z', 'ra', 'dec', 'r', 'x_units', 'y_units', 'ra_units', 'dec_units'):
            bad.pop(x, None)
    elif what == 'xyz':
        if 'x' in raw and 'ra' in raw:
            bad.pop('allow_xyz')
        elif 'x' in raw:
            bad.update(ra=raw['x'], dec=raw['y'], ra_units='deg', dec_units='deg')
        else:
            bad.update(x=raw['ra'], y=raw['dec'])
    elif what == 'empty':
        bad = {kk: (v[:0] if kk in catref.ALL else v) for kk, v in bad.items()}
    snap = snapshot(bad)
    mon.raises('%s %s' % (what, k), exc, lambda: treecorr.Catalog(**bad))
    unchanged(mon, bad, snap)
    mon.cover('invalid', what + k)
    mon.nontrivial('invalid-' + what + k)
