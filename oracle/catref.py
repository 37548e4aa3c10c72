"""Reference semantics of Catalog construction, written from the documentation: row selection,
units, flips, flags, NaNs, zero weights, generated coordinates and summary statistics."""
import numpy as np
from oracle.pairs import ANGLE

FIELDS = ['k', 'z1', 'z2', 'v1', 'v2', 'g1', 'g2', 't1', 't2', 'q1', 'q2']
COLS = ['x', 'y', 'z', 'ra', 'dec', 'r', 'w', 'wpos'] + FIELDS
ALL = COLS + ['flag', 'patch']


class Expected(object):
    pass


def rows(n, first_row=1, last_row=-1, every_nth=1):
    """Indices selected: 1-based inclusive first and last row, then every nth of them."""
    last = n if last_row is None or last_row <= 0 else min(last_row, n)
    return np.arange(first_row - 1, last, every_nth)


def clean(raw, first_row=1, last_row=-1, every_nth=1, units=None, flips=(), ignore_flag=None,
          ok_flag=None, keep_zero_weight=False, patch_only=None):
    """raw: full columns as given by the user (ra, dec, x, y in their units)."""
    E = Expected()
    units = units or {}
    n = len(next(iter(raw.values())))
    sel = rows(n, first_row, last_row, every_nth)
    if patch_only is not None:
        sel = sel[np.asarray(raw['patch'])[sel] == patch_only]
    c = {}
    for name in COLS:
        if raw.get(name) is not None:
            v = np.array(raw[name], dtype=float)[sel]
            if name in units:
                v = v * ANGLE[units[name]]
            if name in flips:
                v = -v
            c[name] = v
    m = len(sel)
    bad = np.zeros(m, dtype=bool)
    if raw.get('flag') is not None:
        flag = np.array(raw['flag'], dtype=int)[sel]
        if ignore_flag is None:
            ignore_flag = ~(ok_flag or 0)
        bad |= (flag & ignore_flag) != 0
    E.flagged = bad.copy()
    nan = np.zeros(m, dtype=bool)
    for name, v in c.items():
        i = np.isnan(v)
        nan |= i
        v[i] = 0
    bad |= nan
    E.nan = nan
    w = c['w'] if 'w' in c else np.ones(m)
    E.has_w = ('w' in c or bool(np.any(nan)) or raw.get('flag') is not None or
               bool('wpos' in c and np.any(c['wpos'] == 0)))
    w = np.where(bad, 0., w)
    if 'wpos' in c:
        c['wpos'] = np.where(bad, 0., c['wpos'])
        w = np.where(c['wpos'] == 0, 0., w)
    pos = c.get('wpos', w)
    keep = np.ones(m, dtype=bool) if keep_zero_weight else pos != 0
    E.invalid = E.has_w and np.sum(w) == 0 or (m == 0)
    E.col = {name: v[keep] for name, v in c.items()}
    E.col['w'] = w[keep]
    E.index = sel[keep]
    E.n_removed = int(np.sum(~keep))
    E.n_bad = int(np.sum(bad))
    if 'ra' in c and 'x' not in c:
        ra, dec = E.col['ra'], E.col['dec']
        r = E.col.get('r', 1.)
        E.col['x'] = np.cos(dec) * np.cos(ra) * r
        E.col['y'] = np.cos(dec) * np.sin(ra) * r
        E.col['z'] = np.sin(dec) * r
        E.made_xyz = True
    else:
        E.made_xyz = False
    E.patch = None
    if raw.get('patch') is not None and patch_only is None:
        E.patch = np.array(raw['patch'], dtype=int)[sel][keep]
    E.coords = (('spherical' if 'r' not in c else '3d') if 'ra' in c
                else ('3d' if 'z' in c else 'flat'))
    E.ntot = int(np.sum(keep))
    ww = E.col['w']
    E.nobj = int(np.sum(ww != 0))
    E.sumw = float(np.sum(ww))
    E.sumw2 = float(np.sum(ww ** 2))
    return E


def mean_var(E, name):
    """Weighted mean and sum(w^2 (v-<v>)^2)/sum(w) of a column; zeros if it is absent."""
    if name not in E.col:
        return 0., 0.
    w, v = E.col['w'], E.col[name]
    m = np.sum(w * v) / np.sum(w)
    return m, np.sum(w ** 2 * (v - m) ** 2) / np.sum(w)


def total_var(Es, name):
    """The same of the concatenation of several catalogs."""
    E = Expected()
    E.col = {k: np.concatenate([e.col[k] for e in Es]) for k in ('w', name) if k in Es[0].col}
    return mean_var(E, name)


def field_var(Es, letter):
    cols = {'k': ['k'], 'z': ['z1', 'z2'], 'v': ['v1', 'v2'], 'g': ['g1', 'g2'],
            't': ['t1', 't2'], 'q': ['q1', 'q2']}[letter]
    return np.mean([total_var(Es, c)[1] for c in cols])


def compare(mon, E, cat, rtol=4e-16, label='', patch='auto'):
    """All observable columns and totals of a loaded catalog against the reference."""
    mon.count('catalogs_compared')
    mon.equal(label + 'ntot', int(cat.ntot), E.ntot)
    for name in COLS:
        got = getattr(cat, name)
        if name in E.col:
            want = E.col[name]
            if got is None:
                mon.fail('%scolumn %s missing' % (label, name))
                continue
            if len(got) != len(want):
                mon.fail('%scolumn %s has %d rows, not %d' % (label, name, len(got), len(want)))
                continue
            tol = max(4e-15, 10 * rtol) if (E.made_xyz and name in 'xyz') else rtol
            scale = np.abs(want)
            if E.made_xyz and name in 'xyz':
                scale = np.abs(E.col.get('r', np.ones(len(want))))
            bad = ~(np.abs(got - want) <= tol * scale)
            if np.any(bad):
                i = int(np.where(bad)[0][0])
                mon.fail('%scolumn %s differs in %d of %d rows, e.g. row %d (input row %d): '
                         '%r, expected %r' % (label, name, int(bad.sum()), len(want), i,
                                              int(E.index[i]), float(got[i]), float(want[i])))
            mon.count('values_compared', len(want))
        elif got is not None:
            mon.fail('%scolumn %s unexpectedly present' % (label, name))
    if patch == 'auto':
        patch = E.patch
    got = cat.patch
    if patch is None:
        if got is not None:
            mon.fail('%spatch %r unexpectedly present' % (label, got))
    elif np.ndim(patch) == 0:
        mon.equal(label + 'patch', got, patch)
    elif got is None or np.ndim(got) == 0 or not np.array_equal(got, patch):
        mon.fail('%spatch numbers differ' % label)
    mon.equal(label + 'nobj', int(cat.nobj), E.nobj)
    mon.close(label + 'sumw', cat.sumw, E.sumw, 1e-13 * np.sum(np.abs(E.col['w'])), 0)
    mon.close(label + 'sumw2', cat.sumw2, E.sumw2, 0, 1e-12)
    mon.equal(label + 'coords', cat.coords, E.coords)


def compare_vars(mon, E, cat, label=''):
    for letter in 'kzvgtq':
        cols = {'k': ['k']}.get(letter, [letter + '1', letter + '2'])
        want = np.mean([mean_var(E, c)[1] for c in cols])
        mv = max([np.max(np.abs(E.col[c])) if c in E.col and len(E.col[c]) else 0. for c in cols])
        s = np.sum(E.col['w'])
        atol = 1e-11 * mv ** 2 * np.sum(E.col['w'] ** 2) / abs(s) if s else 1.
        mon.close('%svar%s' % (label, letter), getattr(cat, 'var' + letter), want, atol + 1e-300, 0)
        mon.count('vars_compared')
