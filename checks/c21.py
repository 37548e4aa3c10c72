"""C21: metamorphic symmetries of two- and three-point correlations (run the real code twice)."""
import numpy as np
from oracle import pairs as P
from vlib import gen
from checks import three, two

RULE = ('Random non-lattice catalogs and every field-type pair; each case runs the real code on the '
        'original and on a transformed input (permutation, translation, rotation, reflection, unit '
        'change, weight splitting, scaling of lengths, catalog exchange, weight and field scaling, '
        'cross of a catalog with itself) and compares the outputs as the symmetry prescribes; cases '
        'whose pairs come within 1e-9 of a bin edge are redrawn. Non-trivial: pairs were counted and '
        'the (transform, type, coords, metric, bin type) is distinct.')
ASSUMPTIONS = ['field values and weights are held in single precision by the tree cells, so values '
               'are compared to 4e-6 of the magnitude sum']
MIN_EVENTS = dict(two_point_relations=400, three_point_relations=400)

TR2 = ['permute', 'translate', 'rotate', 'reflect', 'units', 'split', 'scale', 'exchange',
       'wscale', 'fscale', 'selfcross']
TR3 = ['permute', 'translate', 'rotate', 'reflect', 'units', 'scale', 'wscale', 'fscale',
       'exchange']


def cases(tier, seed):
    q = gen.prng('C21', seed)
    out = []
    n = 3000 if tier == 'quick' else 30000
    for i in range(n):
        c = gen.two_point_case(q, 'two', sizes=(2, 5, 20, 40, 60))
        c['tr'] = TR2[i % len(TR2)]
        c['letters'] = q.choice(gen.LETTERS2)
        c['brute'] = q.choice([False, False, True])
        if c['auto'] and (c['letters'][0] != c['letters'][1]):
            c['auto'] = False
        for g in ('geom', 'geom2'):
            if c[g] in ('lattice', 'dups', 'line', 'scales'):
                c[g] = q.choice({'flat': ['uniform', 'cluster', 'strip'],
                                 'spherical': ['fullsky', 'patch', 'pole', 'rawrap'],
                                 '3d': ['farbox', 'cone', 'widecone', 'shell']}[c['coords']])
        if c['weights'] == 'zeros':
            c['weights'] = 'dyadic'
        if c['tr'] in ('exchange',):
            c['auto'] = False
            if c['metric'] == 'Rlens':
                c['metric'] = 'Euclidean'
        if c['tr'] == 'selfcross':
            c['auto'] = True
            c['letters'] = q.choice(['NN', 'KK', 'ZZ', 'VV', 'GG', 'TT', 'QQ'])
            c['metric'] = 'Euclidean' if c['metric'] == 'Rlens' else c['metric']
            if c.get('rpar'):
                c['rpar'] = 'sym'
        if c['metric'] == 'Periodic':
            c['letters'] = q.choice(['NN', 'KK', 'NK'])
            if c['auto']:
                c['letters'] = 'KK'
        c['tseed'] = q.randrange(2 ** 31)
        out.append(c)
    m = 1800 if tier == 'quick' else 18000
    for i in range(m):
        c = three.case(q, 'three', ['LogRUV', 'LogSAS', 'LogMultipole'], (4, 8, 14, 20))
        c['tr'] = TR3[i % len(TR3)]
        for g in ('geom', 'geom2'):
            if c[g] in ('dups', 'scales', 'offset', 'smallpatch', 'box'):
                c[g] = q.choice({'flat': ['uniform', 'cluster', 'strip'],
                                 'spherical': ['fullsky', 'patch', 'pole', 'rawrap'],
                                 '3d': ['farbox', 'cone', 'widecone', 'shell']}[c['coords']])
        if c['metric'] == 'Periodic' and (c['letters'] == 'GGG' or c['coords'] == '3d'):
            c['metric'] = 'Euclidean'
        if c['coords'] == '3d':
            c['style'] = 'xyz'
        if c['tr'] == 'exchange':
            c['ncat'] = 3
        c['n'] = [q.choice((4, 8, 14)) for _ in range(c['ncat'])] if c['ncat'] > 1 else c['n'][:1]
        if c['weights'] == 'zeros':
            c['weights'] = 'dyadic'
        c['tseed'] = q.randrange(2 ** 31)
        out.append(c)
    return out


def rot2(t):
    return np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1.]])


def rot3(r):
    q, rr = np.linalg.qr(r.normal(0, 1, (3, 3)))
    q = q * np.sign(np.diag(rr))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


def basis(p):
    """West and north unit vectors at each p."""
    u = p / np.sqrt(np.sum(p * p, axis=1))[:, None]
    e = np.stack([-u[:, 1], u[:, 0], 0 * u[:, 0]], axis=1)
    e /= np.sqrt(np.sum(e * e, axis=1))[:, None]
    return -e, np.cross(u, e)


class Obj(object):
    """Points (n,3) + weights + fields, and how to hand them to TreeCorr."""

    def __init__(self, coords, p, w, f, unit=None, style='xyz', letters=''):
        self.coords, self.p, self.w, self.f = coords, p, w, dict(f)
        self.unit, self.style, self.letters = unit, style, letters

    def copy(self, **kw):
        d = dict(coords=self.coords, p=self.p, w=self.w, f=self.f, unit=self.unit,
                 style=self.style, letters=self.letters)
        d.update(kw)
        return Obj(**d)

    def catalog(self, treecorr, letters=None):
        kw = dict(w=self.w)
        p = self.p
        if self.coords == 'flat':
            u = P.ANGLE[self.unit] if self.unit else 1.
            kw.update(x=p[:, 0] / u, y=p[:, 1] / u)
            if self.unit:
                kw.update(x_units=self.unit, y_units=self.unit)
        elif self.coords == 'spherical' or self.style == 'radecr':
            u = P.ANGLE[self.unit or 'radians']
            r = np.sqrt(np.sum(p * p, axis=1))
            ra = np.arctan2(p[:, 1], p[:, 0])
            dec = np.arctan2(p[:, 2], np.hypot(p[:, 0], p[:, 1]))
            kw.update(ra=ra / u, dec=dec / u, ra_units=self.unit or 'radians',
                      dec_units=self.unit or 'radians')
            if self.coords == '3d':
                kw['r'] = r
        else:
            kw.update(x=p[:, 0], y=p[:, 1], z=p[:, 2])
        for c in set(letters or self.letters) - {'N'}:
            cols = gen.COLS[c]
            if c == 'K':
                kw['k'] = self.f['K']
            else:
                kw[cols[0]] = self.f[c].real
                kw[cols[1]] = self.f[c].imag
        return treecorr.Catalog(**kw)

    def rotate(self, R):
        p2 = self.p.dot(R.T)
        if self.coords == 'flat':
            ph = np.full(len(p2), np.exp(1j * np.arctan2(R[1, 0], R[0, 0])))
        else:
            w1, n1 = basis(self.p)
            w2, n2 = basis(p2)
            rw = w1.dot(R.T)
            # the x axis points west, y north: x rotated has components along the new axes
            ph = np.sum(rw * w2, axis=1) + 1j * np.sum(rw * n2, axis=1)
        f = {k: (v if k == 'K' else v * ph ** P.SPIN[k]) for k, v in self.f.items()}
        return self.copy(p=p2, f=f)

    def reflect(self):
        f = {k: (v if k == 'K' else np.conj(v)) for k, v in self.f.items()}
        return self.copy(p=self.p * np.array([1., -1, 1]) if self.coords == 'flat'
                         else self.p * np.array([1., 1, -1]), f=f)

    def permute(self, r):
        i = r.permutation(len(self.w))
        return self.copy(p=self.p[i], w=self.w[i], f={k: v[i] for k, v in self.f.items()})


def make(D, letters):
    return Obj(D.coords, D.p, D.w, {k: v for k, v in D.f.items()}, None, 'xyz', letters)


SUMS = ['npairs', 'weight', 'meanr', 'meanlogr']


def outputs(corr):
    o = dict(npairs=corr.npairs.copy(), weight=corr.weight.copy(), meanr=corr.meanr.copy(),
             meanlogr=corr.meanlogr.copy())
    le = corr._letters
    if le == 'NN':
        return o
    if le in ('ZZ', 'VV', 'GG', 'TT', 'QQ'):
        o['+'] = corr.xip + 1j * corr.xip_im
        o['-'] = corr.xim + 1j * corr.xim_im
    elif le[1] in 'NK':
        o['xi'] = corr.xi.copy() if hasattr(corr, 'xi') else corr.raw_xi.copy()
    else:
        o['xi'] = corr.xi + 1j * corr.xi_im
    return o


def run(c, mon):
    (run2 if c['tag'] == 'two' else run3)(c, mon)


def run2(c, mon):
    import treecorr
    tr = c['tr']
    a, b = c['letters']
    for attempt in range(6):
        cc = dict(c, seed=c['seed'] + 104729 * attempt)
        D1, D2, bins, kw, period, rp = gen.resolve(cc)
        p2 = D1.p if D2 is None else D2.p
        d, err, rpar, dx, dy = P.separations(c['coords'], c['metric'], D1.p, p2, period)
        off = np.ones(d.shape, dtype=bool)
        if D2 is None:
            np.fill_diagonal(off, False)
        k, near = bins.assign(d, err + 1e-9 * np.abs(d) + 1e-13, dx, dy, rel=1e-9)
        scale = np.max(np.abs(D1.p))
        bad = near & off & (d > 1e-12)
        for lim in rp.values():
            bad |= off & (np.abs(rpar - lim) < 1e-9 * scale)
        if c['metric'] == 'Periodic':
            for i, v in enumerate((dx, dy)):
                pr = period[i]
                if pr:
                    bad |= off & (np.abs(np.abs(v) - pr / 2) < 1e-9 * scale)
        if not np.any(bad):
            break
    else:
        mon.count('redraws_exhausted')
        return
    if c['coords'] != 'flat':
        # directions are singular at the poles
        for D in (D1, D2):
            if D is not None and np.any(np.hypot(D.p[:, 0], D.p[:, 1])
                                        < 1e-6 * np.max(np.abs(D.p))):
                mon.count('skipped_pole')
                return
    r = np.random.RandomState(c['tseed'] % (2 ** 32))
    kw.pop('metric')
    kw['bin_slop'] = 0
    kw['angle_slop'] = 0
    metric = c['metric']
    unit = c['unit']
    O1 = make(D1, c['letters'])
    O2 = None if D2 is None else make(D2, c['letters'])
    if c['coords'] == 'flat' and unit:
        O1.unit = unit
        if O2:
            O2.unit = unit
    elif c['coords'] == 'spherical':
        O1.unit = unit
        if O2:
            O2.unit = unit

    def go(A, B, kw, metric=metric):
        corr = two.corr_class(treecorr, c['letters'])(metric=metric, **kw)
        if B is None:
            corr.process(A.catalog(treecorr, a))
        else:
            corr.process(A.catalog(treecorr, a), B.catalog(treecorr, b))
        return corr

    base = go(O1, O2, kw)
    o = outputs(base)
    both = [x for x in (O1, O2) if x is not None]
    K2 = dict(kw)
    want = {k: v.copy() for k, v in o.items()}
    new = None
    auto = O2 is None

    if tr == 'permute':
        N = [x.permute(r) for x in both]
    elif tr == 'translate':
        if c['coords'] == 'spherical' or metric not in ('Euclidean', 'Periodic') or rp or \
                (c['coords'] == '3d' and (a in 'ZVGTQ' or b in 'ZVGTQ')):
            return
        t = r.uniform(-5, 5, 3) * (np.ptp(D1.p) or 1)
        t[2] *= c['coords'] == '3d'
        if metric == 'Periodic' and c['coords'] == 'flat':
            t[2] = 0
        N = [x.copy(p=x.p + t) for x in both]
        if metric == 'Periodic':
            # also move objects by whole periods
            for x in N:
                per = np.array(period, dtype=float)
                x.p = x.p + per * r.randint(-1, 2, x.p.shape)
            # positions must stay within one period of each other
            allp = np.concatenate([x.p for x in N])
            per = np.array([pp if pp else 1. for pp in period])
            for x in N:
                x.p = np.where(np.array(period) > 0, x.p - np.min(allp, axis=0), x.p)
                x.p = np.where(np.array(period) > 0, np.mod(x.p, per), x.p)
    elif tr == 'rotate':
        if metric == 'Periodic' or c['bin_type'] == 'TwoD':
            return
        R = rot2(r.uniform(0, 2 * np.pi)) if c['coords'] == 'flat' else rot3(r)
        N = [x.rotate(R) for x in both]
    elif tr == 'reflect':
        if metric == 'Periodic':
            return
        N = [x.reflect() for x in both]
        for k in ('+', '-', 'xi'):
            if k in want:
                want[k] = np.conj(want[k])
        if c['bin_type'] == 'TwoD':
            want = {k: v[::-1, :] for k, v in want.items()}
    elif tr == 'units':
        if c['coords'] == '3d':
            if c['metric'] == 'Periodic':
                return
            N = [x.copy(style='radecr', unit=r.choice(['degrees', 'hours', 'radians']))
                 for x in both]
        else:
            if metric == 'Periodic':
                return
            nu = str(r.choice(['degrees', 'arcmin', 'arcsec', 'hours', 'radians']))
            N = [x.copy(unit=nu) for x in both]
            su = str(r.choice(['degrees', 'arcmin', 'arcsec', 'radians']))
            f = P.ANGLE[c['sep_units'] or 'radians'] / P.ANGLE[su]
            if c['coords'] == 'flat' and not c['unit']:
                # unit-less positions are the same numbers as radians
                f = 1. / P.ANGLE[su]
            K2['sep_units'] = su
            for k in ('min_sep', 'max_sep'):
                if k in K2:
                    K2[k] = K2[k] * f
            if 'bin_size' in K2 and c['bin_type'] != 'Log':
                K2['bin_size'] *= f
            want['meanr'] = want['meanr'] * f
            want['meanlogr'] = want['meanlogr'] + np.log(f)
    elif tr == 'split':
        if not base.min_sep > 0 or metric in ('Rperp', 'FisherRperp', 'Rlens', 'OldRperp') or \
                metric == 'Arc':
            # coincident pieces are at zero separation, outside a range from min_sep > 0
            pass
        if not base.min_sep > 0:
            return
        N = []
        for x in both:
            i = r.randint(0, len(x.w), max(1, len(x.w) // 3))
            i = np.unique(i)
            fr = r.choice([0.25, 0.5, 0.75], len(i))
            w = x.w.copy()
            extra = w[i] * fr
            w[i] = w[i] - extra
            N.append(x.copy(p=np.concatenate([x.p, x.p[i]]), w=np.concatenate([w, extra]),
                            f={k: np.concatenate([v, v[i]]) for k, v in x.f.items()}))
        want.pop('npairs')
    elif tr == 'scale':
        if c['coords'] == 'spherical':
            return
        s = float(r.choice([0.37, 3.3, 1e3, 1e-3]))
        N = [x.copy(p=x.p * s) for x in both]
        fac = s if not (metric == 'Arc') else 1.
        for k in ('min_sep', 'max_sep'):
            if k in K2:
                K2[k] *= fac
        if 'bin_size' in K2 and c['bin_type'] != 'Log':
            K2['bin_size'] *= fac
        for k in ('min_rpar', 'max_rpar', 'period', 'xperiod', 'yperiod', 'zperiod'):
            if k in K2:
                K2[k] *= s
        want['meanr'] = want['meanr'] * fac
        want['meanlogr'] = want['meanlogr'] + np.log(fac)
    elif tr == 'exchange':
        if a != b:
            return
        N = [O2, O1]
        if rp:
            K2.pop('min_rpar', None)
            K2.pop('max_rpar', None)
            if 'max_rpar' in rp:
                K2['min_rpar'] = -rp['max_rpar']
            if 'min_rpar' in rp:
                K2['max_rpar'] = -rp['min_rpar']
        if '+' in want:
            want['+'] = np.conj(want['+'])
            s = P.SPIN[a]
        if c['bin_type'] == 'TwoD':
            want = {k: v[::-1, ::-1] for k, v in want.items()}
    elif tr == 'wscale':
        s = float(r.choice([0.125, 4., 1024.]))
        N = [both[0].copy(w=both[0].w * s)] + both[1:]
        want['weight'] = want['weight'] * (s if not auto else s * s)
    elif tr == 'fscale':
        if c['letters'] == 'NN':
            return
        N = []
        s = []
        for j, (x, l) in enumerate(zip(both, c['letters'])):
            v = float(r.choice([0.5, -2., 4.]))
            if l not in 'NK':
                v = v * np.exp(1j * r.uniform(0, 6))
            s.append(v)
            N.append(x.copy(f={k: (f * v if k == l else f) for k, f in x.f.items()}))
        if auto:
            s.append(s[0])
        if a == 'N':
            s[0] = 1.
        if 'xi' in want:
            if b not in 'NK' and a in 'NK':
                want['xi'] = want['xi'] * s[0] * s[1]
            else:
                want['xi'] = want['xi'] * s[0] * s[1]
        else:
            # xi+ = <f1 conj(f2)>; in an auto-correlation the phase cancels
            want['+'] = want['+'] * s[0] * np.conj(s[1])
            want['-'] = want['-'] * s[0] * s[1]
    elif tr == 'selfcross':
        N = [O1, O1]
        if c['bin_type'] == 'Linear' and not base.min_sep > 0:
            return
        f = 1. if c['bin_type'] == 'TwoD' else 2.
        for k in ('npairs', 'weight'):
            want[k] = want[k] * f
        if '+' in want:
            want['+'] = want['+'].real + 0j
    new = go(N[0], N[1] if len(N) > 1 else None, K2)
    g = outputs(new)
    if tr == 'selfcross' and '+' in g and c['bin_type'] == 'TwoD':
        # each cell sees its pairs in one order only
        g['+'] = g['+'].real + 0j
    if auto and '+' in want:
        # imaginary part of an auto xi+ depends on the arbitrary order of the two points
        if not (tr == 'selfcross'):
            want['+'] = want['+'].real + 0j
            g['+'] = g['+'].real + 0j
    # magnitudes for the tolerance
    tol = {}
    W = np.abs(o['weight'])
    amp = 1.
    for x, l in zip(both if len(both) == 2 else both * 2, c['letters']):
        if l != 'N':
            m = [np.max(np.abs(x.f[l]))]
            m += [np.max(np.abs(y.f[l])) for y in N if l in y.f]
            amp *= max(m)
    pos = W > 0
    what = 'two-point %s: ' % tr
    mon.count('two_point_relations')
    sc = max(np.max(np.abs(x.p)) for x in both + N)
    sep = np.maximum(np.abs(want['meanr']), 1e-300)
    # cancellation in the separations limits the relative accuracy of the means
    un = P.ANGLE[K2['sep_units']] if K2.get('sep_units') else 1.
    rt = 3e-9 + 1e-14 * (1. if c['coords'] == 'spherical' else sc) / (sep * un)
    if c['coords'] == 'spherical' and metric == 'Euclidean':
        rt = rt + np.where(sep * un > 3., 1e-5, 0)
    if c['coords'] != 'flat':
        rt = rt + 3e-8
    for k, w in want.items():
        v = g[k]
        if k == 'npairs':
            mon.equal(what + k, v, w)
        elif k == 'weight':
            mon.close(what + k, v, w, 0., rtol=3e-7)
        elif k == 'meanr':
            mon.close(what + k, v[pos], w[pos], 0., rtol=rt[pos])
        elif k == 'meanlogr':
            mon.close(what + k, v[pos], w[pos], rt[pos], rtol=1e-9)
        else:
            if c['coords'] != 'flat' and c['tr'] in ('rotate', 'units'):
                # phases of close pairs on the sphere
                t = 1e-5 + 1e-13 * sc / (sep * un)
            else:
                t = 4e-6 + 1e-13 * sc / (sep * un)
            mon.close(what + k, v[pos], w[pos], (t * amp)[pos])
    for k in ('tr', 'letters', 'coords', 'metric', 'bin_type', 'geom', 'brute'):
        mon.cover(k, c[k])
    if np.any(pos):
        mon.nontrivial((tr, c['letters'], c['coords'], c['metric'], c['bin_type'], auto))


SPIN3 = {'gam0': (1, 1, 1), 'gam1': (-1, 1, 1), 'gam2': (1, -1, 1), 'gam3': (1, 1, -1)}


def outputs3(corr):
    bt = corr.bin_type
    o = {}
    for k in ('ntri', 'meand1', 'meanlogd1', 'meand2', 'meanlogd2', 'meand3', 'meanlogd3'):
        o[k] = np.array(getattr(corr, k))
    if bt == 'LogMultipole':
        for k in ('meand1', 'meanlogd1'):
            del o[k]
    o['weight'] = np.array(corr.weight)
    if bt == 'LogRUV':
        o['meanu'], o['meanv'] = np.array(corr.meanu), np.array(corr.meanv)
    elif bt == 'LogSAS':
        o['meanphi'] = np.array(corr.meanphi)
    if corr._letters == 'KKK':
        o['zeta'] = np.array(corr.zeta)
    elif corr._letters == 'GGG':
        for k in SPIN3:
            o[k] = np.array(getattr(corr, k))
    return o


def exchange23(o, bt):
    """Outputs when catalogs (vertices) 2 and 3 change roles, for LogSAS and LogMultipole."""
    new = {}
    names = dict(meand2='meand3', meand3='meand2', meanlogd2='meanlogd3', meanlogd3='meanlogd2',
                 gam2='gam3', gam3='gam2')
    for k, v in o.items():
        v = np.swapaxes(v, 0, 1)
        if bt == 'LogMultipole':
            v = v[:, :, ::-1]
        new[names.get(k, k)] = v
    return new


def run3(c, mon):
    import treecorr
    tr, bt, le = c['tr'], c['bin_type'], c['letters']
    if c['metric'] == 'Periodic' and tr not in ('permute', 'translate', 'wscale', 'fscale',
                                                'exchange', 'scale'):
        mon.count('not_applicable')
        return
    for attempt in range(5):
        cc = dict(c, seed=c['seed'] + 104729 * attempt)
        Ds, bins, kw, period = three.resolve(cc)
        res = three.oracle(cc, Ds, bins, period)
        if not np.any(res['ntri'][1]) and not np.any(res['weight'][1]):
            break
    else:
        mon.count('redraws_exhausted')
        return
    if c['coords'] != 'flat' and any(
            np.any(np.hypot(D.p[:, 0], D.p[:, 1]) < 1e-6 * np.max(np.abs(D.p))) for D in Ds):
        mon.count('skipped_pole')
        return
    r = np.random.RandomState(c['tseed'] % (2 ** 32))
    kw.update(bin_slop=0, angle_slop=0)
    O = [make(D, le) for D in Ds]
    if c['coords'] == 'spherical' or (c['coords'] == 'flat' and c['unit']):
        for x in O:
            x.unit = c['unit']
    ordered = c['ordered']

    def go(X, kw):
        corr = getattr(treecorr, le + 'Correlation')(**kw)
        opt = dict(metric=c['metric'])
        if len(X) > 1:
            opt['ordered'] = ordered
        if bt == 'LogSAS':
            opt['algo'] = 'triangle'
        corr.process(*[x.catalog(treecorr, le[0]) for x in X], **opt)
        return corr
    base = go(O, kw)
    o = outputs3(base)
    want = {k: v.copy() for k, v in o.items()}
    K2 = dict(kw)
    N = list(O)
    flip = False
    factor = 1.             # of the separations
    if tr == 'permute':
        N = [x.permute(r) for x in O]
    elif tr == 'translate':
        if c['coords'] != 'flat':
            return
        t = r.uniform(-3, 3, 3) * (np.ptp(O[0].p) or 1) * [1, 1, 0]
        N = [x.copy(p=x.p + t) for x in O]
        if c['metric'] == 'Periodic':
            per = np.array([pp if pp else 1. for pp in period])
            N = [x.copy(p=np.where(np.array(period) > 0, np.mod(x.p, per), x.p)) for x in N]
    elif tr == 'rotate':
        R = rot2(r.uniform(0, 2 * np.pi)) if c['coords'] == 'flat' else rot3(r)
        N = [x.rotate(R) for x in O]
    elif tr == 'reflect':
        N = [x.reflect() for x in O]
        flip = True
    elif tr == 'units':
        if c['coords'] == '3d':
            N = [x.copy(style='radecr', unit=str(r.choice(['degrees', 'hours', 'radians'])))
                 for x in O]
        else:
            N = [x.copy(unit=str(r.choice(['degrees', 'arcmin', 'hours', 'radians']))) for x in O]
            su = str(r.choice(['degrees', 'arcmin', 'arcsec', 'radians']))
            factor = P.ANGLE[c['sep_units'] or 'radians'] / P.ANGLE[su]
            if c['coords'] == 'flat' and not c['unit']:
                factor = 1. / P.ANGLE[su]
            K2['sep_units'] = su
            for k in ('min_sep', 'max_sep'):
                K2[k] = K2[k] * factor
        if bt == 'LogSAS':
            # phi in other units as well
            u0 = P.ANGLE[c['phi_units'] or 'radians']
            pu = str(r.choice(['degrees', 'arcmin', 'radians']))
            K2['phi_units'] = pu
            for k in ('min_phi', 'max_phi'):
                if k in K2:
                    K2[k] = K2[k] * u0 / P.ANGLE[pu]
            want['meanphi'] = want['meanphi'] * u0 / P.ANGLE[pu]
    elif tr == 'scale':
        if c['coords'] == 'spherical':
            return
        s = float(r.choice([0.37, 3.3, 1e3, 1e-3]))
        N = [x.copy(p=x.p * s) for x in O]
        factor = 1. if c['metric'] == 'Arc' else s
        for k in ('min_sep', 'max_sep'):
            K2[k] = K2[k] * factor
        if 'period' in K2:
            K2['period'] *= s
    elif tr == 'wscale':
        s = float(r.choice([0.125, 4., 64.]))
        N = [O[0].copy(w=O[0].w * s)] + O[1:]
        f = s ** (3 if len(O) == 1 else 1)
        want['weight'] = want['weight'] * f
        if bt == 'LogMultipole':
            for k in ('zeta',) + tuple(SPIN3):
                if k in want:
                    want[k] = want[k] * f
    elif tr == 'fscale':
        if le == 'NNN':
            return
        s = [complex(r.choice([0.5, -2., 4.])) for _ in O]
        if le == 'GGG':
            s = [v * np.exp(1j * r.uniform(0, 6)) for v in s]
        if not ordered and le == 'GGG':
            s = s[:1] * len(s)
        if le == 'KKK':
            s = [v.real for v in s]
        N = [x.copy(f={k: (v * y if k == le[0] else v) for k, v in x.f.items()})
             for x, y in zip(O, s)]
        s3 = s * 3 if len(s) == 1 else [s[0], s[-2] if len(s) == 3 else s[1], s[-1]]
        if le == 'KKK':
            want['zeta'] = want['zeta'] * np.prod(s3)
        else:
            for k, e in SPIN3.items():
                want[k] = want[k] * np.prod([y if q > 0 else np.conj(y) for y, q in zip(s3, e)])
    elif tr == 'exchange':
        if ordered:
            if bt != 'LogMultipole':
                return
            N = [O[0], O[2], O[1]]
            want = exchange23(want, bt)
        else:
            N = [O[i] for i in r.permutation(3)]
    if flip:
        for k in ('zeta', 'weight') + tuple(SPIN3):
            if k in want and np.iscomplexobj(want[k]):
                want[k] = np.conj(want[k])
        if bt == 'LogRUV':
            want = {k: v[:, :, ::-1] for k, v in want.items()}
            want['meanv'] = -want['meanv']
        elif bt == 'LogSAS':
            # the triangles now turn the other way: points 2 and 3 change roles
            if len(N) == 3 and ordered:
                N = [N[0], N[2], N[1]]
            want = exchange23(want, bt)
    for k in ('meand1', 'meand2', 'meand3'):
        if k in want:
            want[k] = want[k] * factor
            if k.replace('d', 'logd') in want:
                want[k.replace('d', 'logd')] = want[k.replace('d', 'logd')] + np.log(factor)
    new = go(N, K2)
    g = outputs3(new)
    what = 'three-point %s: ' % tr
    mon.count('three_point_relations')
    if not mon.check(all(g[k].shape == want[k].shape for k in want), what + 'shape'):
        return
    wmag = res['weight'][2] + np.zeros(bins.shape)
    if bt in ('LogMultipole', 'LogSAS') and (flip or (tr == 'exchange' and ordered)):
        if bt == 'LogMultipole' and not flip:
            wmag = np.swapaxes(wmag, 0, 1)
        elif bt == 'LogSAS':
            wmag = np.swapaxes(wmag, 0, 1)
    elif flip and bt == 'LogRUV':
        wmag = wmag[:, :, ::-1]
    if tr == 'wscale':
        wmag = wmag * f
    pos = wmag > 0
    sc = max(np.max(np.abs(x.p)) for x in O + N)
    small = np.min(np.abs(O[0].p)) if False else 0
    sep = np.maximum(np.abs(g['meand2']), 1e-300)
    un = P.ANGLE[K2['sep_units']] if K2.get('sep_units') else 1.
    rt = 3e-9 + 1e-13 * (1. if c['coords'] == 'spherical' else sc) / (sep * un)
    if c['coords'] != 'flat':
        rt = rt + 1e-7
    if c['coords'] == 'spherical' and c['metric'] == 'Euclidean':
        rt = rt + np.where(np.maximum(sep, g.get('meand1', 0)) * un > 3., 1e-5, 0)
    amp = 1.
    if le != 'NNN':
        amp = max(max(np.max(np.abs(x.f[le[0]])) for x in X) for X in (O, N)) ** 3
    flat = c['coords'] == 'flat'
    for k, w in want.items():
        v = g[k]
        if k == 'ntri':
            if bt == 'LogMultipole':
                mon.close(what + k, v, w, 1e-9, rtol=1e-9)
            else:
                mon.equal(what + k, v, w)
        elif k == 'weight':
            mon.close(what + k, v, w, (3e-7 if flat else 1e-6) * wmag)
        elif k in ('meanu', 'meanv'):
            mon.close(what + k, v[pos], w[pos], 1e-6)
        elif k == 'meanphi':
            u = P.ANGLE[K2.get('phi_units') or 'radians']
            # arccos loses half of the digits near 0 and pi
            ph = w[pos] * u
            t = (1e-8 if flat else 1e-7) / np.maximum(np.minimum(np.abs(np.sin(ph)), 1), 1e-4) + 3e-6
            mon.close(what + k, v[pos] * u, ph, t)
        elif k.startswith('meanlogd'):
            mon.close(what + k, v[pos], w[pos], rt[pos], rtol=1e-7)
        elif k.startswith('meand'):
            mon.close(what + k, v[pos], w[pos], 0., rtol=rt[pos] + 1e-7)
        else:
            t = (6e-6 if flat else 3e-5) * amp
            if bt == 'LogMultipole':
                t = t * wmag
            else:
                t = t + np.zeros(bins.shape)
            mon.close(what + k, v[pos], w[pos], t[pos])
        mon.count('three_point_arrays')
    for k in ('tr', 'letters', 'coords', 'metric', 'bin_type', 'ncat'):
        mon.cover('three_' + k, c[k])
    if np.any(pos):
        mon.nontrivial(('three', tr, le, bt, c['coords'], c['metric'], c['ncat'], ordered))
