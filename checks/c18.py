"""C18: aperture statistics against independent kernel sums over the bins."""
import os
import numpy as np
from vlib import gen
from checks import c17, three

RULE = ('Real GG, NG, NN and GGG runs on random catalogs (some bins empty, with and without patches '
        'and randoms) whose values are partly overwritten with arbitrary numbers; each aperture '
        'statistic for random radii is compared with a sum over bins of kernels coded from the '
        'formulas (for Map^3: from Gauss-Hermite integrals of the aperture weight, no closed form). '
        'Non-trivial: the sum has non-zero terms; (function, form, radii, bins) distinct.')
ASSUMPTIONS = ['calculateNapSq is taken with r dr/R^2 (its docstring has 2R^2, which contradicts '
               'the E-mode limit of Map^2 and its own use in writeNorm)']
MIN_EVENTS = dict(gg=60, ng=60, nn=60, map3=60, files=60, values=2000)


def cases(tier, seed):
    q = gen.prng('C18', seed)
    out = []
    n = 1200 if tier == 'quick' else 15000
    kinds = ['gg', 'ng', 'nn', 'map3', 'map3']
    for i in range(n):
        c = dict(kind=kinds[i % 5], seed=q.randrange(2 ** 31))
        c['coords'] = q.choice(['flat', 'flat', 'spherical', '3d'])
        c['metric'] = 'Euclidean'
        c['weights'] = q.choice(['none', 'dyadic'])
        c['geom'] = q.choice({'flat': ['uniform', 'cluster', 'strip'],
                              'spherical': ['patch', 'fullsky'], '3d': ['cone']}[c['coords']])
        c['nbins'] = q.choice([1, 3, 8, 15])
        c['bin_type'] = 'Log'
        c['form'] = q.choice([None, 'Crittenden', 'Schneider', 'Schneider'])
        c['cform'] = q.choice([None, None, 'Crittenden', 'Schneider'])
        c['R'] = q.choice(['none', 'none', 'few', 'one', 'tiny', 'huge', 'unsorted', 'mixed'])
        c['n'] = [q.choice([3, 10, 40, 100]), q.choice([3, 10, 40, 100])]
        c['nr'] = [q.choice([5, 40, 100]), 40]
        c['patch'] = q.random() < 0.25
        c['over'] = q.random() < 0.5
        c['rand'] = q.choice([0, 1, 2, 3])
        c['file'] = q.random() < 0.3
        c['slop'] = q.choice([0, 1])
        if c['kind'] == 'map3':
            c['bin_type'] = q.choice(['LogRUV', 'LogSAS'])
            c['nbins'] = q.choice([1, 2, 4])
            c['n'] = [q.choice([4, 8, 15, 30])]
            c['k2'] = q.choice([1, 1, 1, 2, 0.5, 1.3])
            c['k3'] = q.choice([1, 1, 1, 3, 0.7])
            c['phi'] = q.choice([None, None, 'degrees', 'radians'])
            c['prange'] = q.choice([(0, 1), (0, 1), (0.1, 0.8)])
        elif q.random() < 0.08:
            c['bin_type'] = q.choice(['Linear'] + (['TwoD'] if c['coords'] == 'flat' else []))
        out.append(c)
    return out


def crit(s):
    e = np.exp(-s * s / 4)
    return ((s ** 4 - 16 * s ** 2 + 32) / 128 * e, s ** 4 / 128 * e,
            s ** 2 / 128 * (12 - s ** 2) * e)


def schn(s):
    ok = s < 2
    x = np.where(ok, s, 1.)
    q = np.sqrt(4 - x * x)
    ac = np.arccos(x / 2)
    Tp = (12 / (5 * np.pi) * (2 - 15 * x ** 2) * ac
          + x * q * (120 + 2320 * x ** 2 - 754 * x ** 4 + 132 * x ** 6 - 9 * x ** 8) / (100 * np.pi))
    Tm = 3 / (70 * np.pi) * x ** 3 * q ** 7
    Tx = (18 / np.pi * x ** 2 * ac
          - 3 / (40 * np.pi) * x ** 3 * q * (196 - 74 * x ** 2 + 14 * x ** 4 - x ** 6))
    return [np.where(ok, T, 0.) for T in (Tp, Tm, Tx)]


def radii(c, r, rnom):
    lo, hi = rnom.min(), rnom.max()
    k = c['R']
    if k == 'none':
        return None
    if k == 'few':
        return np.exp(np.linspace(np.log(lo / 2), np.log(hi), 4))
    if k == 'one':
        return np.array([np.sqrt(lo * hi)])
    if k == 'tiny':
        return np.array([lo * 0.4, lo * 0.6, lo])
    if k == 'huge':
        return hi * np.array([1., 5., 30.])
    if k == 'unsorted':
        return np.array([hi, lo, np.sqrt(lo * hi), lo])
    return r.uniform(lo, hi, 5)


class Sum(object):
    """Kernel sums: values[a] = sum_b K[a, b] x[b] with the tolerance of rounding."""

    def __init__(self, mon, s=None, form=None):
        self.mon = mon
        self.noise = 0. if form != 'Schneider' else np.where(s < 2.000001, 1e-13 * s * s, 0.)

    def __call__(self, what, got, K, xs, f=1., rtol=1e-10):
        want = sum(k.dot(x) for k, x in zip(K, xs)) * f
        mag = sum(np.abs(k).dot(np.abs(x)) for k, x in zip(K, xs)) * abs(f)
        # the terms of Schneider's forms cancel near s=2
        noise = sum(np.sum(np.abs(x[None, :]) * self.noise, axis=1) for x in xs) * abs(f)
        if what.startswith('var'):
            noise = noise * sum(np.max(np.abs(k)) for k in K)
        self.mon.close(what, got, want, rtol * mag + noise + 1e-300)
        self.mon.count('values', np.size(want))
        return bool(np.any(mag > 0))


def kern(c, form, R, corr):
    s = corr.meanr[None, :] / R[:, None]
    return s, (crit if form == 'Crittenden' else schn)(s)


def run(c, mon):
    import treecorr
    r = np.random.RandomState(c['seed'] % (2 ** 32))
    globals()['run_' + c['kind']](c, mon, treecorr, r)
    mon.count(c['kind'])
    for k in ('kind', 'coords', 'bin_type', 'form', 'R'):
        mon.cover(k, c[k])


def setup(c, mon, treecorr, r, Ds):
    kw = c17.bins2(c, Ds, r)
    kw['bin_slop'] = c['slop']
    if c['cform']:
        kw['m2_uform'] = c['cform']
    form = c['form'] or c['cform'] or 'Crittenden'
    ka = dict(m2_uform=c['form']) if c['form'] else {}
    ck = {}
    if c['patch']:
        cen = c17.centers_for(Ds[0], r)
        ck = dict(patch_centers=cen)
        if r.rand() < 0.5:
            kw['var_method'] = 'jackknife'
    return kw, form, ka, ck


def table(path):
    lines = open(path).read().split('\n')
    head = [x for x in lines if x.startswith('#') and not x.startswith('##')]
    names = head[-1].lstrip('#').split()
    data = np.array([[float(v) for v in x.split()] for x in lines
                     if x.strip() and not x.startswith('#')])
    return {n: data[:, i] for i, n in enumerate(names)}


def file_check(mon, path, cols, prec=1e-13):
    t = table(path)
    mon.equal('columns of ' + os.path.basename(path), list(t), [k for k, v in cols])
    for k, v in cols:
        v = np.asarray(v, dtype=float)
        mon.close('column ' + k, t[k], v, 2e-15 * np.abs(v) + 1e-300, rtol=prec)
    mon.count('files')


def run_gg(c, mon, treecorr, r):
    D = c17.make(c, 1, c['n'][0], 'G')
    kw, form, ka, ck = setup(c, mon, treecorr, r, [D])
    if len(np.unique(D.p[:, 0])) < 3:
        ck, _ = {}, kw.pop('var_method', None)
    cat = D.catalog(treecorr, **ck)
    if cat.npatch < 2:
        kw.pop('var_method', None)
    gg = treecorr.GGCorrelation(**kw)
    gg.process(cat)
    if c['bin_type'] != 'Log':
        mon.raises('calculateMapSq of %s bins' % c['bin_type'], ValueError, gg.calculateMapSq)
        mon.raises('calculateGamSq of %s bins' % c['bin_type'], ValueError, gg.calculateGamSq)
        return
    if c['over']:
        gg.varxip, gg.varxim
        for a in (gg.xip, gg.xim, gg.xip_im, gg.xim_im):
            a[...] = r.normal(0, 1, a.shape) * 10. ** r.uniform(-3, 3, a.shape)
    R = radii(c, r, gg.rnom)
    Ra = gg.rnom if R is None else R
    before = [a.copy() for a in (gg.xip, gg.xim, gg.xip_im, gg.xim_im, gg.varxip, gg.varxim)]
    out = gg.calculateMapSq(R=R, **ka)
    s, (Tp, Tm, Tx) = kern(c, form, Ra, gg)
    b = np.log(gg.right_edges / gg.left_edges).mean()
    f = 0.5 * b
    chk = Sum(mon, s, form)
    P, M = s * s * Tp, s * s * Tm
    some = chk('mapsq', out[0], [P, M], [gg.xip, gg.xim], f, 1e-9)
    chk('mapsq_im', out[1], [P, M], [gg.xip_im, gg.xim_im], f, 1e-9)
    chk('mxsq', out[2], [P, -M], [gg.xip, gg.xim], f, 1e-9)
    chk('mxsq_im', out[3], [P, -M], [gg.xip_im, gg.xim_im], f, 1e-9)
    chk('varmapsq', out[4], [P ** 2, M ** 2], [gg.varxip, gg.varxim], f * f, 1e-8)
    g = gg.calculateGamSq(R=R, eb=True)
    g1 = gg.calculateGamSq(R=R)
    mon.check(len(g1) == 2 and len(g) == 5, 'outputs of calculateGamSq')
    ok = s < 2
    x = np.where(ok, s, 1.)
    q = np.sqrt(4 - x * x)
    Sp = np.where(ok, (4 * np.arccos(x / 2) - x * q) / np.pi, 0.)
    Sm = np.where(ok, (x * q * (6 - x * x) - 8 * (3 - x * x) * np.arcsin(x / 2)) / np.pi / x ** 4,
                  4 * (s * s - 3) / s ** 4)
    # the small-s form of S- cancels to O(s^6/s^4)
    rt = 1e-9 + 1e-13 / np.minimum(1, s.min()) ** 6
    P, M = s * s * Sp, s * s * Sm
    for nm, o in (('gamsq', g), ('gamsq without eb', g1)):
        chk(nm, o[0], [P], [gg.xip], b, 1e-9)
        chk('var' + nm, o[1], [P ** 2], [gg.varxip], b * b, 1e-8)
    if rt < 1e-6:
        chk('gamsq_e', g[2], [P, M], [gg.xip, gg.xim], f, rt)
        chk('gamsq_b', g[3], [P, -M], [gg.xip, gg.xim], f, rt)
        chk('vargamsq_e', g[4], [P ** 2, M ** 2], [gg.varxip, gg.varxim], f * f, 10 * rt)
    after = [gg.xip, gg.xim, gg.xip_im, gg.xim_im, gg.varxip, gg.varxim]
    for a1, a2 in zip(before, after):
        mon.equal('the correlation is unchanged', a2, a1)
    if c['file']:
        p = os.path.join(os.environ['VERIF_SCRATCH'], 'm2.dat')
        gg.writeMapSq(p, R=R, precision=16, **ka)
        file_check(mon, p, [('R', Ra), ('Mapsq', out[0]), ('Mxsq', out[2]), ('MMxa', out[1]),
                            ('MMxb', -out[3]), ('sig_map', np.sqrt(out[4])), ('Gamsq', g1[0]),
                            ('sig_gam', np.sqrt(g1[1]))])
    mon.raises('bad m2_uform', ValueError, lambda: gg.calculateMapSq(R=R, m2_uform='None'))
    if some:
        mon.nontrivial(('gg', form, c['R'], c['nbins'], c['coords'], c['over'], c['patch']))


def run_ng(c, mon, treecorr, r):
    L = c17.make(c, 1, c['n'][0], '')
    S = c17.make(c, 2, c['n'][1], 'G')
    Rn = c17.make(c, 3, c['nr'][0], '')
    kw, form, ka, ck = setup(c, mon, treecorr, r, [S, L, Rn])
    kw.pop('var_method', None)
    cats = [D.catalog(treecorr, **ck) for D in (L, S, Rn)]
    cls = treecorr.NGCorrelation
    ng = cls(**kw)
    ng.process(cats[0], cats[1])
    rg = cls(**kw)
    rg.process(cats[2], cats[1])
    use = dict(rg=rg) if c['rand'] else {}
    if c['bin_type'] != 'Log':
        mon.raises('calculateNMap of %s bins' % c['bin_type'], ValueError,
                   lambda: ng.calculateNMap(**use))
        return
    if c['over']:
        ng.varxi, rg.varxi
        for a in (ng.raw_xi, ng.raw_xi_im, rg.raw_xi, rg.raw_xi_im):
            a[...] = r.normal(0, 1, a.shape)
    R = radii(c, r, ng.rnom)
    Ra = ng.rnom if R is None else R
    if c['rand'] == 2:
        ng.calculateXi()
    out = ng.calculateNMap(R=R, **use, **ka)
    xi = ng.raw_xi - (rg.raw_xi if use else 0)
    im = ng.raw_xi_im - (rg.raw_xi_im if use else 0)
    v = ng.raw_varxi + (rg.raw_varxi if use else 0)
    s, (Tp, Tm, Tx) = kern(c, form, Ra, ng)
    b = np.log(ng.right_edges / ng.left_edges).mean()
    chk = Sum(mon, s, form)
    X = s * s * Tx
    some = chk('nmap', out[0], [X], [xi], b, 1e-8)
    chk('nmx', out[1], [X], [im], b, 1e-8)
    chk('varnmap', out[2], [X ** 2], [v], b * b, 1e-7)
    mon.raises('bad m2_uform', ValueError, lambda: ng.calculateNMap(R=R, m2_uform='x'))
    if c['file']:
        p = os.path.join(os.environ['VERIF_SCRATCH'], 'nm.dat')
        ng.writeNMap(p, R=R, precision=16, **use, **ka)
        file_check(mon, p, [('R', Ra), ('NMap', out[0]), ('NMx', out[1]),
                            ('sig_nmap', np.sqrt(out[2]))])
        gg = treecorr.GGCorrelation(**kw)
        gg.process(cats[1])
        NN = treecorr.NNCorrelation
        dd, rr, dr, rd = NN(**kw), NN(**kw), NN(**kw), NN(**kw)
        dd.process(cats[0])
        rr.process(cats[2])
        dr.process(cats[0], cats[2])
        rd.process(cats[2], cats[0])
        a = dict(rr=rr)
        if c['rand'] in (1, 3):
            a['dr'] = dr
        if c['rand'] == 3:
            a['rd'] = rd
        p = os.path.join(os.environ['VERIF_SCRATCH'], 'norm.dat')
        with np.errstate(all='ignore'):
            ng.writeNorm(p, gg=gg, dd=dd, R=R, precision=16, **a, **use, **ka)
            m = gg.calculateMapSq(R=R, **ka)
            nq = dd.calculateNapSq(R=R, **a, **ka)
            A, B, N2 = out[0], m[0], nq[0]
            rho = A ** 2 / (N2 * B)
            vr = rho ** 2 * (4 * out[2] / A ** 2 + nq[1] / N2 ** 2 + m[4] / B ** 2)
            bb = N2 / B
            vb = bb ** 2 * (nq[1] / N2 ** 2 + m[4] / B ** 2)
            cols = [('R', Ra), ('NMap', A), ('NMx', out[1]), ('sig_nmap', np.sqrt(out[2])),
                    ('Napsq', N2), ('sig_napsq', np.sqrt(nq[1])), ('Mapsq', B),
                    ('sig_mapsq', np.sqrt(m[4])), ('NMap_norm', rho), ('sig_norm', np.sqrt(vr)),
                    ('Nsq_Mapsq', bb), ('sig_nn_mm', np.sqrt(vb))]
            if all(np.all(np.isfinite(v)) for k, v in cols):
                file_check(mon, p, cols, 1e-10)
    if some:
        mon.nontrivial(('ng', form, c['R'], c['nbins'], c['coords'], c['over'], c['rand']))


def run_nn(c, mon, treecorr, r):
    D1 = c17.make(c, 1, c['n'][0], '')
    R1 = c17.make(c, 3, c['nr'][0], '')
    kw, form, ka, ck = setup(c, mon, treecorr, r, [R1, D1])
    kw.pop('var_method', None)
    d, q = [D.catalog(treecorr, **ck) for D in (D1, R1)]
    NN = treecorr.NNCorrelation
    dd, rr, dr, rd = NN(**kw), NN(**kw), NN(**kw), NN(**kw)
    dd.process(d)
    rr.process(q)
    dr.process(d, q)
    rd.process(q, d)
    a = dict(rr=rr)
    if c['rand'] in (1, 3):
        a['dr'] = dr
    if c['rand'] in (2, 3):
        a['rd'] = rd
    if c['bin_type'] != 'Log':
        mon.raises('calculateNapSq of %s bins' % c['bin_type'], ValueError,
                   lambda: dd.calculateNapSq(**a))
        return
    R = radii(c, r, dd.rnom)
    Ra = dd.rnom if R is None else R
    out = dd.calculateNapSq(R=R, **a, **ka)
    ref = dd.copy()
    xi, v = ref.calculateXi(**a)
    s, (Tp, Tm, Tx) = kern(c, form, Ra, dd)
    b = np.log(dd.right_edges / dd.left_edges).mean()
    chk = Sum(mon, s, form)
    P = s * s * Tp
    some = chk('nsq', out[0], [P], [xi], b, 1e-9)
    chk('varnsq', out[1], [P ** 2], [v], b * b, 1e-8)
    mon.raises('bad m2_uform', ValueError, lambda: dd.calculateNapSq(R=R, m2_uform='x', **a))
    if some:
        mon.nontrivial(('nn', form, c['R'], c['nbins'], c['coords'], c['rand']))


GHX, GHW = np.polynomial.hermite.hermgauss(9)


def map3_kernels(s, t, ks):
    """T0..T3 for vertices at 0, s, t: 4 pi^2 times the integral over the aperture centre of the
    product of the three weights, with each shear projected along the direction to the centroid.
    conjugate = which vertex enters as M^* (None, 0, 1, 2)."""
    s = s.astype(complex)
    x = [0 * s, s, t]
    cen = (s + t) / 3
    q = [cen - xi for xi in x]
    a = [0.5 / k ** 2 for k in ks]
    A = sum(a)
    mu = sum(ai * xi for ai, xi in zip(a, x)) / A
    E = sum(ai * np.abs(xi - mu) ** 2 for ai, xi in zip(a, x))
    out = []
    cx, cy = np.meshgrid(GHX, GHX)
    W = np.outer(GHW, GHW).ravel() / A
    off = (cx + 1j * cy).ravel() / np.sqrt(A)
    for conj in (None, 0, 1, 2):
        tot = 0
        for w, o in zip(W, off):
            term = w
            for j in range(3):
                z = x[j] - (mu + o)
                ph = q[j] ** 2 / np.abs(q[j]) ** 2
                m = np.conj(z) ** 2 * ph
                if j == conj:
                    m = np.conj(m)
                term = term * (-m / (4 * np.pi * ks[j] ** 4))
            tot = tot + term
        out.append(tot * np.exp(-E) * 4 * np.pi ** 2)
    return out


def run_map3(c, mon, treecorr, r):
    D = c17.make(c, 1, c['n'][0], 'G')
    lo, hi = c17.sep_range([D], r)
    kw = dict(bin_type=c['bin_type'], min_sep=lo, max_sep=min(hi, lo * 20), nbins=c['nbins'],
              bin_slop=c['slop'])
    if c['coords'] == 'spherical':
        kw['sep_units'] = 'radians'
    if c['bin_type'] == 'LogRUV':
        kw.update(nubins=2, nvbins=2)
    else:
        kw['nphi_bins'] = 3
        u = np.pi / 180 if c['phi'] == 'degrees' else 1.
        if c['phi']:
            kw['phi_units'] = c['phi']
        if c['prange'] != (0, 1):
            kw.update(min_phi=np.pi * c['prange'][0] / u, max_phi=np.pi * c['prange'][1] / u)
    ggg = treecorr.GGGCorrelation(**kw)
    pk = dict(algo='triangle') if c['bin_type'] == 'LogSAS' else {}
    if c['bin_type'] == 'LogSAS' and r.rand() < 0.3 and c['prange'] == (0, 1):
        pk = dict(algo='multipole', max_n=4)
    ggg.process(D.catalog(treecorr), **pk)
    if c['over']:
        [getattr(ggg, 'vargam%d' % j) for j in range(4)]
        for nm in ('_gam0r', '_gam0i'):
            pass
        for j in range(4):
            g = r.normal(0, 1, ggg.gam0.shape) + 1j * r.normal(0, 1, ggg.gam0.shape)
            getattr(ggg, 'gam%dr' % j)[...] = g.real
            getattr(ggg, 'gam%di' % j)[...] = g.imag
    R = radii(c, r, ggg.rnom1d)
    Ra = ggg.rnom1d if R is None else R
    a = {}
    if c['k2'] != 1 or c['k3'] != 1:
        a = dict(k2=c['k2'], k3=c['k3'])
    out = ggg.calculateMap3(R=R, **a)
    k = (1., float(c['k2']), float(c['k3']))
    d2, d3, d1 = [x.ravel()[None, :] / Ra[:, None] for x in (ggg.meand2, ggg.meand3, ggg.meand1)]
    good = np.ones(d2.shape, dtype=bool)
    if c['bin_type'] == 'LogRUV':
        u, v = ggg.meanu.ravel()[None, :], ggg.meanv.ravel()[None, :]
        cost = 0.5 * u * (1 - v * v) - np.abs(v)
        good = np.broadcast_to(np.abs(cost) < 1, d2.shape)
        cost = np.where(np.abs(cost) < 1, cost, 0.)
        t = d3 * (cost - 1j * np.where(v > 0, 1, -1) * np.sqrt(1 - cost ** 2))
        meas = d3 * d1 / np.sqrt(1 - cost ** 2) * ggg.ubin_size * ggg.vbin_size / (2 * np.pi)
        cond = np.min(np.sqrt(1 - cost ** 2))
    else:
        phi = ggg.meanphi.ravel()[None, :] * (np.pi / 180 if c['phi'] == 'degrees' else 1.)
        t = d3 * np.exp(1j * phi)
        dphi = (kw.get('max_phi', np.pi / u) - kw.get('min_phi', 0.)) * u / 3
        meas = d3 ** 2 * np.log(kw['max_sep'] / kw['min_sep']) / c['nbins'] * dphi / (2 * np.pi)
        cond = 1.
    meas = np.where(good, meas * d2 ** 2 * np.log(kw['max_sep'] / kw['min_sep']) / c['nbins'], 0.)
    gam = [getattr(ggg, 'gam%d' % j).ravel() for j in range(4)]
    var = [getattr(ggg, 'vargam%d' % j).ravel() for j in range(4)]
    # which aperture each vertex of the triangle carries
    if c['bin_type'] == 'LogRUV':
        perms = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]
    else:
        perms = [(0, 1, 2), (0, 2, 1)]
    mmm, mc, mag = 0, [0, 0, 0], 0
    cf = [0, 0, 0, 0]
    # vertex 1 at the origin, 3 at s=d2, 2 at t=d3
    for p in perms:
        T = map3_kernels(d2, t, (k[p[0]], k[p[2]], k[p[1]]))
        T = [T[0], T[1], T[3], T[2]]
        T = [x * meas for x in T]
        mmm = mmm + T[0].dot(gam[0])
        for j in range(3):
            mc[p[j]] = mc[p[j]] + T[1 + j].dot(gam[1 + j])
        for j in range(4):
            cf[j] = cf[j] + T[j]
            mag = mag + np.abs(T[j]).dot(np.abs(gam[j]))
    m1, m2, m3 = mc
    want = [np.real(m1 + m2 + m3 + mmm), np.imag(m1 + m2 - m3 + mmm), np.imag(m1 - m2 + m3 + mmm),
            np.imag(-m1 + m2 + m3 + mmm), np.real(m1 + m2 - m3 - mmm),
            np.real(m1 - m2 + m3 - mmm), np.real(-m1 + m2 + m3 - mmm),
            np.imag(m1 + m2 + m3 - mmm)]
    names = ['map3', 'mapmapmx', 'mapmxmap', 'mxmapmap', 'mxmxmap', 'mxmapmx', 'mapmxmx', 'mx3']
    rt = 1e-7 / cond ** 2
    if rt > 1e-4:
        return
    for nm, g, w in zip(names, out, want):
        mon.close(nm, g, w / 4, rt * mag + 1e-300)
        mon.count('values', np.size(w))
    v = sum((np.abs(x) / 4) ** 2 @ y for x, y in zip(cf, var))
    mon.close('varmap3', out[8], v, 0., rtol=1e-6 / cond ** 2)
    if c['file'] and not a:
        p = os.path.join(os.environ['VERIF_SCRATCH'], 'm3.dat')
        ggg.writeMap3(p, R=R, precision=16)
        file_check(mon, p, [('R', Ra), ('Map3', out[0]), ('Map2Mx', out[1]), ('MapMx2', out[4]),
                            ('Mx3', out[7]), ('sig_map', np.sqrt(out[8]))])
    if np.any(mag > 0):
        mon.nontrivial(('map3', c['bin_type'], k[1:], c['R'], c['nbins'], c['coords'], c['phi'],
                        c['over']))
