"""C20: binning is well formed; invalid arguments are rejected and leave things as they were."""
import math
import numpy as np
from vlib import gen
from oracle import pairs as P

RULE = ('Random binning specifications (each three of min_sep, max_sep, nbins, bin_size; all bin '
        'types; two- and three-point; units; u, v, phi and multipole axes) compared with the '
        'documented bins, and every equivalent specification with each other; random invalid '
        'constructor arguments, catalogs and method calls, each of which must raise and leave '
        'catalogs and finished correlations as they were. Non-trivial: one specification or one '
        'rejected call; signature (kind, parameters given, bin type, units or call).')
MIN_EVENTS = dict(specs=400, rejections_checked=2000, states_compared=400)
UN = P.ANGLE


def cases(tier, seed):
    q = gen.prng('C20', seed)
    n = 4 if tier == 'quick' else 80
    out = []
    for kind, k in (('bin2', 700), ('bin3', 500), ('reject_new', 40), ('reject_cat', 60),
                    ('reject_call2', 150), ('reject_call3', 80), ('reject_file', 30)):
        for i in range(k * n):
            out.append(dict(kind=kind, seed=q.randrange(2 ** 31)))
    return out


def run(c, mon):
    import treecorr
    q = gen.prng(c['kind'], c['seed'])
    globals()[c['kind']](treecorr, q, mon, c)
    mon.cover('kind', c['kind'])


# ------------------------------------------------------------------ two-point binning
def bin2(treecorr, q, mon, c):
    bt = q.choice(['Log', 'Log', 'Linear', 'TwoD'])
    units = q.choice([None, None, 'radians', 'degrees', 'arcmin', 'arcsec', 'hours', 'deg'])
    letters = q.choice(gen.LETTERS2)
    cls = getattr(treecorr, letters + 'Correlation')
    mn = q.choice([0.01, 0.5, 1, 1, 3.7, 20, 1e-5]) * q.uniform(0.5, 2)
    mx = mn * q.choice([1.05, 1.3, 2, 10, 50, 1000.]) * q.uniform(1.0, 1.2)
    nb = q.choice([1, 2, 3, 5, 10, 20, 57, 200])
    if bt == 'Linear' and q.random() < 0.4:
        mn = 0.
    given = q.choice(['mmn', 'mmb', 'mnb', 'Mnb'])
    if bt == 'Log':
        bs = math.log(mx / mn) / nb
    elif bt == 'Linear':
        bs = (mx - mn) / nb
    else:
        bs = 2 * mx / nb
    if given == 'mmb':
        bs *= q.choice([1.00001, 0.97, 1.01, 0.7])
        if bt == 'TwoD':
            bs = min(bs, 1.999 * mx)
    if given == 'Mnb' and bt == 'Linear':
        bs = min(bs, 0.9999 * mx / nb)
    if bt == 'TwoD':
        spec = {'mmn': dict(max_sep=mx, nbins=nb), 'mmb': dict(max_sep=mx, bin_size=bs),
                'mnb': dict(nbins=nb, bin_size=bs), 'Mnb': dict(nbins=nb, bin_size=bs)}[given]
        if q.random() < 0.3:
            spec['min_sep'] = mn * 0.3
    else:
        spec = {'mmn': dict(min_sep=mn, max_sep=mx, nbins=nb),
                'mmb': dict(min_sep=mn, max_sep=mx, bin_size=bs),
                'mnb': dict(min_sep=mn, nbins=nb, bin_size=bs),
                'Mnb': dict(max_sep=mx, nbins=nb, bin_size=bs)}[given]
    kw = dict(spec, bin_type=bt)
    if units:
        kw['sep_units'] = units
    style = q.choice(['kwargs', 'config', 'strings', 'none', 'override'])
    if style == 'kwargs':
        corr = cls(**kw)
    elif style == 'config':
        cfg = dict(kw, something_else=3, file_name='nothing')
        keep = dict(cfg)
        corr = cls(cfg)
        mon.check(cfg == keep, 'config dict modified', got=cfg, want=keep)
    elif style == 'strings':
        corr = cls({k: (repr(v) if not isinstance(v, str) else v) for k, v in kw.items()})
    elif style == 'none':
        full = dict(min_sep=None, max_sep=None, nbins=None, bin_size=None)
        if bt == 'TwoD':
            full.pop('min_sep')
        full.update(kw)
        corr = cls(**full)
    else:
        cfg = dict(kw)
        key = q.choice(sorted(spec))
        cfg[key] = cfg[key] * 3
        corr = cls(cfg, **{key: spec[key]})
    mon.count('specs')
    check2(mon, corr, bt, spec, units)
    # slop
    bsl = q.choice([None, 0., 0.3, 1., 2.5])
    if bsl is not None:
        c2 = cls(bin_slop=bsl, **kw)
        mon.close('bin_slop', c2.bin_slop, bsl, 0)
        mon.close('b', c2.b, bsl * c2.bin_size, 0, 1e-12)
    elif bt == 'Log':
        mon.close('default b', corr.b, min(corr.bin_size, 0.1), 0, 1e-12)
    mon.close('angle_slop', cls(angle_slop=0.3, **kw).angle_slop, 0.3, 0)
    # equivalent specifications
    d = dict(min_sep=corr.min_sep, max_sep=corr.max_sep, nbins=corr.nbins, bin_size=corr.bin_size)
    drop = ['bin_size', 'max_sep', 'min_sep'] if bt != 'TwoD' else ['bin_size', 'max_sep']
    if bt == 'Linear' and corr.min_sep < 1e-6 * corr.max_sep:
        drop.remove('min_sep')      # rounding could make the implied min_sep negative
    for k in drop:
        e = {a: b for a, b in d.items() if a != k}
        e['bin_type'] = bt
        if units:
            e['sep_units'] = units
        c3 = cls(**e)
        for at in ('rnom', 'logr', 'left_edges', 'right_edges'):
            if bt == 'TwoD' and at == 'logr':
                continue        # the centre of the grid is at zero up to rounding
            mon.close('equivalent specification without %s: %s' % (k, at), getattr(c3, at),
                      getattr(corr, at), 1e-9 * corr.max_sep + (1e-9 if at == 'logr' else 0), 1e-9)
    # other units
    if units:
        u2 = q.choice(['radians', 'degrees', 'arcmin', 'arcsec'])
        f = UN[units] / UN[u2]
        e = {k: (v * f if k.endswith('sep') or (k == 'bin_size' and bt != 'Log') else v)
             for k, v in spec.items()}
        c4 = cls(bin_type=bt, sep_units=u2, **e)
        if c4.nbins == corr.nbins:
            mon.close('other units: edges', c4.left_edges, corr.left_edges * f, 1e-9 * c4.max_sep,
                      1e-9)
            mon.close('internal min_sep', c4._min_sep, corr._min_sep, 1e-12 * c4._max_sep, 1e-9)
            mon.close('internal max_sep', c4._max_sep, corr._max_sep, 0, 1e-9)
        else:
            mon.check(given == 'mmb', 'nbins changes with units', got=c4.nbins, want=corr.nbins)
    # copies and repr
    for c5, what in ((corr.copy(), 'copy'), (eval('treecorr.' + repr(corr),
                                                  dict(treecorr=treecorr)), 'repr')):
        for at in ('rnom', 'left_edges', 'nbins', 'bin_size', 'b', 'bin_type', 'sep_units'):
            mon.equal('%s: %s' % (what, at), getattr(c5, at), getattr(corr, at))
    for at in ('meanr', 'meanlogr', 'weight', 'npairs'):
        mon.check(getattr(corr, at).shape == corr.rnom.shape, 'shape of ' + at)
    mon.nontrivial((bt, given, units, style, letters[0]))


def check2(mon, corr, bt, spec, units):
    B = P.Bins(bt, **spec)
    n = B.nbins
    mon.equal('nbins', corr.nbins, n)
    sc = abs(B.max_sep)
    mon.close('bin_size', corr.bin_size, B.bin_size, 0, 1e-9)
    mon.close('min_sep', corr.min_sep, B.min_sep, 1e-12 * sc, 1e-9)
    mon.close('max_sep', corr.max_sep, B.max_sep, 0, 1e-9)
    for k in ('min_sep', 'max_sep', 'nbins'):
        if k in spec:
            mon.equal('%s as given' % k, getattr(corr, k), spec[k])
    e = B.edges
    if bt == 'TwoD':
        ct = (e[1:] + e[:-1]) / 2
        mon.close('dxnom', corr.dxnom, np.tile(ct, (n, 1)), 1e-9 * sc)
        mon.close('dynom', corr.dynom, np.tile(ct, (n, 1)).T, 1e-9 * sc)
        mon.close('left', corr.left_edges, np.tile(e[:-1], (n, 1)), 1e-9 * sc)
        mon.close('right', corr.right_edges, np.tile(e[1:], (n, 1)), 1e-9 * sc)
        mon.close('bottom', corr.bottom_edges, np.tile(e[:-1], (n, 1)).T, 1e-9 * sc)
        mon.close('top', corr.top_edges, np.tile(e[1:], (n, 1)).T, 1e-9 * sc)
        mon.close('rnom', corr.rnom, np.hypot(corr.dxnom, corr.dynom), 1e-12 * sc)
    else:
        tol = 1e-9 if bt == 'Log' else 0
        mon.close('left', corr.left_edges, e[:-1], 1e-10 * sc if bt != 'Log' else 0, 1e-9)
        mon.close('right', corr.right_edges, e[1:], 1e-10 * sc if bt != 'Log' else 0, 1e-9)
        mon.close('contiguous', corr.left_edges[1:], corr.right_edges[:-1], 1e-10 * sc if bt != 'Log' else 0, 1e-10)
        ct = np.sqrt(e[1:] * e[:-1]) if bt == 'Log' else (e[1:] + e[:-1]) / 2
        mon.close('rnom', corr.rnom, ct, 1e-10 * sc if bt != 'Log' else 0, 1e-9)
        mon.close('logr', corr.logr, np.log(ct), 1e-8)
        mon.check(bool(np.all(np.diff(corr.rnom) > 0)), 'rnom increases')


# ------------------------------------------------------------------ three-point binning
def axis(lo, hi, n):
    s = (hi - lo) / n
    return lo + s * (np.arange(n) + 0.5)


def bin3(treecorr, q, mon, c):
    bt = q.choice(['LogRUV', 'LogSAS', 'LogMultipole'])
    cls = getattr(treecorr, q.choice(['NNN', 'KKK', 'GGG']) + 'Correlation')
    units = q.choice([None, None, 'degrees', 'arcmin', 'radians'])
    mn = q.choice([0.1, 1, 5.]) * q.uniform(0.5, 2)
    mx = mn * q.choice([1.3, 2, 10, 50.])
    nb = q.choice([1, 2, 3, 5, 8])
    bs = math.log(mx / mn) / nb
    given = q.choice(['mmn', 'mmb', 'mnb', 'Mnb'])
    spec = {'mmn': dict(min_sep=mn, max_sep=mx, nbins=nb),
            'mmb': dict(min_sep=mn, max_sep=mx, bin_size=bs * 0.96),
            'mnb': dict(min_sep=mn, nbins=nb, bin_size=bs),
            'Mnb': dict(max_sep=mx, nbins=nb, bin_size=bs)}[given]
    kw = dict(spec, bin_type=bt)
    if units:
        kw['sep_units'] = units
    B = P.Bins('Log', **spec)
    nominal = spec.get('bin_size', bs)

    def draw(top, names, unit=1.):
        """names (min, max, n, size) -> kwargs, lo, hi, n"""
        a, b, nn, ss = names
        kind = q.choice(['none', 'mm', 'mmn', 'mms', 'n', 's', 'ns_min', 'ns_max', 'n_min'])
        lo = q.choice([0., 0.1, 0.25]) * top
        hi = q.choice([0.5, 0.8, 1.0]) * top
        k = q.choice([1, 2, 5, 9])
        s = q.choice([0.05, 0.1, 0.13]) * top
        g = {}
        if kind == 'none':
            lo, hi, k = 0., top, int(math.ceil((top - 1e-10) / nominal))
        elif kind == 'mm':
            g = {a: lo, b: hi}
            k = int(math.ceil((hi - lo - 1e-10) / nominal))
        elif kind == 'mmn':
            g = {a: lo, b: hi, nn: k}
        elif kind == 'mms':
            g = {a: lo, b: hi, ss: s}
            k = int(math.ceil((hi - lo - 1e-10) / s))
        elif kind == 'n':
            g = {nn: k}
            lo, hi = 0., top
        elif kind == 's':
            g = {ss: s}
            lo, hi, k = 0., top, int(math.ceil((top - 1e-10) / s))
        elif kind == 'ns_min':
            g = {a: lo, nn: k, ss: s}
            hi = min(lo + k * s, top)
        elif kind == 'ns_max':
            g = {b: hi, nn: k, ss: s}
            lo = max(hi - k * s, 0.)
        else:
            g = {a: lo, nn: k}
            hi = top
        g = {x: (v if x == nn else v / unit) for x, v in g.items()}
        return g, lo, hi, k, kind
    kinds = ''
    if bt == 'LogRUV':
        gu, ulo, uhi, nu, k1 = draw(1., ('min_u', 'max_u', 'nubins', 'ubin_size'))
        gv, vlo, vhi, nv, k2 = draw(1., ('min_v', 'max_v', 'nvbins', 'vbin_size'))
        kw.update(gu)
        kw.update(gv)
        corr = cls(**kw)
        kinds = k1 + k2
        mon.equal('nubins', corr.nubins, nu)
        mon.equal('nvbins', corr.nvbins, nv)
        mon.close('min_u', corr.min_u, ulo, 1e-12)
        mon.close('max_u', corr.max_u, uhi, 1e-12)
        mon.close('min_v', corr.min_v, vlo, 1e-12)
        mon.close('max_v', corr.max_v, vhi, 1e-12)
        u1 = axis(ulo, uhi, nu)
        v1 = axis(vlo, vhi, nv)
        v1 = np.concatenate([-v1[::-1], v1])
        mon.close('u1d', corr.u1d, u1, 1e-12)
        mon.close('v1d', corr.v1d, v1, 1e-12)
        mon.close('ubin_size', corr.ubin_size, (uhi - ulo) / nu, 1e-12)
        mon.close('vbin_size', corr.vbin_size, (vhi - vlo) / nv, 1e-12)
        shape = (B.nbins, nu, 2 * nv)
        mon.close('u', corr.u, np.broadcast_to(u1[None, :, None], shape), 1e-12)
        mon.close('v', corr.v, np.broadcast_to(v1[None, None, :], shape), 1e-12)
        grid = corr.rnom
        mon.close('rnom', corr.rnom, np.broadcast_to(np.sqrt(B.edges[1:] * B.edges[:-1])
                                                     [:, None, None], shape), 0, 1e-9)
    elif bt == 'LogSAS':
        pu = q.choice([None, None, 'radians', 'degrees'])
        unit = UN[pu] if pu else 1.
        g, lo, hi, n, kinds = draw(np.pi * (1 - 1e-15), ('min_phi', 'max_phi', 'nphi_bins',
                                                        'phi_bin_size'), unit)
        if pu:
            kw['phi_units'] = pu
        kw.update(g)
        corr = cls(**kw)
        kinds += str(pu)
        mon.equal('nphi_bins', corr.nphi_bins, n)
        mon.close('min_phi', corr.min_phi, lo, 1e-12)
        mon.close('max_phi', corr.max_phi, hi, 1e-12)
        mon.close('phi1d', corr.phi1d, axis(lo, hi, n), 1e-12)
        mon.close('phi_bin_size', corr.phi_bin_size, (hi - lo) / n, 1e-12)
        shape = (B.nbins, B.nbins, n)
        mon.close('phi', corr.phi, np.broadcast_to(axis(lo, hi, n)[None, None, :], shape), 1e-12)
    else:
        m = q.choice([0, 1, 2, 5, 12])
        kw['max_n'] = m
        corr = cls(**kw)
        shape = (B.nbins, B.nbins, 2 * m + 1)
        mon.equal('n1d', corr.n1d, np.arange(-m, m + 1))
        mon.equal('n', corr.n, np.broadcast_to(np.arange(-m, m + 1)[None, None, :], shape))
        mon.equal('max_n', corr.max_n, m)
    ct = np.sqrt(B.edges[1:] * B.edges[:-1])
    if bt != 'LogRUV':
        mon.close('d2nom', corr.d2nom, np.broadcast_to(ct[:, None, None], shape), 0, 1e-9)
        mon.close('d3nom', corr.d3nom, np.broadcast_to(ct[None, :, None], shape), 0, 1e-9)
        mon.close('logd2', corr.logd2, np.log(corr.d2nom), 1e-8)
        mon.close('logd3', corr.logd3, np.log(corr.d3nom), 1e-8)
    mon.equal('nbins', corr.nbins, B.nbins)
    mon.close('bin_size', corr.bin_size, B.bin_size, 0, 1e-9)
    mon.close('min_sep', corr.min_sep, B.min_sep, 0, 1e-9)
    mon.close('max_sep', corr.max_sep, B.max_sep, 0, 1e-9)
    mon.close('rnom1d', corr.rnom1d, ct, 0, 1e-9)
    for at in ('meand1', 'meanlogd2', 'meand3', 'ntri', 'weight'):
        mon.check(getattr(corr, at).shape == shape, 'shape of ' + at,
                  got=getattr(corr, at).shape, want=shape)
    if units:
        u2 = q.choice(['radians', 'degrees', 'arcmin'])
        f = UN[units] / UN[u2]
        e = {k: (v * f if k.endswith('_sep') else v) for k, v in kw.items()}
        e['sep_units'] = u2
        c4 = cls(**e)
        mon.close('internal min_sep', c4._min_sep, corr._min_sep, 0, 1e-9)
        mon.close('internal max_sep', c4._max_sep, corr._max_sep, 0, 1e-9)
    for c5, what in ((corr.copy(), 'copy'), (eval('treecorr.' + repr(corr),
                                                  dict(treecorr=treecorr)), 'repr')):
        for at in ('rnom1d', 'nbins', 'bin_size', 'b', 'bu', 'bv', 'bin_type', 'sep_units',
                   'data_shape'):
            mon.equal('%s: %s' % (what, at), getattr(c5, at), getattr(corr, at))
    mon.count('specs')
    mon.nontrivial((bt, given, kinds, units))


# ------------------------------------------------------------------ rejections
def any_exc(mon, what, fn):
    mon.nontrivial(('reject', what))
    mon.cover('rejected', what)
    return mon.raises(what, Exception, fn)


def reject_new(treecorr, q, mon, c):
    l2 = q.choice(gen.LETTERS2)
    l3 = q.choice(['NNN', 'KKK', 'GGG'])
    C2 = getattr(treecorr, l2 + 'Correlation')
    C3 = getattr(treecorr, l3 + 'Correlation')
    mn = q.uniform(0.5, 5)
    good = dict(min_sep=mn, max_sep=mn * 10, nbins=5)
    for what, drop, add in (
            ('no nbins or bin_size', ['nbins'], {}), ('no min_sep', ['min_sep'], {}),
            ('no max_sep', ['max_sep'], {}), ('only min', ['max_sep', 'nbins'], {}),
            ('only bin_size', ['min_sep', 'max_sep', 'nbins'], dict(bin_size=0.1)),
            ('nothing', ['min_sep', 'max_sep', 'nbins'], {}),
            ('min only with size', ['max_sep', 'nbins'], dict(bin_size=0.1)),
            ('max only with nbins', ['min_sep'], {}),
            ('all four', [], dict(bin_size=0.1)),
            ('min = max', [], dict(max_sep=mn)), ('min > max', [], dict(max_sep=mn * 0.9)),
            ('nbins = 0', [], dict(nbins=0)), ('nbins < 0', [], dict(nbins=-3)),
            ('bin_size = 0', ['nbins'], dict(bin_size=0.)),
            ('bin_size < 0', ['nbins'], dict(bin_size=-0.1)),
            ('bin_size < 0, max implied', ['max_sep'], dict(bin_size=-0.1)),
            ('nbins = 0, max implied', ['max_sep'], dict(bin_size=0.1, nbins=0)),
            ('min_sep = 0 in log', [], dict(min_sep=0.)),
            ('min_sep < 0', [], dict(min_sep=-1.)),
            ('nbins text', [], dict(nbins='many')), ('min_sep text', [], dict(min_sep='a')),
            ('bin_type unknown', [], dict(bin_type='Quadratic')),
            ('metric unknown', [], dict(metric='Manhattan')),
            ('sep_units unknown', [], dict(sep_units='parsec')),
            ('split_method unknown', [], dict(split_method='best')),
            ('brute unknown', [], dict(brute=7)), ('verbose unknown', [], dict(verbose=9)),
            ('var_method unknown', [], dict(var_method='guess')),
            ('unknown keyword', [], dict(max_seps=3)),
            ('bin_slop text', [], dict(bin_slop='some'))):
        for cls, nm in ((C2, '2'), (C3, '3')):
            if nm == '3' and 'bin_type' not in add:
                add = dict(add, bin_type='LogRUV')
            kw = {k: v for k, v in good.items() if k not in drop}
            kw.update(add)
            any_exc(mon, '%spt: %s' % (nm, what), lambda: cls(**kw))
            if nm == '3' and add.get('bin_type') == 'LogRUV':
                for bt, ex in (('LogSAS', {}), ('LogMultipole', dict(max_n=3))):
                    k2 = dict(kw, bin_type=bt, **ex)
                    any_exc(mon, '3pt %s: %s' % (bt, what), lambda: cls(**k2))
    for what, kw in (('min_rpar > max_rpar', dict(good, min_rpar=3, max_rpar=2)),
                     ('TwoD with three', dict(max_sep=5, nbins=4, bin_size=1, bin_type='TwoD')),
                     ('TwoD no max_sep', dict(nbins=4, bin_type='TwoD')),
                     ('TwoD min > max', dict(min_sep=6, max_sep=5, nbins=4, bin_type='TwoD')),
                     ('Linear min > max', dict(min_sep=6, max_sep=5, nbins=4, bin_type='Linear')),
                     ('Linear negative', dict(min_sep=-6, max_sep=5, nbins=4, bin_type='Linear')),
                     ('Linear implied negative', dict(max_sep=5, nbins=8, bin_size=1,
                                                      bin_type='Linear')),
                     ('m2_uform unknown', dict(good, m2_uform='Round')),
                     ('max_n in two-point', dict(good, max_n=3)),
                     ('SAS in two-point', dict(good, bin_type='SAS'))):
        if what.startswith('m2_uform') and l2 not in ('NN', 'NG', 'GG'):
            continue
        any_exc(mon, '2pt: ' + what, lambda: C2(**kw))
    ruv = dict(good, bin_type='LogRUV')
    sas = dict(good, bin_type='LogSAS')
    mul = dict(good, bin_type='LogMultipole')
    for what, kw in (('u range', dict(ruv, min_u=-0.1)), ('u range hi', dict(ruv, max_u=1.1)),
                     ('u order', dict(ruv, min_u=0.6, max_u=0.5)),
                     ('u equal', dict(ruv, min_u=0.5, max_u=0.5)),
                     ('u four', dict(ruv, min_u=0, max_u=1, nubins=5, ubin_size=0.2)),
                     ('v range', dict(ruv, min_v=-0.1)), ('v range hi', dict(ruv, max_v=1.3)),
                     ('v order', dict(ruv, min_v=0.6, max_v=0.5)),
                     ('v four', dict(ruv, min_v=0, max_v=1, nvbins=5, vbin_size=0.2)),
                     ('phi in RUV', dict(ruv, min_phi=0.1)), ('n in RUV', dict(ruv, max_n=3)),
                     ('nphi in RUV', dict(ruv, nphi_bins=3)),
                     ('u in SAS', dict(sas, nubins=4)), ('v in SAS', dict(sas, max_v=0.4)),
                     ('phi range', dict(sas, min_phi=-0.1)), ('phi range hi', dict(sas, max_phi=3.3)),
                     ('phi range hi deg', dict(sas, max_phi=190, phi_units='deg')),
                     ('phi order', dict(sas, min_phi=2., max_phi=1.)),
                     ('phi four', dict(sas, min_phi=0, max_phi=1, nphi_bins=5, phi_bin_size=0.2)),
                     ('phi units', dict(sas, phi_units='turns')),
                     ('no max_n', mul), ('max_n negative', dict(mul, max_n=-1)),
                     ('phi in multipole', dict(mul, max_n=3, nphi_bins=4)),
                     ('u in multipole', dict(mul, max_n=3, nubins=4)),
                     ('TwoD in three-point', dict(good, bin_type='TwoD')),
                     ('Rlens in three-point', dict(good, metric='Rlens')),
                     ('nubins zero', dict(ruv, nubins=0)),
                     ('min_rpar in three-point', dict(good, min_rpar=3.))):
        any_exc(mon, '3pt: ' + what, lambda: C3(**kw))
    for what, fn in (('Corr2 no args', lambda: C2()), ('positional', lambda: C2(None, None, 3)),
                     ('Field', lambda: treecorr.Field())):
        any_exc(mon, what, fn)


def cat_kwargs(q, n, coords, letters='KZVGTQ'):
    D = gen.Data(q.randrange(2 ** 31), coords, n, q.choice(gen.GEOM[coords][:2]), 'dyadic',
                 'degrees' if coords == 'spherical' else None)
    return dict(D.kw)


def reject_cat(treecorr, q, mon, c):
    n = q.choice([2, 5, 20])
    flat = cat_kwargs(q, n, 'flat')
    sky = cat_kwargs(q, n, 'spherical')
    cube = cat_kwargs(q, n, '3d')
    C = treecorr.Catalog

    def without(d, *ks):
        return {k: v for k, v in d.items() if k not in ks}
    one = np.ones(n)
    items = [('no positions', dict(w=one)), ('x only', without(flat, 'y')),
             ('y only', without(flat, 'x')), ('ra only', without(sky, 'dec')),
             ('dec only', without(sky, 'ra')), ('both', dict(flat, **sky)),
             ('x with ra_units', dict(flat, ra_units='deg', dec_units='deg')),
             ('ra without units', without(sky, 'ra_units')),
             ('dec without units', without(sky, 'dec_units')),
             ('x_units only', dict(flat, x_units='deg')),
             ('y_units only', dict(flat, y_units='deg')),
             ('x_units with ra', dict(sky, x_units='deg', y_units='deg')),
             ('r with x', dict(flat, r=one)),
             ('z with ra', dict(sky, z=one)),
             ('bad units', dict(sky, ra_units='furlong')),
             ('unknown keyword', dict(flat, kappa=one)),
             ('all weights zero', dict(flat, w=0 * one)),
             ('npatch 0', dict(flat, npatch=0)), ('npatch negative', dict(flat, npatch=-2)),
             ('npatch too large', dict(flat, npatch=n + 10)),
             ('patch and centers', dict(flat, patch=np.zeros(n, int),
                                        patch_centers=np.zeros((2, 2)))),
             ('centers shape', dict(flat, patch_centers=np.zeros((2, 3)))),
             ('centers shape sky', dict(sky, patch_centers=np.zeros((2, 2)))),
             ('centers and npatch', dict(flat, patch_centers=np.array([[0, 0], [1., 1.]]),
                                         npatch=3)),
             ('kmeans_init', dict(flat, npatch=2, kmeans_init='best')),
             ('2-d arrays', dict(without(flat, 'x', 'y'), x=np.ones((n, 2)), y=np.ones((n, 2)))),
             ('empty', dict(x=[], y=[])),
             ('text', dict(x=['a'] * n, y=['b'] * n)),
             ('first_row 0', dict(flat, first_row=0)), ('every_nth 0', dict(flat, every_nth=0)),
             ('last before first', dict(flat, first_row=2, last_row=1)),
             ('file and arrays', dict(flat, file_name='nofile.dat')),
             ('no such file', dict(file_name='/nonexistent/nofile.fits', x_col='x', y_col='y')),
             ('file_type', dict(file_name='nofile.xyz', x_col=1, y_col=2, file_type='WORD'))]
    for k in ('w', 'wpos', 'k', 'v1', 'g2', 'q1', 't2', 'z1', 'patch', 'y', 'flag'):
        m = dict(flat)
        m[k] = np.ones(n + 1) if k != 'patch' else np.ones(n + 1, int)
        if k == 'flag':
            continue
        items.append(('length of ' + k, m))
    items.append(('length of z', dict(cube, z=np.ones(n + 1))))
    for a, b in (('g1', 'g2'), ('v1', 'v2'), ('t1', 't2'), ('q1', 'q2'), ('z1', 'z2')):
        items.append((a + ' only', without(flat, b)))
        items.append((b + ' only', without(flat, a)))
    for what, kw in items:
        keep = {k: np.array(v) for k, v in kw.items()}
        any_exc(mon, 'Catalog: ' + what, lambda: C(**kw).ntot)
        for k, v in kw.items():
            if isinstance(v, np.ndarray):
                mon.equal('caller array %s after rejection (%s)' % (k, what), v, keep[k])
        mon.count('states_compared')
    mon.covers.setdefault('kindn', set()).add(str(n))


ARR2 = ['meanr', 'meanlogr', 'weight', 'npairs', '_xi1', '_xi2', '_xi3', '_xi4']
ARR3 = ['meand1', 'meanlogd1', 'meand2', 'meanlogd2', 'meand3', 'meanlogd3', 'meanu', 'meanv',
        'weightr', 'weighti', 'ntri', '_z1', '_z2', '_z3', '_z4', '_z5', '_z6', '_z7', '_z8']
CATA = ['x', 'y', 'z', 'ra', 'dec', 'r', 'w', 'wpos', 'k', 'z1', 'z2', 'v1', 'v2', 'g1', 'g2', 't1',
        't2', 'q1', 'q2', 'patch']


def snap_corr(o):
    s = {k: np.array(getattr(o, k)) for k in (ARR3 if hasattr(o, 'ntri') else ARR2)
         if getattr(o, k, None) is not None and
         (k != 'meanv' or o.bin_type == 'LogRUV')}
    s.update(coords=o.coords, metric=o.metric, keys=sorted(map(str, o.results)),
             np1=o.npatch1, np2=o.npatch2,
             cfg=str(sorted((k, str(v)) for k, v in o.config.items())))
    for k in ('xi', 'zeta', 'tot'):
        if getattr(o, k, None) is not None:
            s[k] = np.array(getattr(o, k))
    return s


def snap_cat(o):
    s = {k: None if getattr(o, k) is None else np.array(getattr(o, k)) for k in CATA}
    s.update(n=o.ntot, nobj=o.nobj, sumw=o.sumw, npatch=o.npatch, coords=o.coords)
    return s


def same(mon, what, a, b):
    mon.count('states_compared')
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            mon.equal('%s: %s changed' % (what, k), y, x)
        else:
            mon.check(x is y or bool(np.all(x == y)), '%s: %s changed' % (what, k), got=y, want=x)


def reject_call2(treecorr, q, mon, c):
    letters = q.choice(gen.LETTERS2)
    a, b = letters
    cls = getattr(treecorr, letters + 'Correlation')
    n = q.choice([10, 40])
    npatch = q.choice([1, 1, 3])
    flat = treecorr.Catalog(npatch=npatch, **cat_kwargs(q, n, 'flat'))
    flat2 = treecorr.Catalog(npatch=npatch, **cat_kwargs(q, n + 3, 'flat'))
    sky = treecorr.Catalog(**cat_kwargs(q, n, 'spherical'))
    cube = treecorr.Catalog(**cat_kwargs(q, n, '3d'))
    bare = treecorr.Catalog(x=np.arange(5.), y=np.arange(5.) ** 2)
    five = treecorr.Catalog(npatch=5, **cat_kwargs(q, 30, 'flat'))
    four = treecorr.Catalog(npatch=4, **cat_kwargs(q, 30, 'flat'))
    kw = dict(min_sep=0.5, max_sep=20., nbins=6)
    corr = cls(**kw)
    two = a != b
    args = (flat, flat2) if two else (flat,)
    corr.process(*args)
    ref = snap_corr(corr)
    cats = [(nm, o, snap_cat(o)) for nm, o in (('flat', flat), ('flat2', flat2), ('sky', sky),
                                               ('cube', cube), ('bare', bare), ('five', five))]

    def pair(x, y=None):
        return (x, y if y is not None else x) if two else ((x,) if y is None else (x, y))
    unproc = cls(**kw)
    other = cls(min_sep=0.5, max_sep=20., nbins=7)
    other.process(*args)
    othert = cls(bin_type='Linear', **kw)
    othert.process(*args)
    diff = treecorr.NNCorrelation if letters != 'NN' else treecorr.KKCorrelation
    diffc = diff(**kw)
    diffc.process(flat)
    sep1 = cls(**dict(kw, min_sep=kw['min_sep'] * 1.1))
    sep2 = cls(**dict(kw, max_sep=kw['max_sep'] * 0.9))
    for x in (sep1, sep2):
        if q.random() < 0.5:
            x.process(*args)

    def iadd(x, y):
        x += y
    open('afile', 'w').close()
    calls = [
        ('+= other nbins', lambda: iadd(corr, other)),
        ('+= other bin_type', lambda: iadd(corr, othert)),
        ('+= other class', lambda: iadd(corr, diffc)),
        ('+= number', lambda: iadd(corr, 3)),
        ('+= other min_sep', lambda: iadd(corr, sep1)),
        ('+= other max_sep', lambda: iadd(corr, sep2)),
        ('estimate_cov unknown', lambda: corr.estimate_cov('guess')),
        ('estimate_cov func shot', lambda: corr.estimate_cov('shot', func=lambda x: x.weight)),
        ('design shot', lambda: corr.build_cov_design_matrix('shot')),
        ('design unknown', lambda: corr.build_cov_design_matrix('guess')),
        ('write unknown type', lambda: corr.write('nodir/out.xyz', file_type='WORD')),
        ('write unwritable', lambda: corr.write('afile/out.dat')),
        ('read missing', lambda: corr.read('/nonexistent/out.fits')),
        ('read unknown type', lambda: corr.read('out.fits', file_type='WORD')),
        ('from_file missing', lambda: cls.from_file('/nonexistent/out.fits')),
        ('multi cov different patches', lambda: treecorr.estimate_multi_cov(
            [mk(five), mk(four)], 'jackknife')),
    ]
    if npatch == 1 and letters != 'NN':
        calls += [('cov %s without patches' % m, lambda m=m: corr.estimate_cov(m))
                  for m in ('jackknife', 'sample', 'bootstrap', 'marked_bootstrap')]

    def mk(cat):
        o = cls(**kw)
        o.process(*pair(cat))
        return o
    if letters == 'NN':
        rr = treecorr.NNCorrelation(**kw)
        calls += [('calculateXi empty rr', lambda: corr.calculateXi(rr=rr)),
                  ('calculateXi no rr', lambda: corr.calculateXi()),
                  ('write rd without rr', lambda: corr.write('x.dat', dr=corr)),
                  ('cov before calculateXi', lambda: corr.estimate_cov('jackknife')),
                  ('uform', lambda: corr.calculateNapSq(rr=corr, m2_uform='Round'))]
    if letters == 'GG':
        lin = treecorr.GGCorrelation(bin_type='Linear', **kw)
        lin.process(flat)
        calls += [('uform', lambda: corr.calculateMapSq(m2_uform='Round')),
                  ('MapSq linear', lambda: lin.calculateMapSq()),
                  ('GamSq linear', lambda: lin.calculateGamSq())]
    if letters == 'NG':
        calls += [('uform', lambda: corr.calculateNMap(m2_uform='Round'))]
    if letters == 'NN':
        calls += [('sample_pairs no max', lambda: corr.sample_pairs(3, flat, flat, min_sep=1.)),
                  ('sample_pairs coords', lambda: corr.sample_pairs(3, flat, sky, min_sep=1.,
                                                                    max_sep=2.))]
    for what, fn in calls:
        any_exc(mon, letters + ' ' + what if 'cov' not in what else what, fn)
        same(mon, '%s after %s' % (letters, what), ref, snap_corr(corr))
    # process: the correlation itself may be cleared, nothing else may change
    has = set('NKZVGTQ')
    proc = [('Arc flat', {}, pair(flat), dict(metric='Arc')),
            ('Rperp flat', {}, pair(flat), dict(metric='Rperp')),
            ('Rlens sky', {}, pair(sky), dict(metric='Rlens')),
            ('OldRperp sky', {}, pair(sky), dict(metric='OldRperp')),
            ('Periodic no period', {}, pair(flat), dict(metric='Periodic')),
            ('Periodic sky', dict(period=3.), pair(sky), dict(metric='Periodic')),
            ('Periodic no z', dict(xperiod=3., yperiod=3.), pair(cube), dict(metric='Periodic')),
            ('period without Periodic', dict(period=3.), pair(flat), {}),
            ('xperiod without Periodic', dict(xperiod=3.), pair(flat), {}),
            ('min_rpar flat', dict(min_rpar=1.), pair(flat), {}),
            ('max_rpar sky', dict(max_rpar=1.), pair(sky), {}),
            ('TwoD sky', dict(bin_type='TwoD', min_sep=None), pair(sky), {}),
            ('TwoD 3d', dict(bin_type='TwoD', min_sep=None), pair(cube), {}),
            ('sep_units 3d', dict(sep_units='deg'), pair(cube), {}),
            ('metric unknown', {}, pair(flat), dict(metric='Manhattan')),
            ('mixed coords', {}, (flat, sky), {}), ('mixed coords 2', {}, (cube, flat), {}),
            ('patch_method', {}, pair(flat), dict(patch_method='half')),
            ('different patches', {}, (five, four), {}),
            ('empty list', {}, ([], []) if two else ([],), {}),
            ('None', {}, (None,), {}), ('file name', {}, ('a.dat', 'b.dat'), {}),
            ('unknown keyword', {}, pair(flat), dict(metrics='Arc'))]
    if two:
        proc.append(('one catalog', {}, (flat,), {}))
    if b != 'N':
        proc.append(('missing field', {}, pair(flat, bare) if two else (bare,), {}))
    for what, ex, ar, pk in proc:
        k2 = dict(kw, **ex)
        k2 = {k: v for k, v in k2.items() if v is not None}
        o = cls(**k2)
        any_exc(mon, ('process: ' if what != 'missing field' else letters) + what,
                lambda: o.process(*ar, **pk))
        if not ex:
            any_exc(mon, 'reused: ' + what, lambda: corr.process(*ar, **pk))
    corr.process(*args)
    again = snap_corr(corr)
    close_snap(mon, letters + ' process after rejected calls', ref, again)
    for nm, o, s in cats:
        same(mon, 'catalog %s after rejected calls' % nm, s, snap_cat(o))


def snap_group(k):
    if k.startswith('_z'):
        return '_z'
    return k[:3] if k.startswith('_') else k


def close_snap(mon, what, a, b):
    mon.count('states_compared')
    big = {}
    for k, x in a.items():
        if isinstance(x, np.ndarray) and x.dtype.kind in 'fc' and x.size:
            g = snap_group(k)
            big[g] = max(big.get(g, 0), np.max(np.abs(x)))
    # Bins of multipole sums without any real triangle hold rounding noise (weights and fields of
    # the catalogs are of order unity).
    floor = 1e-12
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.dtype.kind in 'fc':
            mon.close('%s: %s' % (what, k), y, x,
                      max(1e-9 * big.get(snap_group(k), 0), floor))
        else:
            mon.check(x is y or bool(np.all(x == y)), '%s: %s' % (what, k), got=y, want=x)


def reject_call3(treecorr, q, mon, c):
    letters = q.choice(['NNN', 'KKK', 'GGG'])
    cls = getattr(treecorr, letters + 'Correlation')
    bt = q.choice(['LogRUV', 'LogSAS', 'LogMultipole'])
    flat = treecorr.Catalog(**cat_kwargs(q, 15, 'flat'))
    sky = treecorr.Catalog(**cat_kwargs(q, 10, 'spherical'))
    cube = treecorr.Catalog(**cat_kwargs(q, 10, '3d'))
    bare = treecorr.Catalog(x=np.arange(5.), y=np.arange(5.) ** 2)
    five = treecorr.Catalog(npatch=5, **cat_kwargs(q, 30, 'flat'))
    four = treecorr.Catalog(npatch=4, **cat_kwargs(q, 30, 'flat'))
    kw = dict(min_sep=1., max_sep=20., nbins=2, bin_type=bt)
    kw.update(dict(LogRUV=dict(nubins=2, nvbins=2), LogSAS=dict(nphi_bins=3),
                   LogMultipole=dict(max_n=2))[bt])
    corr = cls(**kw)
    algo = 'triangle' if bt != 'LogMultipole' else 'multipole'
    corr.process(flat, algo=algo)
    ref = snap_corr(corr)
    other = cls(**dict(kw, nbins=3))
    othert = cls(**dict(kw, **dict(LogRUV=dict(nubins=3), LogSAS=dict(nphi_bins=2),
                                   LogMultipole=dict(max_n=3))[bt]))
    bts = [x for x in ('LogRUV', 'LogSAS') if x != bt]
    otherb = cls(min_sep=1., max_sep=20., nbins=2, bin_type=bts[0])
    diff = treecorr.KKKCorrelation if letters != 'KKK' else treecorr.GGGCorrelation
    diffc = diff(**kw)

    def iadd(x, y):
        x += y
    open('afile', 'w').close()
    calls = [('+= other nbins', lambda: iadd(corr, other)), ('+= other axis', lambda: iadd(corr, othert)),
             ('+= other bin_type', lambda: iadd(corr, otherb)),
             ('+= other class', lambda: iadd(corr, diffc)), ('+= number', lambda: iadd(corr, 3))]
    # differing in any one parameter of the binning
    one = [dict(min_sep=1.1), dict(max_sep=19.)]
    one += dict(LogRUV=[dict(min_u=0.1), dict(max_u=0.9), dict(min_v=0.1), dict(max_v=0.9),
                        dict(nubins=5), dict(nvbins=5)],
                LogSAS=[dict(min_phi=0.1), dict(max_phi=3.), dict(nphi_bins=4)],
                LogMultipole=[dict(max_n=1)])[bt]
    for d in one:
        kw1 = dict(kw, **d)
        # The objects to be added are of the same shape except where that is the difference.
        x = cls(**kw1)
        if q.random() < 0.5:
            x.process(flat, algo=algo)
        calls.append(('+= other %s' % list(d)[0], lambda x=x: iadd(corr, x)))
    calls += [('estimate_cov unknown', lambda: corr.estimate_cov('guess')),
             ('design shot', lambda: corr.build_cov_design_matrix('shot')),
             ('write unwritable', lambda: corr.write('afile/out.dat')),
             ('read missing', lambda: corr.read('/nonexistent/out.fits'))]
    if letters != 'NNN':
        calls += [('cov %s without patches' % m, lambda m=m: corr.estimate_cov(m))
                  for m in ('jackknife', 'sample', 'bootstrap', 'marked_bootstrap')]
    else:
        calls += [('cov before calculateZeta', lambda: corr.estimate_cov('jackknife')),
                  ('calculateZeta empty', lambda: corr.calculateZeta(rrr=cls(**kw))),
                  ('calculateZeta rdd only', lambda: corr.calculateZeta(rrr=corr, rdd=corr))]
        if bt == 'LogMultipole':
            calls += [('calculateZeta multipole', lambda: corr.calculateZeta(rrr=corr))]
    if bt != 'LogMultipole':
        calls += [('toSAS', lambda: corr.toSAS())]
    else:
        calls += [('toSAS sep', lambda: corr.toSAS(min_sep=2.)),
                  ('toSAS target', lambda: corr.toSAS(target=3))]
    for what, fn in calls:
        any_exc(mon, '3pt %s' % what, fn)
        same(mon, '%s %s after %s' % (letters, bt, what), ref, snap_corr(corr))
    cats = [(nm, o, snap_cat(o)) for nm, o in (('flat', flat), ('sky', sky), ('cube', cube),
                                               ('bare', bare), ('five', five))]
    proc = [('Arc flat', (flat,), dict(metric='Arc')), ('Rperp', (cube,), dict(metric='Rperp')),
            ('Periodic no period', (flat,), dict(metric='Periodic')),
            ('mixed', (flat, sky), {}), ('mixed3', (flat, flat, cube), {}),
            ('cat3 without cat2', (flat, None, flat), {}), ('algo', (flat,), dict(algo='fast')),
            ('patch_method', (flat,), dict(patch_method='half', algo=algo)),
            ('different patches', (five, four), dict(algo=algo)), ('None', (None,), {}),
            ('unknown keyword', (flat,), dict(metrics=3))]
    if bt == 'LogRUV':
        proc.append(('multipole RUV', (flat,), dict(algo='multipole')))
    if bt == 'LogMultipole':
        proc.append(('global multipole', (flat,), dict(patch_method='global')))
    if letters != 'NNN':
        proc.append(('missing field', (bare,), dict(algo=algo)))
    for what, ar, pk in proc:
        any_exc(mon, '3pt process: ' + what, lambda: cls(**kw).process(*ar, **pk))
        any_exc(mon, '3pt reused: ' + what, lambda: corr.process(*ar, **pk))
    corr.process(flat, algo=algo)
    again = snap_corr(corr)
    close_snap(mon, letters + ' process after rejected calls', ref, again)
    for nm, o, s in cats:
        same(mon, 'catalog %s after rejected calls' % nm, s, snap_cat(o))


def reject_file(treecorr, q, mon, c):
    import os
    n = q.choice([5, 12])
    cat = treecorr.Catalog(**cat_kwargs(q, n, 'flat'))
    for ext in ('fits', 'hdf5', 'dat'):
        f = 'rej.%s' % ext
        cat.write(f)
        base = dict(file_name=f, x_col='x', y_col='y')
        if ext == 'dat':
            base['delimiter'] = None
        bad = [('missing col', dict(base, x_col='nope')), ('no y', {k: v for k, v in base.items() if k != 'y_col'}),
               ('no pos', dict(file_name=f)), ('g2 only', dict(base, g2_col='g2')),
               ('g1 only', dict(base, g1_col='g1')), ('v2 only', dict(base, v2_col='v2')),
               ('z2 only', dict(base, z2_col='z2')), ('z1 only', dict(base, z1_col='z1')),
               ('t2 only', dict(base, t2_col='t2')), ('q2 only', dict(base, q2_col='q2')),
               ('ra with x', dict(base, ra_col='x', dec_col='y', ra_units='deg', dec_units='deg')),
               ('missing w', dict(base, w_col='nope')), ('missing flag', dict(base, flag_col='nope')),
               ('missing k', dict(base, k_col='nope')), ('missing patch', dict(base, patch_col='nope')),
               ('bad eval', dict(base, k_eval='nope * 2')),
               ('unknown keyword', dict(base, xcol='x'))]
        if ext != 'dat':
            bad += [('ext', dict(base, ext='nope'))]
        for what, kw in bad:
            any_exc(mon, '%s: %s' % (ext, what), lambda: treecorr.Catalog(**kw).ntot)
        ok = treecorr.Catalog(**base)
        mon.close('file still good', ok.x, cat.x, 0, 1e-6)
        mon.count('states_compared')
    for f, cls in (('rej.fits', treecorr.NNCorrelation), ('rej.hdf5', treecorr.GGCorrelation)):
        any_exc(mon, 'from_file of a catalog', lambda: cls.from_file(f))
