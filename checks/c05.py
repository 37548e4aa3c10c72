"""C05: LogMultipole sums against brute force, and their resummation to LogSAS."""
import numpy as np
from vlib import gen
from vlib.mon import Mon
from oracle import pairs as P
from oracle import tri as T
from checks import three

RULE = ('Random small catalogs as in C04 with LogMultipole binning (max_n 0..7), auto / two / three '
        'catalogs, ordered or not; every (d2,d3,n) compared with the enumerated sum. LogSAS runs '
        'with algo=multipole (or the default) compared with the explicit LogMultipole run followed '
        'by toSAS and with the documented resummation of the enumerated multipoles. '
        'Non-trivial: triangles counted and the configuration signature is distinct.')
ASSUMPTIONS = ['triples with a side within 1e-10 of a bin edge may fall on either side',
               'angle_slop=0 for n != 0; with the default angle_slop only ntri and the n=0 weight',
               'in 3-d the angle phi of the multipoles is the one seen from the origin (as '
               'implemented for projections)']
MIN_EVENTS = dict(triangles_accounted=20000, field_bins_compared=2000, resummed_bins=2000)


def cases(tier, seed):
    q = gen.prng('C05', seed)
    out = []
    for i in range(4000 if tier == 'quick' else 60000):
        kind = q.choice(['direct', 'direct', 'sas'])
        sizes = (3, 4, 6, 10, 16) if i % 15 else (20, 26)
        c = three.case(q, kind, ['LogMultipole'], sizes)
        c['angle_slop'] = q.choice([0., 0., 0., None])
        c['max_n'] = q.choice([0, 1, 2, 3, 5, 7])
        if kind == 'sas':
            c['angle_slop'] = 0.
            c['max_n'] = q.choice([1, 2, 3, 5, 7])
            c['algo'] = q.choice(['multipole', None])
            c['max_n_how'] = q.choice(['kwarg', 'config', 'default'])
            c['target'] = q.random() < 0.5
        out.append(c)
    return out


def run(c, mon):
    import treecorr
    if c['tag'] == 'direct':
        direct(treecorr, c, mon)
    else:
        sas(treecorr, c, mon)


def attempt(c, mon, f):
    """Run f(mon, wrapproj, coloc).  If it fails only in one of the known ways, note that."""
    n = len(mon.fails)
    if f(mon, True, False) and len(mon.fails) > n:
        # There are distinct objects at the same position.
        alt = Mon()
        f(alt, True, True)
        if not alt.fails:
            del mon.fails[n:]
            mon.finding('C05-coincident', 'LogMultipole counts some of the triangles whose points '
                        '2 and 3 are different objects at the same position, depending on how '
                        'the tree happens to group them')
    if (c['coords'] == 'flat' and c['metric'] == 'Periodic' and c['letters'] == 'GGG'
            and len(mon.fails) > n):
        for coloc in (False, True):
            alt = Mon()
            f(alt, False, coloc)
            if not alt.fails:
                del mon.fails[n:]
                mon.finding('C05-periodic-projection', 'GGGCorrelation LogMultipole with '
                            'metric=Periodic projects the shears at points 2 and 3 along the '
                            'unwrapped separation')
                break


def direct(treecorr, c, mon):
    Ds, bins, kw, period = three.resolve(c)
    kw['bin_slop'] = 0.
    exact = c['angle_slop'] == 0. or c['brute']
    if c['angle_slop'] is not None:
        kw['angle_slop'] = c['angle_slop']
    corr = three.run_corr(treecorr, c, Ds, kw, algo='multipole')
    res = [None]

    def compare(m, wrap, coloc):
        r = three.oracle(c, Ds, bins, period, wrapproj=wrap, coloc=coloc)
        res[0] = r
        if exact:
            three.compare(m, c, corr, bins, r)
        else:
            nt, nsl, _ = r['ntri']
            m.between('ntri', corr.ntri, nt * (1 - 1e-9), nt * (1 + 1e-9) + nsl)
            W, wsl, wmag = r['weight']
            m.close('weight n=0', corr.weightr[:, :, bins.max_n], W[:, :, bins.max_n].real,
                    wsl + 1e-11 * wmag[:, :, 0])
            m.count('triangles_accounted', r['_stats']['tri'])
        return r['_stats']['coincident'] > 0
    attempt(c, mon, compare)
    # Hermitian symmetry of the sums that are real: exchanging P2 and P3
    if c['letters'] != 'GGG' and (c['ncat'] < 3 or not c['ordered']) and exact:
        mon.close('weight(d3,d2,-n)', corr.weight, np.transpose(corr.weight, (1, 0, 2))[:, :, ::-1],
                  1e-9 * (1 + np.max(np.abs(corr.weight))))
    mon.cover('max_n', bins.max_n)
    three.cover(mon, c, res[0])


def sas_spec(c, kw, unit_phi):
    s = dict(kw)
    s['bin_type'] = 'LogSAS'
    del s['max_n']
    lo, hi = [v * np.pi for v in c['prange']]
    s['nphi_bins'] = c['nphi']
    if c['prange'][0] > 0:
        s['min_phi'] = lo / unit_phi
    if c['prange'][1] < 1:
        s['max_phi'] = hi / unit_phi
    if c['phi_units']:
        s['phi_units'] = c['phi_units']
    return s, lo, hi


def sas(treecorr, c, mon):
    Ds, bins, kw, period = three.resolve(c)
    kw['bin_slop'] = 0.
    kw['angle_slop'] = 0.
    up = P.ANGLE[c['phi_units']] if c['phi_units'] else 1.
    skw, lo, hi = sas_spec(c, kw, up)
    dphi = (hi - lo) / c['nphi']
    max_n = c['max_n']
    if c['max_n_how'] == 'default':
        max_n = int(2 * np.pi / dphi)
        # only when 2pi/phi_bin_size is not within rounding of an integer is this well defined
        if abs(2 * np.pi / dphi - round(2 * np.pi / dphi)) < 1e-9 and max_n > 0:
            max_n = None
        elif max_n > 12:
            max_n = c['max_n']
            c = dict(c, max_n_how='kwarg')
    cls = getattr(treecorr, c['letters'] + 'Correlation')
    pkw = {}
    if c['max_n_how'] == 'config':
        skw['max_n'] = max_n
    elif c['max_n_how'] == 'kwarg':
        pkw['max_n'] = max_n
    corr = cls(**skw)
    cats = [D.catalog(treecorr) for D in Ds]
    args = dict(metric=c['metric'], algo=c['algo'], **pkw)
    if len(cats) > 1:
        args['ordered'] = c['ordered']
    corr.process(*cats, **args)

    cand = [max_n] if max_n is not None else [int(round(2 * np.pi / dphi)),
                                             int(round(2 * np.pi / dphi)) - 1]
    done = None
    for mn in cand:
        if mn < 1:
            continue
        mkw = dict(kw, max_n=mn)
        mp = cls(**mkw)
        args2 = dict(metric=c['metric'])
        if len(cats) > 1:
            args2['ordered'] = c['ordered']
        mp.process(*cats, **args2)
        if c['target']:
            tkw = dict(skw)
            tkw.pop('max_n', None)
            sas2 = mp.toSAS(target=cls(**tkw))
        else:
            sas2 = mp.toSAS(**{k: skw[k] for k in ('min_phi', 'max_phi', 'phi_units', 'nphi_bins')
                               if k in skw})
        alt = Mon()
        same(alt, c, corr, sas2, 1e-12 * np.max([np.sum(np.abs(x.w)) for x in cats]) ** 3)
        if done is None or not alt.fails:
            done = (alt, mn, mp, sas2)
        if not alt.fails:
            break
    alt, mn, mp, sas2 = done
    mon.fails.extend(alt.fails)
    mon.count('toSAS_runs_compared')

    def resum(m, wrap, coloc):
        b = T.Bins3('LogMultipole', **dict(min_sep=bins.min_sep, max_sep=bins.max_sep,
                                           nbins=bins.nbins, unit=bins.unit, max_n=mn))
        res = three.oracle(dict(c, bin_type='LogMultipole'), Ds, b, period, wrapproj=wrap,
                           coloc=coloc)
        m.count('triangles_accounted', res['_stats']['tri'])
        if res['weight'][1] > 0 or np.any(res['ntri'][1] > 0):
            return False
        check_resum(m, c, corr, b, res, lo, hi, up)
        return res['_stats']['coincident'] > 0
    attempt(c, mon, resum)
    mon.cover('max_n_how', c['max_n_how'])
    mon.cover('letters', c['letters'])
    mon.cover('coords', c['coords'])
    if np.any(corr.ntri != 0):
        mon.nontrivial(('sas', c['letters'], c['coords'], c['metric'], c['ncat'], c['ordered'],
                        mn, c['nphi'], c['prange']))


NAMES = ['ntri', 'weight', 'meand1', 'meanlogd1', 'meand2', 'meanlogd2', 'meand3', 'meanlogd3',
         'meanphi']
FIELDS = dict(NNN=[], KKK=['zeta', 'varzeta'],
              GGG=['gam0', 'gam1', 'gam2', 'gam3', 'vargam0', 'vargam1', 'vargam2', 'vargam3'])


def same(m, c, a, b, floor):
    fin = np.isfinite(b.meanlogd1)
    for k in NAMES + FIELDS[c['letters']]:
        x, y = getattr(a, k), getattr(b, k)
        if k == 'meanlogd1':
            x, y = x[fin], y[fin]
        sc = 1e-9
        if k in FIELDS[c['letters']]:
            # W from a resummation can be as small as rounding
            big = np.abs(b.weight) > max(1e-6 * np.max(np.abs(b.weight), initial=0), floor)
            x, y = x[big], y[big]
        m.close('toSAS ' + k, x, y, sc * (1e-30 + np.max(np.abs(y), initial=0)), rtol=1e-9)
    m.equal('toSAS tot', getattr(a, 'tot', 0), getattr(b, 'tot', 0))


def check_resum(m, c, corr, b, res, lo, hi, up):
    """The documented resummation: N(phi) = 1/2pi sum_n N_n exp(i n phi), per phi bin."""
    nphi = c['nphi']
    dphi = (hi - lo) / nphi
    phi = lo + (np.arange(nphi) + 0.5) * dphi
    n1 = np.arange(-b.max_n, b.max_n + 1)
    E = np.exp(1j * n1[:, None] * phi)
    f = dphi / (2 * np.pi)
    W, _, wmag = res['weight']
    w = (W.dot(E)).real * f
    wt = 1e-9 * wmag[:, :, :1] * len(n1) * f
    m.close('resummed weight', corr.weight, w, wt + 1e-300)
    m.count('resummed_bins', w.size)
    nt = res['ntri'][0][:, :, 0]
    den = np.sum(w, axis=2)
    safe = np.abs(den) > 1e-6 * wmag[:, :, 0]
    want = w[safe] * (nt[safe] / den[safe] * (hi - lo) / (2 * np.pi))[:, None]
    m.close('resummed ntri', corr.ntri[safe], want, 1e-5 * (1 + np.abs(want)) *
            (1 + (wmag[:, :, 0][safe] / np.abs(den[safe]))[:, None] * 1e-3))
    m.close('resummed meanphi', corr.meanphi, phi / up + np.zeros(w.shape), 1e-9 / up)
    ok, mm = three.means(b, res, dict(c, bin_type='LogMultipole'))
    ok = ok[:, :, 0]
    d2, d3 = mm['d2'][:, :, 0][ok], mm['d3'][:, :, 0][ok]
    rt = 1e-5 if c['coords'] == 'spherical' and c['metric'] == 'Euclidean' else 1e-8
    pos = 1e-12 * three.corr_scale(c) / b.unit
    m.close('resummed meand2', corr.meand2[ok], d2[:, None] + 0 * phi, pos, rtol=rt)
    m.close('resummed meand3', corr.meand3[ok], d3[:, None] + 0 * phi, pos, rtol=rt)
    d1 = np.sqrt(np.maximum(d2[:, None] ** 2 + d3[:, None] ** 2
                            - 2 * (d2 * d3)[:, None] * np.cos(phi), 0))
    m.close('resummed meand1', corr.meand1[ok], d1, 1e-7 * (d2 + d3)[:, None] + pos, rtol=rt)
    big = np.abs(w) > 1e-3 * wmag[:, :, :1] * f
    big &= ok[:, :, None]
    if c['letters'] == 'KKK':
        z, _, zm = res['zeta']
        v = z.dot(E).real * f
        m.close('resummed zeta', corr.zeta[big], v[big] / w[big],
                (1e-7 * zm[:, :, :1] * len(n1) * f / np.where(big, np.abs(w), 1))[big] + 1e-300)
        m.count('field_bins_compared', np.sum(big))
    elif c['letters'] == 'GGG':
        D2 = np.zeros(w.shape)
        D3 = np.zeros(w.shape)
        D2[ok] = d2[:, None]
        D3[ok] = d3[:, None]
        s = D2 + 0j
        t = D3 * np.exp(1j * phi)
        e = np.exp(1j * phi) + 0 * t
        cen = (s + t) / 3

        def un(z):
            return z / np.where(np.abs(z) > 0, np.abs(z), 1)
        ph = [un(1 + e) * np.conj(un(cen)), e * np.conj(un(cen - t)), np.conj(un(cen - s))]
        ph = [x * x for x in ph]
        good = big & (np.abs(1 + e) > 1e-6)
        for i in range(3):
            p = cen - [0, t, s][i]
            good &= np.abs(p) > 1e-6 * (D2 + D3)
        for k in range(4):
            g, _, gm = res['gam%d' % k]
            phase = 1.
            for i in range(3):
                phase = phase * (np.conj(ph[i]) if k == i + 1 else ph[i])
            v = g.dot(E) * f * phase
            tol = (3e-7 if rt < 1e-6 else 1e-4) * gm[:, :, :1] * len(n1) * f
            m.close('resummed gam%d' % k, getattr(corr, 'gam%d' % k)[good], v[good] / w[good],
                    (tol / np.where(big, np.abs(w), 1))[good] + 1e-300)
        m.count('field_bins_compared', np.sum(good))
