"""C04: three-point accounting and values (LogRUV, LogSAS) against brute force, no slop."""
from vlib import gen
from vlib.mon import Mon
from checks import three

RULE = ('Random small catalogs (flat, sky, 3-d; clusters, duplicates, widely varying scales, poles), '
        'auto / two / three catalogs, ordered or not, LogRUV and LogSAS binning with random '
        'sub-ranges of u, v, phi, every split method, brute or bin_slop=0; all triangles enumerated '
        'independently. Non-trivial: triangles counted and the configuration signature is distinct.')
ASSUMPTIONS = ['triangles within 1e-10 of a bin edge, with two equal sides where order matters, or '
               'degenerate (zero side or area) may fall on either side',
               'angle_slop=0 for the field values and means']
MIN_EVENTS = dict(triangles_accounted=20000, field_bins_compared=2000)


def cases(tier, seed):
    q = gen.prng('C04', seed)
    out = []
    for i in range(3000 if tier == 'quick' else 40000):
        sizes = (3, 4, 6, 10, 16) if i % 15 else (20, 26)
        c = three.case(q, 'direct', ['LogRUV', 'LogSAS'], sizes)
        c['angle_slop'] = q.choice([0., 0., None])
        out.append(c)
    return out


def run(c, mon):
    import treecorr
    Ds, bins, kw, period = three.resolve(c)
    kw['bin_slop'] = 0.
    if c['angle_slop'] is not None:
        kw['angle_slop'] = c['angle_slop']
    corr = three.run_corr(treecorr, c, Ds, kw, algo='triangle')
    res = three.oracle(c, Ds, bins, period)
    n = len(mon.fails)
    three.compare(mon, c, corr, bins, res)
    if c['coords'] == 'flat' and c['metric'] == 'Periodic' and len(mon.fails) > n \
            and c['letters'] == 'GGG':
        # Known: projections of triangles that wrap around ignore the wrapping.
        # Anything that this does not fully explain is still a violation.
        alt = Mon()
        res2 = three.oracle(c, Ds, bins, period, wrapproj=False)
        if three.compare(alt, c, corr, bins, res2):
            del mon.fails[n:]
            mon.finding('C04-periodic-projection', 'GGGCorrelation with metric=Periodic projects '
                        'the shears of triangles that wrap around toward the unwrapped centroid')
    three.cover(mon, c, res)
