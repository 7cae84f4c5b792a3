"""Longwave: the chosen emissivity and cloud parameterizations, exactly."""
import numpy as np

from mc import ref
from mc.lib import (CORE_STEPS, LATS, LONS, cell, debruijn, first_bad,
                    record, run_compare, text)

LEVEL = 'model_checking'
RULE = ('state = (emissivity option, cloud option and their capitalization, '
        'time step, method, given daily longwave, UTC flag, site, pair of day '
        'types); every step is compared with the published formula applied to '
        'the temperature, vapour pressure and cloud of the same step')
ASSUMPTIONS = ['formulas and coefficients as in Bohn et al. (2013)']
MINIMUM = {'quick': 500, 'thorough': 1000}
PAIRS = [(-55.0, -40.0), (-8.0, 1.0), (0.0, 0.0), (4.0, 22.0), (24.0, 44.0)]
TYPES = [{'prec': p, 't_min': a, 't_max': b}
         for a, b in PAIRS for p in (0.0, 7.0)]
LW = ['default', 'tva', 'anderson', 'brutsaert', 'satterlund', 'idso',
      'prata']
CLOUD = ['default', 'cloud_deardorff']
CASES = [str.lower, str.upper, str.title]


def items(tier):
    res = []
    for lw in LW:
        for cl in CLOUD:
            for k, ts in enumerate([60, 30, 180, 360] if tier == 'quick'
                                   else CORE_STEPS[1:]):
                for method, lwin in (('mtclim', False), ('passthrough', False),
                                     ('passthrough', True)):
                    for utc in ((False, True) if tier != 'quick' or k < 2
                                else (bool((LW.index(lw) + lwin + k) % 2),)):
                        f = CASES[(k + LW.index(lw)) % 3]
                        res.append(dict(lw=f(lw), cloud=CASES[k % 3](cl),
                                        ts=ts, method=method, lwin=lwin,
                                        utc=utc, start='1952-02-20'))
    return res


def evaluate(it, r):
    seq = debruijn(len(TYPES), 2)
    n = len(seq)
    cs = []
    for i, (lat, lon) in list(enumerate(zip(LATS, LONS)))[:5]:
        f = record(seq, TYPES)
        # from the coldest to the hottest places
        for v in ('t_min', 't_max'):
            f[v] = f[v] + (0., -60., 0., 12., -30.)[i]
        k = np.arange(n)
        if it['method'] == 'passthrough':
            f['shortwave'] = 150. + 100. * np.sin(k)
            if i % 2:
                f['tskc'] = 0.5 + 0.5 * np.sin(0.7 * k + i)
        if it['lwin']:
            f['longwave'] = 250. + 90. * np.cos(1.1 * k + i)
        cs.append(cell(n, lat=lat, lon=lon, elev=300. * i, forcing=f))
    # all cells of a run must have the same forcing variables
    if it['method'] == 'passthrough':
        tk = any('tskc' in c['forcing'] for c in cs)
        for c in cs:
            if tk and 'tskc' not in c['forcing']:
                c['forcing']['tskc'] = np.zeros(n) + 0.2

    def inv(c, got, o, p, dates):
        lw = got['longwave']
        if not np.isfinite(lw).all() or lw.min() <= 0:
            yield 'longwave missing or not positive'
        daily = c['forcing'].get('longwave')
        e = first_bad(lw, ref.longwave(
            got['temp'], got['vapor_pressure'], got['tskc'], p, daily,
            it['ts'], c['lon']), 1e-8, 1e-8)
        if e:
            yield 'differs from the parameterization %s' % e
        if daily is not None:
            m = ref.local_days(lw, it['ts'], p, c['lon'])
            # a step may belong to two local days
            if not p['utc_offset'] or \
                    ref.offset_minutes(c['lon']) % it['ts'] == 0:
                if np.abs(m - daily).max() > 1e-6 * daily.max():
                    yield 'daily mean of longwave is not the given one'
        if got['tskc'].min() < 0 or got['tskc'].max() > 1:
            yield 'cloud fraction outside of [0, 1]'

    run_compare(r, cs, ['longwave'], text(it), start=it['start'], inv=inv,
                time_step=it['ts'], utc_offset=it['utc'],
                method=it['method'], lw_type=it['lw'], lw_cloud=it['cloud'],
                out_vars=['longwave', 'temp', 'vapor_pressure', 'tskc'])
    for c in cs:
        for i in range(n - 1):
            r.state(text(it), c['lat'], c['lon'], seq[i], seq[i + 1])
    r.show(dict(it, days=n))
