"""Precipitation: nothing created, nothing lost, nothing negative."""
import numpy as np

from mc import ref
from mc.lib import (DIVISORS, cell, debruijn, product, record, run_compare,
                    text, CORE_STEPS)

LEVEL = 'model_checking'
RULE = ('state = (time step, precipitation type, UTC flag, period labelling, '
        'storm parameters, longitude, window of day types); every step of '
        'every state is compared with the disaggregation model and every '
        'local day with its daily total')
ASSUMPTIONS = ['storm peaks are in [0, 1440) and durations positive, whole '
               'minutes or not', 'daily precipitation is finite and >= 0']
MINIMUM = {'quick': 500, 'thorough': 1500}

P = [0.0, 0.004, 0.3, 251.0]
T = [(-5.0, 3.0), (0.0, 6.0), (-1e-9, 4.0), (3.0, 14.0)]
TYPES = [{'prec': p, 't_min': a, 't_max': b} for p in P for a, b in T]
STORMS = [(0, 60), (1.25, 2.5), (5, 720), (719.5, .5), (720, 1440),
          (901.4, 61.3), (1439, 240), (1300, 700.75), (333, 33), (60, 1440),
          (1439.5, 2), (1000, 1)]
OFFS = [-179.9, -100.3, -0.26, 0.0, 7.6, 123.0, 180.0, 201.0]


def cells(n_lon, tier):
    res = []
    k = 2
    seq = debruijn(len(TYPES), k)
    for j, lon in enumerate(OFFS[:n_lon] if n_lon else OFFS):
        # months see every storm in turn
        rot = STORMS[j % 12:] + STORMS[:j % 12]
        f = record(seq[37 * j:] + seq[:37 * j], TYPES)
        res.append(cell(len(seq), lat=35.0, lon=lon, forcing=f,
                        t_pk=[a for a, b in rot], dur=[b for a, b in rot]))
    return res


def items(tier):
    steps = DIVISORS if tier == 'thorough' else DIVISORS[::1]
    res = []
    for c in product(ts=steps, prec_type=['uniform', 'triangle', 'mix']):
        for utc, pe in ((False, False), (True, False), (True, True)):
            # quick: of the other steps, one labelling each for UTC
            if tier == 'quick' and c['ts'] not in CORE_STEPS and utc and \
                    pe != bool(DIVISORS.index(c['ts']) % 2):
                continue
            res.append(dict(c, utc=utc, pe=pe, start='1951-12-28'))
    if tier == 'thorough':
        res += [dict(x, start='1952-06-11') for x in res]
    return res


def evaluate(it, r):
    ts = it['ts']
    cs = cells(0, 'quick')

    def inv(c, got, o, p, dates):
        x = got['prec']
        if not np.isfinite(x).all() or x.min() < 0:
            yield 'precipitation missing or negative: %r' % float(x.min())
        tot = c['forcing']['prec']
        if abs(x.sum() - tot.sum()) > 1e-6 * tot.sum():
            yield 'record total %r, input %r' % (float(x.sum()), tot.sum())
        off = ref.offset_minutes(c['lon']) if p['utc_offset'] else 0
        if off % ts == 0:
            y = np.roll(x, off // ts).reshape(len(tot), -1).sum(axis=1)
            bad = np.nonzero(np.abs(y - tot) > 1e-6 * tot + 1e-9)[0]
            if len(bad):
                yield 'local day %d: sum %r, daily total %r' % (
                    bad[0], float(y[bad[0]]), tot[bad[0]])
            if p['prec_type'] == 'uniform':
                z = np.roll(x, off // ts).reshape(len(tot), -1)
                if np.ptp(z, axis=1).max() > 1e-9 * (1 + tot.max()):
                    yield 'uniform precipitation is not uniform'

    run_compare(r, cs, ['prec'], text(it), start=it['start'], inv=inv,
                time_step=ts, prec_type=it['prec_type'],
                utc_offset=it['utc'], period_ending=it['pe'],
                out_vars=['prec'])
    for c in cs:
        f = c['forcing']
        for i in range(len(f['prec']) - 1):
            r.state(it['ts'], it['prec_type'], it['utc'], it['pe'],
                    c['lon'], f['prec'][i], f['t_min'][i], f['prec'][i + 1],
                    f['t_min'][i + 1])
    r.show({'item': it, 'lons': OFFS, 'days': len(cs[0]['forcing']['prec'])})
