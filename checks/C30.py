"""Wind and cloud cover are constant through each local day."""
import numpy as np

from mc import ref
from mc.lib import (DIVISORS, CORE_STEPS, LATS, cell, debruijn, record,
                    run_compare, text)

LEVEL = 'model_checking'
RULE = ('state = (time step, method, UTC flag, longitude, pair of day types); '
        'at every step the value is that of the local day, or the mean of two '
        'days in the one step that a shifted midnight falls in')
ASSUMPTIONS = []
MINIMUM = {'quick': 500, 'thorough': 1000}
TYPES = [{'prec': p, 't_min': a, 't_max': b, 'wind': w} for p, a, b, w in
         ((0., -3., 9., 0.), (5., 4., 6., 2.5), (0., 10., 30., 31.),
          (30., -9., -8., .125), (0.1, 0., 0., 4.))]
LONS = [-179.9, -100.3, -0.26, 0., 7.6, 97.5, 180., 201., 359.]


def items(tier):
    return [dict(ts=ts, method=m, utc=u, start='1952-02-20', cloud=c,
                 given=g)
            for ts in DIVISORS for u in (False, True)
            for m, g in (('mtclim', False), ('passthrough', False),
                         ('passthrough', True))
            for c in ('default', 'cloud_deardorff')
            if tier == 'thorough' or ts in CORE_STEPS or
            (DIVISORS.index(ts) + g + (m == 'mtclim')) % 2 == (
                (c == 'default') ^ u)]


def evaluate(it, r):
    seq = debruijn(len(TYPES), 2)
    n = len(seq)
    cs = []
    for i, lon in enumerate(LONS):
        f = record(seq[i:] + seq[:i], TYPES)
        k = np.arange(n)
        if it['method'] == 'passthrough':
            f['shortwave'] = 150. + 100. * np.sin(k)
        if it['given']:
            f['tskc'] = 0.5 + 0.5 * np.sin(0.7 * k + i)
        cs.append(cell(n, lat=LATS[i], lon=lon, forcing=f))

    def inv(c, got, o, p, dates):
        w = got['wind']
        if w.min() < c['forcing']['wind'].min() - 1e-9 or \
                w.max() > c['forcing']['wind'].max() + 1e-9:
            yield 'wind outside of its daily values'
        if abs(w.mean() - c['forcing']['wind'].mean()) > 1e-9:
            yield 'mean wind changed'
        off = ref.offset_minutes(c['lon']) if p['utc_offset'] else 0
        if off % it['ts'] == 0:
            for v in ('wind', 'tskc'):
                y = np.roll(got[v], off // it['ts']).reshape(n, -1)
                if np.ptp(y, axis=1).max() > 1e-9:
                    yield '%s varies within a local day' % v

    run_compare(r, cs, ['wind', 'tskc'], text(it), start=it['start'], inv=inv,
                time_step=it['ts'], utc_offset=it['utc'],
                method=it['method'], lw_cloud=it['cloud'],
                out_vars=['wind', 'tskc'])
    for c in cs:
        for i in range(n - 1):
            r.state(text(it), c['lon'], i)
    r.show(dict(it, days=n))
