"""Results at different time steps agree with each other."""
import numpy as np

from mc import world
from mc.lib import (DIVISORS, World, cell, debruijn, first_bad, record,
                    run_ok, text, tmpdir)

LEVEL = 'model_checking'
RULE = ('state = (time step, option set); transitions = every pair of steps '
        'of which one divides the other: sums, means and period-end values of '
        'the finer run must be the coarser run')
ASSUMPTIONS = ['temperature and vapour pressure are those of the end of a '
               'step; vapour pressure is compared in the interior of the '
               'record, where it is interpolated']
MINIMUM = {'quick': 60, 'thorough': 200}
TYPES = [{'prec': p, 't_min': a, 't_max': b, 'wind': w} for p, a, b, w in
         ((0., -3., 9., 1.), (5., 4., 6., 2.5), (0., 10., 30., 9.),
          (30., -9., -8., 0.))]
OPTS = [dict(prec_type='uniform'), dict(prec_type='mix', utc_offset=True),
        dict(prec_type='triangle', period_ending=True),
        dict(method='passthrough'),
        dict(method='passthrough', sw_averaging='daylight', utc_offset=True,
             lw_type='idso', lw_cloud='default')]


def items(tier):
    starts = ['1952-02-24'] if tier == 'quick' else \
        ['1952-02-24', '1951-12-24', '2023-06-25']
    return [dict(opt=o, start=s, half=h) for o in OPTS for s in starts
            for h in range(4)]


def cells(o, half):
    seq = debruijn(len(TYPES), 2)
    n = len(seq)
    res = []
    for i, (lat, lon) in enumerate(((40., -100.), (-66.7, 17.3), (72., 180.),
                                    (0., 359.9))):
        if i != half:
            continue
        f = record(seq[i:] + seq[:i], TYPES)
        if o.get('method') == 'passthrough':
            f['shortwave'] = 180 + 170 * np.sin(1.3 * np.arange(n))
        res.append(cell(n, lat=lat, lon=lon, elev=120., forcing=f))
    return res


def evaluate(it, r):
    o = it['opt']
    cs = cells(o, it['half'])
    runs = {}
    w = World(cs, start=it['start'])
    n = w.nd
    with tmpdir() as d:
        w.write(d)
        for ts in DIVISORS + [1440]:
            p = w.params(d, out='%s/o%d' % (d, ts), time_step=ts, **o)
            ds = run_ok(r, 'ts=%d,%s' % (ts, text(o)), world.run, p)
            if ds is None:
                return
            runs[ts] = {v: np.asarray(ds[v].values, float)
                        for v in ds.data_vars}
            r.state(ts, text(o), it['start'], it['half'])
            r.trace()
            r.outcome(ts, np.round(runs[ts]['prec'][:3], 6).tolist())

    def bad(a, b, v, e):
        r.fail('%s:%d->%d:%s' % (text(o), a, b, v),
               '%s of the %d minute run does not follow from the %d minute '
               'run %s' % (v, b, a, e))

    for a in DIVISORS:
        for b in DIVISORS:
            if b <= a or b % a:
                continue
            k = b // a
            A, B = runs[a], runs[b]

            def blocks(v):
                return A[v].reshape((-1, k) + A[v].shape[1:])
            for v in ('prec',):
                e = first_bad(B[v], blocks(v).sum(axis=1), 1e-9, 1e-9)
                if e:
                    bad(a, b, v, e)
            for v in ('shortwave', 'wind', 'tskc'):
                e = first_bad(B[v], blocks(v).mean(axis=1), 1e-9, 1e-9)
                if e:
                    bad(a, b, v, e)
            e = first_bad(B['temp'], blocks('temp')[:, -1], 1e-9, 1e-7)
            if e:
                bad(a, b, 'temp', e)
            # interior: past the second and before the last day
            m = slice(2 * 1440 // b, (n - 2) * 1440 // b)
            for v in ('vapor_pressure', 'rel_humid', 'air_pressure',
                      'spec_humid', 'longwave'):
                x, y = B[v][m], blocks(v)[:, -1][m]
                if v == 'longwave':
                    # a step in which the (local) day changes has the mean
                    # of two days' cloud
                    c = blocks('tskc')[m]
                    same = np.ptp(c, axis=1) < 1e-12
                    x, y = np.where(same, x, 0), np.where(same, y, 0)
                e = first_bad(x, y, 1e-8, 1e-9)
                if e:
                    bad(a, b, v, e)
            r.trans(10 * len(B['prec']))
    # and the daily run
    if not o.get('utc_offset'):
        D = runs[1440]
        for a in DIVISORS:
            A = runs[a]
            day = {v: A[v].reshape((n, 1440 // a, -1)) for v in A}
            for v, x in (('prec', day['prec'].sum(axis=1)),
                         ('wind', day['wind'].mean(axis=1)),
                         ('tskc', day['tskc'].mean(axis=1))):
                e = first_bad(x, D[v], 1e-8, 1e-9)
                if e:
                    bad(a, 1440, v, e)
            e = first_bad(day['shortwave'].mean(axis=1), D['shortwave'],
                          1.2e-3, 1e-6)
            if e:
                bad(a, 1440, 'shortwave', e)
            r.trans(4 * n)
    r.show(it)
