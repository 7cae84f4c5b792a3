"""Storms: the triangle of the month, uniform below freezing for mix."""
import numpy as np
import pandas as pd

from mc import world
from mc.lib import World, cell, run_ok, text, tmpdir

LEVEL = 'model_checking'
RULE = ('state = (precipitation type, year, month, day of the month, storm '
        'parameters, freezing or not); at one minute resolution the storm of '
        'every day of whole years has its peak, support and shape checked')
ASSUMPTIONS = ['storm peaks are in [0, 1440) and durations positive, whole '
               'minutes or not']
MINIMUM = {'quick': 2000, 'thorough': 5000}
# 12 storms per cell; every month sees every one over the cells
BASE = [(720, 300), (100, 120), (719, 1439), (1439, 240), (0, 60),
        (901.4, 61.3), (333, 33), (1200.5, 901), (500.5, 7), (650, 640),
        (60, 1000), (1100.25, .4)]


def items(tier):
    res = []
    for kind in ('triangle', 'mix', 'TRIANGLE', 'Mix'):
        for y in ((1951, 1952) if tier == 'quick' else (1951, 1952, 1999,
                                                        2000)):
            for rot in ((0, 5) if tier == 'quick' else range(12)):
                res.append(dict(kind=kind, year=y, rot=rot, start='01-01'))
    for rot in range(12):
        res.append(dict(kind='mix', year=1952, rot=rot, start='02-20', n=45))
        res.append(dict(kind='triangle', year=1951, rot=rot, start='12-20',
                        n=45))
        res.append(dict(kind=('Mix', 'TRIANGLE')[rot % 2], year=2000, rot=rot,
                        start='09-20', n=75))
    return res


def evaluate(it, r):
    start = pd.Timestamp('%d-%s' % (it['year'], it['start']))
    n = it.get('n') or (366 if it['year'] % 4 == 0 else 365)
    k = np.arange(n)
    # freezing, exactly at freezing, above: all within each month
    tmin = np.array([-4., 3., 0., -1e-6, 8., -20.])[k % 6]
    f = {'prec': np.array([3., 0.2, 0., 40., 1.5])[k % 5], 't_min': tmin,
         't_max': tmin + 7.}
    storm = BASE[it['rot']:] + BASE[:it['rot']]
    c = cell(n, lat=35., lon=0., forcing=f, t_pk=[a for a, b in storm],
             dur=[b for a, b in storm])
    tag = '%(kind)s,%(year)d,rot=%(rot)d' % it
    w = World([c], start=start)
    with tmpdir() as d:
        w.write(d)
        ds = run_ok(r, tag, world.run, w.params(
            d, time_step=1, prec_type=it['kind'], out_vars=['prec']))
    if ds is None:
        return
    x = ds['prec'].values[:, 0].reshape(n, 1440)
    m = np.arange(1440)
    nf = 0
    for i in range(n):
        date = start + pd.Timedelta(days=i)
        P, (pk, dur) = f['prec'][i], storm[date.month - 1]
        uni = it['kind'].lower() == 'mix' and tmin[i] < 0
        r.state(tag, i, uni)
        r.trans()
        y = x[i]
        if abs(y.sum() - P) > 1e-8 * (1 + P) or y.min() < 0:
            e = 'total %r instead of %r' % (y.sum(), P)
        elif P == 0:
            e = None
        elif uni:
            e = None if np.ptp(y) < 1e-9 * P else 'not uniform'
        else:
            e = None
            inside = np.abs(m - pk) <= dur / 2.
            if not inside.any():        # all within a minute
                inside[int(pk)] = True
            if y[~inside].max(initial=0) > 0:
                e = 'rain outside of the storm'
            elif y[int(pk)] < y.max() * (1 - 1e-12):
                e = 'peak at minute %d' % y.argmax()
            else:
                up, dn = y[inside & (m <= pk)], y[inside & (m >= pk)]
                if (np.diff(up) < -1e-12).any() or \
                        (np.diff(dn) > 1e-12).any():
                    e = 'not a single storm'
                # straight sides
                elif len(up) > 2 and np.ptp(np.diff(up)) > 1e-9 * P or \
                        len(dn) > 2 and np.ptp(np.diff(dn)) > 1e-9 * P:
                    e = 'sides of the triangle are not straight'
        if e and nf < 3:
            nf += 1
            r.fail('%s:%s' % (tag, date.date()), '%s (t_min %g, storm of the '
                   'month: peak %d, duration %d): %s' % (
                       date.date(), tmin[i], pk, dur, e))
    r.trace()
    r.outcome(tag)
    r.show(it)
