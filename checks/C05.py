"""Time axis: every step of the period exactly once, and no value missing."""
import datetime

import numpy as np
import pandas as pd

from mc import world
from mc.lib import (DIVISORS, World, cell, expected_times, run_ok, text,
                    tmpdir)

LEVEL = 'model_checking'
RULE = ('state = (time step, period labelling, first day, number of days, how '
        'start and stop are given, method); every time stamp and every value '
        'of every variable of the run is examined')
ASSUMPTIONS = ['standard calendar here; others in C25']
MINIMUM = {'quick': 300, 'thorough': 1500}
STARTS = ['1951-12-30', '1952-02-27', '1951-02-27', '2000-02-28',
          '1999-12-31', '1900-02-27', '2023-10-28', '1950-01-01']
HOW = ['slash', 'iso', 'datetime', 'date', 'timestamp', 'forcing']


def items(tier):
    res = []
    for ts in DIVISORS + [1440]:
        for pe in (False, True):
            cs = []
            for i, s in enumerate(STARTS):
                for n in ((1, 3) if tier == 'quick' else (1, 2, 3, 5)):
                    if tier == 'quick':
                        if (i + ts + n) % 4 > (1 if ts in (60, 180, 1440)
                                               else 0):
                            continue
                        hows = [HOW[(i + n + ts // 3) % len(HOW)]]
                    else:
                        hows = HOW if ts in (60, 1440) else HOW[
                            (i + n) % 2::2]
                    cs += [(s, n, h) for h in hows]
            res.append(dict(ts=ts, pe=pe, cases=cs, late=False))
    for ts in (60, 180, 1440):
        res.append(dict(ts=ts, pe=True, cases=[
            (s, n, h) for s in STARTS[:3] for n in (2,) for h in HOW],
            late=True))
    return res


def give(t, how):
    t = pd.Timestamp(t)
    return {'slash': '%d/%02d/%d' % (t.year, t.month, t.day),
            'iso': t.strftime('%Y-%m-%d'),
            'datetime': t.to_pydatetime(), 'date': t.date(),
            'timestamp': t, 'forcing': 'forcing'}[how]


def evaluate(it, r):
    ts, pe = it['ts'], it['pe']
    for start, n, how in it['cases']:
        cs = [cell(n, seed=3, lat=-35., lon=150., elev=20.),
              cell(n, seed=4, lat=70., lon=-150., elev=900.)]
        w = World(cs, start=start)
        tag = 'ts=%d,pe=%s,%s' % (ts, pe, how)
        with tmpdir() as d:
            w.write(d)
            if it['late']:
                # records stamped at another time of the day
                import xarray as xr
                for f, h in (('forcing', 12), ('state', 18)):
                    ds = xr.open_dataset('%s/%s.nc' % (d, f)).load()
                    ds.close()
                    ds['time'] = ds.indexes['time'] + pd.Timedelta(hours=h)
                    ds.to_netcdf('%s/%s.nc' % (d, f), mode='w')
                tag += ',late'
            p = w.params(d, time_step=ts, period_ending=pe,
                         utc_offset=bool(n % 2))
            p['start'], p['stop'] = give(w.start, how), give(w.stop, how)
            r.state(ts, pe, start, n, how, it['late'])
            ds = run_ok(r, tag, world.run, p)
            if ds is None:
                continue
            r.trace()
            enc = ds['time'].encoding.get('calendar')
        want = expected_times(start, n, ts, pe)
        got = pd.DatetimeIndex(ds['time'].values)
        r.trans(len(want))
        if len(got) != len(want) or not (got == want).all():
            r.fail(tag + ':times', 'start %s, %d days: %d steps %s..%s, '
                   'expected %d steps %s..%s' % (
                       start, n, len(got), got[:1], got[-1:], len(want),
                       want[0], want[-1]))
            continue
        if enc not in ('standard', 'gregorian', 'proleptic_gregorian'):
            r.fail(tag + ':calendar', 'calendar attribute %r' % enc)
        for v in ds.data_vars:
            x = ds[v].values
            r.trans(x.size)
            if not np.isfinite(x).all():
                i = np.argwhere(~np.isfinite(x))[0]
                r.fail('%s:%s:missing' % (tag, v), 'start %s, %d days: %s is '
                       '%r at %s' % (start, n, v, x[tuple(i)], got[i[0]]))
        r.outcome(len(got), str(got[0]), str(got[-1]))
    r.show(it)
