"""Calendars: every day of the forcings' calendar exactly once, leap days only
where it has them, and the values of those days."""
import os

import cftime
import numpy as np
import pandas as pd
import xarray as xr

from mc import ref, world
from mc.lib import TOL, World, _actual_sun, cell, first_bad, run_ok, tmpdir
from mc.world import RunError

LEVEL = 'model_checking'
RULE = ('state = (calendar, how it is declared, format, first day, number of '
        'days, time step, labelling, splitting); the time axis is compared '
        'with the one counted in that calendar, every value with the '
        'reference model')
ASSUMPTIONS = [
    'in leap years of calendars without leap days, the day of the year may '
    'be counted with or without February 29',
    '360_day and all_leap have dates that the output index cannot hold']
MINIMUM = {'quick': 300, 'thorough': 2000}
PERIODS = [('1952-02-26', 5), ('1951-02-26', 5), ('1951-12-29', 5),
           ('1952-03-01', 3), ('1952-05-28', 4), ('1952-05-31', 2),
           ('1900-02-27', 3), ('2000-02-27', 4), ('1952-12-30', 4),
           ('1952-02-28', 1), ('1952-07-04', 2)]
NOLEAP = ['noleap', '365_day']
LEAP = ['standard', 'gregorian', 'proleptic_gregorian']
HOWS = ('declared', 'file', 'data', 'ascii', 'binary', 'cftime')


def items(tier):
    res = []
    for cal in NOLEAP + LEAP:
        for ts in ((180, 1440) if tier == 'quick' else
                   (30, 60, 180, 240, 360, 1440)):
            for pe in (False, True):
                cs = []
                for ip, per in enumerate(PERIODS):
                    for jf, freq in enumerate((None, 'D', 'MS', '6H')):
                        for ih, how in enumerate(HOWS):
                            # quick: each period with each way of declaring
                            # or with each frequency, not with all of both
                            if tier == 'quick' and how != 'declared' and (
                                    ip + 2 * jf + ih + pe) % 4:
                                continue
                            if tier == 'quick' and how == 'declared' and \
                                    freq and (ip + jf + pe) % 3:
                                continue
                            if how == 'ascii' and freq == '6H':
                                continue
                            if how == 'cftime' and cal in LEAP:
                                continue
                            cs.append([per[0], per[1], freq, how])
                for i in range(0, len(cs), 12):
                    res.append(dict(cal=cal, ts=ts, pe=pe,
                                    cases=cs[i:i + 12]))
    return res


def day(s, cal):
    return cftime.datetime(*map(int, s.split('-')), calendar=cal)


def axis(s, n, cal, minutes, first=0):
    """n steps of the given length, counted in the calendar."""
    u = 'minutes since ' + s
    return cftime.num2date(np.arange(first, first + n) * minutes, u, cal)


def stamp(t):
    return [(x.year, x.month, x.day, x.hour, x.minute, x.second)
            for x in t]


class Dates:
    def __init__(self, doy, month):
        self.dayofyear, self.month = doy, month


def evaluate(it, r):
    cal, ts, pe = it['cal'], it['ts'], it['pe']
    for start, n, freq, how in it['cases']:
        key = '%s:%s:%s:%d:%d:%s:%s' % (cal, how, start, n, ts, pe, freq)
        cs = [cell(n, seed=i, lat=(-35., 61.)[i], lon=(150., -30.)[i],
                   elev=20. + 800 * i) for i in range(2)]
        for c in cs:
            for v in c['forcing']:
                c['forcing'][v] = np.rint(c['forcing'][v] * 4) / 4
            c['forcing']['t_max'] = np.maximum(c['forcing']['t_max'],
                                               c['forcing']['t_min'] + 1)
        w = World(cs, kind='grid', shape=(2, 1), lats=[-35., 61.],
                  lons=[150.], start=start)
        days = axis(start, n, cal, 1440)
        with tmpdir() as d:
            w.write(d)
            f, s = w.forcing(), w.state()
            f['time'] = xr.CFTimeIndex(days)
            s['time'] = xr.CFTimeIndex(axis(start, 90, cal, 1440, -90))
            if cal in LEAP:
                f['time'] = f.indexes['time'].to_datetimeindex()
                s['time'] = s.indexes['time'].to_datetimeindex()
            for name, ds in (('forcing', f), ('state', s)):
                os.remove('%s/%s.nc' % (d, name))
                ds.to_netcdf('%s/%s.nc' % (d, name), encoding={
                    'time': {'calendar': cal, 'units': 'days since 1800-1-1'}})
            last = days[-1]
            p = w.params(d, time_step=ts, period_ending=pe, out_freq=freq,
                         calendar=cal, stop='%d/%d/%d' % (
                             last.year, last.month, last.day))
            if how == 'file':
                # only the file says so
                p['calendar'] = 'standard'
            elif how == 'data':
                p['forcing_fmt'] = 'data'
                g = f.copy()
                if cal in NOLEAP:
                    g['time'] = f.indexes['time'].to_datetimeindex()
                p['forcing'] = g
            elif how == 'cftime':
                # as xarray reads it, and nothing else says so
                p.update(forcing=f.copy(), forcing_fmt='data',
                         calendar='standard')
            elif how in ('ascii', 'binary'):
                from checks.C09 import vic_params
                p = vic_params(p, w, d, how, None)
            full = dict(p)
            r.state(key)
            try:
                ds = world.run(p, size=False)
            except RunError as e:
                r.fail(key + ':raised', 'a valid run raised %s' % e)
                continue
            r.trace()
            if not all(_labels(r, key, cal, os.path.join(
                    d, 'out', fn)) for fn in sorted(os.listdir(d + '/out'))):
                continue
        steps = axis(start, n * 1440 // ts, cal, ts, 1 if pe else 0)
        got = pd.DatetimeIndex(ds.indexes['time'].to_datetimeindex()
                               if isinstance(ds.indexes['time'],
                                             xr.CFTimeIndex)
                               else ds.indexes['time'])
        r.trans(len(steps))
        if stamp(got) != stamp(steps):
            a, b = stamp(got), stamp(steps)
            bad = [x for x in a if x not in set(b)][:2]
            r.fail(key + ':times', '%d steps, expected %d; not expected: %s; '
                   'missing: %s' % (len(a), len(b), bad, [
                       x for x in b if x not in set(a)][:2]))
            continue
        real = pd.DatetimeIndex([pd.Timestamp(x.year, x.month, x.day)
                                 for x in days])
        months = np.array([x.month for x in days])
        for i, c in enumerate(cs):
            outs = [ref.run_cell(c, Dates(np.asarray(doy), months), full,
                                 _actual_sun(c['lat'], c['elev'],
                                             full['lapse_rate']))
                    for doy in ({tuple(real.dayofyear)} |
                                {tuple(x.dayofyr for x in days)})]
            for v in ds.data_vars:
                g = ds[v].values[:, i, 0]
                r.trans(len(g))
                es = [first_bad(g, o[v], *TOL[v]) for o in outs]
                if all(es):
                    r.fail('%s:%s' % (key, v), '%s of cell %d %s'
                           % (v, i, es[0]))
        r.outcome(key)
    r.show(it)


def _labels(r, key, cal, path):
    """The file decodes to the same dates by anybody's reading of it."""
    import netCDF4
    with netCDF4.Dataset(path) as nc:
        t = nc.variables['time']
        c = getattr(t, 'calendar', None)
        if (c in NOLEAP) != (cal in NOLEAP):
            r.fail(key + ':attr', 'calendar attribute %r for %s' % (c, cal))
            return False
    return True
