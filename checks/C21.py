"""Passthrough: what is supplied is used as it is, the rest is estimated."""
import itertools

import numpy as np
import pandas as pd

from mc import ref, world
from mc.lib import (TOL, World, _actual_sun, cell, first_bad, run_ok, tmpdir)

LEVEL = 'model_checking'
RULE = ('state = (subset of the optional inputs, time step, averaging of the '
        'shortwave, UTC flag, longwave and other options); supplied daily values must come out bit by '
        'bit, sub-daily values conserve them, everything else agrees with '
        'the reference model')
ASSUMPTIONS = ['supplied values are physical']
MINIMUM = {'quick': 500, 'thorough': 2000}
OPTIONAL = ['tskc', 'vapor_pressure', 'pet', 'wind', 'tdew', 't_day', 'tfmax',
            'longwave']
N = 4
DAILY = ['t_min', 't_max', 'prec', 'vapor_pressure', 'shortwave', 'tskc',
         'pet', 'wind', 'daylength']


def items(tier):
    subs = [list(s) for n in range(len(OPTIONAL) + 1)
            for s in itertools.combinations(OPTIONAL, n)]
    res = []
    for i in range(0, len(subs), 16):
        for o in (dict(ts=1440), dict(ts=180), dict(ts=60, utc=True),
                  dict(ts=1440, avg='daylight'), dict(ts=360,
                                                      avg='daylight'),
                  dict(ts=240, avg='daily'),
                  dict(ts=1440, opts={'lw_cloud': 'default'}),
                  dict(ts=120, utc=True,
                       opts={'lw_cloud': 'default', 'lw_type': 'anderson',
                             'rain_scalar': 0.3, 'tdew_tol': 1e-3,
                             'tmax_daylength_fraction': 0.5,
                             'prec_type': 'uniform'}),
                  dict(ts=1440, opts={'lw_type': 'brutsaert', 'sbsky': 0.5,
                                      'snow_crit_temp': 9.,
                                      'tday_coef': 0.3})):
            part = subs[i:i + 16]
            if tier == 'quick' and o != dict(ts=1440):
                part = [s for j, s in enumerate(part)
                        if (i + j + o['ts'] // 60) % 3 == 0 or len(s) < 2]
            res.append(dict(o, subs=part))
    return res


def make():
    cs = []
    for i in range(3):
        c = cell(N, seed=5 + i, lat=-20. + 33 * i, lon=-150. + 140 * i,
                 elev=40. + 700 * i, mask=float(i != 1) if False else 1.)
        k = np.arange(N)
        c['extra'] = {
            'tskc': 0.5 + 0.49 * np.sin(1.9 * k + i),
            'vapor_pressure': 400. + 120 * i + 90 * np.cos(2. * k),
            'pet': 0.0008 * (k + 1 + i), 'wind': 1. + k * .75 + i,
            'tdew': -4. + 1.5 * k - i, 't_day': 9. + k + i,
            'tfmax': .3 + .1 * k + .05 * i,
            'longwave': 260. + 25 * k + 11. * i}
        c['forcing'].pop('wind')
        c['forcing']['shortwave'] = np.where(k == 2, 0., 90. + 45 * k + 7 * i)
        cs.append(c)
    return cs


def evaluate(it, r):
    for s in it['subs']:
        cs = make()
        for c in cs:
            c['forcing'].update({v: c['extra'][v] for v in s})
        w = World(cs, kind='hru', start='1952-02-27')
        ts = it['ts']
        kw = dict(time_step=ts, method='passthrough',
                  utc_offset=it.get('utc', False))
        if 'avg' in it:
            kw['sw_averaging'] = it['avg']
        kw.update(it.get('opts', {}))
        tag = '%s:%d%s%s' % ('+'.join(s) or 'nothing', ts,
                             ':utc' if it.get('utc') else '',
                             ':' + it['avg'] if 'avg' in it else '')
        tag += ''.join(':%s' % v for v in it.get('opts', {}).values())
        with tmpdir() as d:
            w.write(d)
            p = w.params(d, **kw)
            full = dict(p)
            ds = run_ok(r, tag, world.run, p)
        r.state(tag)
        if ds is None:
            continue
        r.trace()
        dates = pd.date_range(w.start, periods=N)
        for i, c in enumerate(cs):
            f = c['forcing']
            o = ref.run_cell(c, dates, full, _actual_sun(
                c['lat'], c['elev'], full['lapse_rate']))
            for v in ds.data_vars:
                got = ds[v].values[:, i]
                r.trans(len(got))
                e = first_bad(got, o[v], *TOL[v])
                if e:
                    r.fail('%s:%s' % (tag, v), '%s supplied: %s, cell %d %s'
                           % (s, v, i, e))
                if ts == 1440:
                    if v in f and not (v == 'shortwave' and
                                       it.get('avg') == 'daylight') and \
                            not world.same(got, f[v]):
                        r.fail('%s:%s:kept' % (tag, v),
                               '%s is not the %s supplied' % (v, v))
                    continue
                off = ref.offset_minutes(c['lon']) if it.get('utc') else 0
                if it.get('utc') and (v == 'shortwave' or off % ts):
                    continue
                got = np.roll(got, off // ts)
                day = got.reshape(N, -1)
                if v == 'prec':
                    bad = first_bad(day.sum(axis=1), f[v], 1e-9, 1e-9)
                elif v in ('tskc', 'wind') and v in f:
                    bad = first_bad(day, np.repeat(
                        f[v][:, None], day.shape[1], axis=1), 1e-12, 1e-12)
                elif v == 'longwave' and v in f:
                    bad = first_bad(day.mean(axis=1), f[v], 1e-9, 1e-9)
                elif v == 'shortwave':
                    sun = _actual_sun(c['lat'], c['elev'],
                                      full['lapse_rate'])
                    secs = sun[1][np.asarray(dates.dayofyear) - 1] if \
                        it.get('avg') == 'daylight' else 86400.
                    bad = first_bad(day.mean(axis=1),
                                    f[v] * secs / 86400., 1.2e-3, 1e-6)
                else:
                    bad = None
                if bad:
                    r.fail('%s:%s:conserved' % (tag, v),
                           'the day\'s %s is not the one supplied: %s'
                           % (v, bad))
        r.outcome(tag, [float(ds[v].sum()) for v in ds.data_vars])
