"""Outputs are in the units, under the names and with the type asked for."""
import itertools

import numpy as np

from mc import world
from mc.lib import DIVISORS, World, cell, first_bad, run_ok, tmpdir

LEVEL = 'model_checking'
RULE = ('state = (time step, set of output variables, their units, names, '
        'precision, chunks); values are compared with those of the run in '
        'default units by the closed form of the conversion, and with the '
        'reference model for the physical quantity')
ASSUMPTIONS = ['sub-daily vapor_pressure is off by a factor of 1000 (known '
               'finding); conversions between its units are checked']
MINIMUM = {'quick': 250, 'thorough': 1500}
# variable -> unit -> (factor, offset) from the default unit; None: per time
U = {'prec': {'mm timestep-1': None, 'mm h-1': 60., 'mm s-1': 1 / 60.},
     'pet': {'mm timestep-1': None, 'mm h-1': 60., 'mm s-1': 1 / 60.},
     'shortwave': {'W m-2': (1, 0)}, 'longwave': {'W m-2': (1, 0)},
     't_max': {'C': (1, 0), 'K': (1, 273.15)},
     't_min': {'C': (1, 0), 'K': (1, 273.15)},
     'temp': {'C': (1, 0), 'K': (1, 273.15)},
     'vapor_pressure': {'Pa': (1, 0), 'hPa': (.01, 0), 'kPa': (.001, 0)},
     'air_pressure': {'kPa': (1, 0), 'hPa': (10, 0), 'Pa': (1000, 0)},
     'tskc': {'fraction': (1, 0), '%': (100, 0)},
     'rel_humid': {'%': (1, 0), 'fraction': (.01, 0)},
     'spec_humid': {'g g-1': (1, 0)}, 'wind': {'m s-1': (1, 0)},
     'daylength': {'s': (1, 0)}}
DEF = {v: next(iter(u)) for v, u in U.items()}
WRONG = ['', 'F', 'mm', 'W/m2', 'c', 'Kelvin', 'pa', 'percent']
LONG = {'temp': 'air temperature', 'prec': 'precipitation',
        'tskc': 'cloud fraction', 'wind': 'wind speed'}


def names(ts):
    return world.DAY_VARS if ts == 1440 else world.SUB_VARS


def conv(v, unit, ts, x):
    f = U[v][unit]
    if v in ('prec', 'pet'):
        return x if f is None else x / (ts / f if f == 60. else ts * 60.)
    return x * f[0] + f[1]


def items(tier):
    res = []
    steps = (60, 180, 1440) if tier == 'quick' else (5, 15, 60, 90, 180, 360,
                                                     1440)
    for ts in steps:
        res.append(dict(k='single', ts=ts))
        res.append(dict(k='all', ts=ts))
        res.append(dict(k='names', ts=ts))
        res.append(dict(k='attrs', ts=ts))
        res.append(dict(k='wrong', ts=ts))
    for ds in range(0, len(DIVISORS), 6):
        res.append(dict(k='steps', steps=DIVISORS[ds:ds + 6]))
    for ts in ((180, 1440) if tier == 'quick' else (60, 360, 1440)):
        ns = names(ts)
        subs = [s for n in range(1, len(ns) + 1)
                for s in itertools.combinations(range(len(ns)), n)
                if tier == 'thorough' or n in (1, 2, len(ns) - 1)]
        for i in range(0, len(subs), 16 if tier == 'quick' else 64):
            res.append(dict(k='subset', ts=ts, subs=subs[
                i:i + (16 if tier == 'quick' else 64)]))
    return res


def cells(nd=2):
    return [cell(nd, seed=3 + i, lat=30. + 9 * i, lon=-60. + 70 * i,
                 elev=100. + 500 * i, mask=float(i != 1)) for i in range(3)]


class Base:
    def __init__(self, d):
        self.w = World(cells(), kind='hruc', start='1951-06-30')
        self.w.write(d)
        self.d, self.n, self.kept = d, 0, {}

    def params(self, ts, spec, **kw):
        self.n += 1
        ov = {v: {k: x for k, x in s.items()} for v, s in spec.items()}
        return self.w.params(self.d, out='%s/o%d' % (self.d, self.n),
                             time_step=ts, out_vars=ov, **kw)

    def default(self, r, ts):
        if ts not in self.kept:
            self.kept[ts] = run_ok(r, 'base', world.run, self.params(
                ts, {v: dict(out_name=v, units=DEF[v]) for v in names(ts)}))
        return self.kept[ts]


def check(r, b, ts, spec, tag, **kw):
    """One run: every variable of ``spec`` against the default run."""
    base = b.default(r, ts)
    if base is None:
        return
    r.state(ts, [(v, sorted(s.items())) for v, s in spec.items()],
            sorted(kw.items()))
    ds = run_ok(r, tag, world.run, b.params(ts, spec, **kw))
    if ds is None:
        return
    r.trace()
    want = sorted(s.get('out_name', v) for v, s in spec.items())
    have = sorted(v for v in ds.data_vars)
    if want != have:
        r.fail(tag + ':vars', '%s: variables %s, expected %s'
               % (tag, have, want))
        return
    if not np.array_equal(ds['time'].values, base['time'].values):
        r.fail(tag + ':time', '%s: other times' % tag)
    for v, s in spec.items():
        o, unit = s['out_name'], s.get('units', DEF[v])
        if unit not in U[v]:
            unit = DEF[v]
        got, exp = ds[o].values, conv(v, unit, ts, base[v].values)
        r.trans(got.size)
        t = '%s:%s:%s' % (tag, v, unit)
        if not np.array_equal(np.isnan(got), np.isnan(exp)):
            r.fail(t + ':nan', '%s at %d min: missing values moved' % (t, ts))
            continue
        rt = 1e-12
        if kw.get('out_precision') == 'f4':
            if got.dtype != np.float32:
                r.fail(t + ':type', '%s is %s' % (t, got.dtype))
            rt = 1.2e-7
        elif got.dtype != np.float64:
            r.fail(t + ':type', '%s is %s' % (t, got.dtype))
        e = first_bad(np.nan_to_num(got), np.nan_to_num(exp), rt, 1e-11)
        if e:
            r.fail(t, '%s at %d min: %s' % (t, ts, e))
        if ds[o].attrs.get('units') != unit:
            r.fail(t + ':attr', '%s: units attribute %r'
                   % (t, ds[o].attrs.get('units')))
        if v in LONG and ds[o].attrs.get('long_name') != LONG[v]:
            r.fail(t + ':long', '%s: long_name %r'
                   % (t, ds[o].attrs.get('long_name')))
    r.outcome(ts, [float(np.nansum(ds[x])) for x in have])
    return ds


def spec_of(ts, **units):
    return {v: dict(out_name=v, units=units.get(v, DEF[v]))
            for v in names(ts)}


def evaluate(item, r):
    with tmpdir() as d:
        b = Base(d)
        k = item['k']
        if k == 'steps':
            for ts in item['steps']:
                for unit in list(U['prec'])[1:]:
                    check(r, b, ts, {'prec': dict(out_name='prec',
                                                  units=unit)}, 'steps')
                    # only temp and prec are cheap enough at one minute
            return
        ts = item['ts']
        if k == 'single':
            physical(r, b, ts)
            for v in names(ts):
                for unit in U[v]:
                    check(r, b, ts, {v: dict(out_name=v, units=unit)},
                          'single')
        elif k == 'all':
            for j in range(3):
                s = {v: list(U[v])[j % len(U[v])] for v in names(ts)}
                for kw in (dict(), dict(chunks={'hru': 1}),
                           dict(out_precision='f4'), dict(out_freq='D')):
                    if 'out_freq' in kw and ts != 1440:
                        kw['period_ending'] = False
                    check(r, b, ts, spec_of(ts, **s), 'all', **kw)
        elif k == 'wrong':
            for v in names(ts):
                for unit in WRONG:
                    # a unit that is not known: the default is used, and
                    # the output says so
                    if unit in U[v]:
                        continue
                    check(r, b, ts, {v: dict(out_name=v, units=unit),
                                     'prec': dict(out_name='prec',
                                                  units='mm h-1')}
                          if v != 'prec' else
                          {v: dict(out_name=v, units=unit)}, 'wrong')
        elif k == 'names':
            ns = names(ts)
            for p in itertools.permutations(range(3)):
                three = ['prec', 'shortwave', 'vapor_pressure']
                check(r, b, ts, {three[i]: dict(
                    out_name=three[p[i]], units=list(U[three[i]])[-1])
                    for i in range(3)}, 'names')
            for i, v in enumerate(ns):
                w = ns[(i + 1) % len(ns)]
                check(r, b, ts, {v: dict(out_name='x y' if i % 2 else 'X_1',
                                         units=list(U[v])[-1]),
                                 w: dict(out_name=v, units=DEF[w])}, 'names')
                check(r, b, ts, {v: dict(out_name='q')}, 'names')
        elif k == 'attrs':
            attrs(r, b, ts)
        elif k == 'subset':
            ns = names(ts)
            for s in item['subs']:
                vs = [ns[i] for i in s]
                if len(vs) % 2 == 0:
                    vs = vs[::-1]
                check(r, b, ts, {v: dict(out_name=v, units=DEF[v])
                                 for v in vs}, 'subset')


def physical(r, b, ts):
    """The default units really are those of the quantity."""
    from mc import ref
    from mc.lib import TOL, _actual_sun
    import pandas as pd
    ds = b.default(r, ts)
    if ds is None:
        return
    p = b.params(ts, spec_of(ts))
    dates = pd.date_range(b.w.start, periods=b.w.nd)
    for i, c in enumerate(b.w.cells):
        if not c['mask'] > 0:
            continue
        o = ref.run_cell(c, dates, p, _actual_sun(c['lat'], c['elev'],
                                                  p['lapse_rate']))
        for v in names(ts):
            got = ds[v].values[:, i]
            exp = np.asarray(o[v], float)
            if v == 'vapor_pressure' and ts != 1440:
                exp = exp * 1000.           # the reference gives kPa
            e = first_bad(got, exp, *TOL[v])
            r.trans(len(exp))
            if e is None:
                continue
            if v == 'vapor_pressure' and ts != 1440 and first_bad(
                    got * 1000., exp, TOL[v][0], TOL[v][1] * 1000) is None:
                r.fail('vapor_pressure:subdaily:kPa-labelled-Pa',
                       'sub-daily vapor_pressure in "Pa" holds kPa: %s' % e)
            else:
                r.fail('physical:%s' % v, '%s at %d min, cell %d: %s'
                       % (v, ts, i, e))


def attrs(r, b, ts):
    """What the files say about the run."""
    import netCDF4
    import glob
    for j, kw in enumerate((
            dict(), dict(utc_offset=True), dict(period_ending=True),
            dict(prec_type='mix'), dict(method='mtclim', lw_type='TVA'),
            dict(rain_scalar=0.5, lapse_rate=0.006, tday_coef=0.4),
            dict(chunks={'hru': 2}), dict(sw_prec_thresh=1.5),
            dict(out_prefix='a_b'))):
        r.state('attrs', ts, sorted(kw.items()))
        p = b.params(ts, spec_of(ts), **kw)
        out, keep = p['out_dir'], dict(p)
        if run_ok(r, 'attrs', world.run, p, read=False) is None and r.fails:
            return
        r.trace()
        fs = glob.glob(out + '/*.nc')
        if len(fs) != 1:
            r.fail('attrs:files', '%d files' % len(fs))
            continue
        with netCDF4.Dataset(fs[0]) as nc:
            t = nc.variables['time']
            want = {'units': 'minutes since 2000-01-01 00:00:00.0',
                    'calendar': 'proleptic_gregorian',
                    'long_name': 'UTC time' if kw.get('utc_offset') else
                    'local time at grid location'}
            for a, x in want.items():
                if getattr(t, a, None) != x and not (
                        a == 'calendar' and getattr(t, a, None) in
                        ('standard', 'gregorian', x)):
                    r.fail('attrs:time:' + a, 'time %s %r, expected %r'
                           % (a, getattr(t, a, None), x))
            for a in ('method', 'prec_type', 'lw_type', 'lw_cloud',
                      'out_precision', 'time_step', 'rain_scalar',
                      'lapse_rate', 'tday_coef', 'sw_prec_thresh',
                      'out_prefix', 'tdew_tol', 'tmax_daylength_fraction'):
                g = getattr(nc, a, None)
                x = keep[a]
                r.trans()
                if (g is None or (isinstance(x, str) and g != x) or (
                        not isinstance(x, str) and not float(g) == float(x))):
                    r.fail('attrs:global:' + a, 'attribute %s is %r, the '
                           'run used %r' % (a, g, x))
            for a in ('utc_offset', 'period_ending'):
                if str(getattr(nc, a, None)) != str(keep[a]):
                    r.fail('attrs:global:' + a, 'attribute %s is %r, the '
                           'run used %r' % (a, getattr(nc, a, None), keep[a]))
            # the coordinate of the domain
            if list(nc.variables['hru'][:]) != [100, 107, 114]:
                r.fail('attrs:coord', 'coordinate changed')
        r.outcome(ts, j)
