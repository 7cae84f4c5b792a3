"""A constant variable acts exactly like a forcing file that holds it."""
import itertools
import os

import numpy as np
import xarray as xr

from mc import world
from mc.lib import World, cell, run_ok, tmpdir
from mc.world import RunError

LEVEL = 'model_checking'
RULE = ('state = (which variables are constant, their values, whether the '
        'forcing file also holds them, type of the file, method, time step, '
        'chunks); compared bit by bit with the run of a file that holds the '
        'values')
ASSUMPTIONS = ['at least one forcing is not constant, as documented']
MINIMUM = {'quick': 180, 'thorough': 600}
BASE = ['prec', 't_min', 't_max', 'wind']
PT = ['shortwave', 'vapor_pressure', 'tskc', 'pet', 'tdew']
VALUES = {'prec': [4.75, 0.0, 3], 't_min': [-7.35, 0, 1.25],
          't_max': [21.3, 28, 19.875], 'wind': [2.25, 0.1, 7],
          'shortwave': [180.5, 0.0, 95], 'vapor_pressure': [850.25, 400, 1.5],
          'tskc': [0.35, 0, 1], 'pet': [0.2, 0, 1], 'tdew': [-2.5, 0, 3]}
HOW = ('missing', 'present', 'first', 'text', 'chunks')
DTYPES = ['f8', 'f4', 'i2']


def items(tier):
    res = []
    subs = [s for n in range(1, 4) for s in itertools.combinations(BASE, n)]
    for ts in (180, 1440) if tier == 'quick' else (60, 180, 360, 1440):
        for k in range(3):
            for dt in DTYPES:
                res.append(dict(method='mtclim', ts=ts, k=k, dt=dt,
                                subs=subs if tier == 'thorough' or dt == 'f8'
                                else subs[k::3]))
        psubs = [(v,) for v in BASE + PT] + [
            ('shortwave', 'tskc'), ('vapor_pressure', 'wind'),
            ('prec', 't_min', 't_max')]
        for k in range(3):
            for dt in DTYPES:
                res.append(dict(method='passthrough', ts=ts, k=k, dt=dt,
                                subs=psubs if tier == 'thorough' or dt == 'f8'
                                else psubs[k::3]))
    for x in res:
        x['full'] = tier == 'thorough'
    return res


def evaluate(item, r):
    nd = 3
    cs = [cell(nd, seed=i, lat=35. + 4 * i, lon=-90. + 50 * i,
               mask=float(i != 2)) for i in range(4)]
    for i, c in enumerate(cs):
        f = c['forcing']
        f['t_min'] = np.round(f['t_min'])
        f['t_max'] = np.round(f['t_max']) + 1
        f['prec'] = np.round(f['prec'] * 2)
        f['wind'] = np.round(f['wind'])
        if item['method'] == 'passthrough':
            f['shortwave'] = 120. + 10 * i + np.arange(nd)
    w = World(cs, kind='grid', shape=(2, 2), lats=[35., 44.],
              lons=[-90., 60.], start='1951-02-27')
    with tmpdir() as d:
        w.write(d)
        fc = w.forcing()
        n = 0
        for s in item['subs']:
            vals = {v: VALUES[v][item['k']] for v in s}
            if 't_min' in s and 't_max' not in s:
                vals['t_min'] = min(vals['t_min'], float(
                    fc['t_max'].min()) - 1.5)
            if 't_max' in s and 't_min' not in s:
                vals['t_max'] = max(vals['t_max'], float(
                    fc['t_min'].max()) + 1.5)
            # the oracle: a double precision file that holds them
            o = fc.astype('f4' if item['dt'] == 'f4' else 'f8').copy(
                deep=True)
            for v in s:
                o[v] = xr.full_like(fc['prec'], float(vals[v]), dtype='f8')
            o.to_netcdf(d + '/o%d.nc' % n)
            have = [v for v in fc.data_vars]
            kw = dict(time_step=item['ts'], method=item['method'])
            p = w.params(d, out=d + '/e%d' % n, **kw)
            p['forcing'] = d + '/o%d.nc' % n
            p['forcing_vars'] = {v: v for v in o.data_vars}
            exp = run_ok(r, 'oracle', world.run, p)
            if exp is None:
                continue
            for how in HOW if item['full'] or item['dt'] != 'f8' else (
                    HOW[:2] if n % 2 else HOW[2:]):
                f = fc.astype(item['dt'])
                names = [v for v in have if v not in s]
                if how == 'present':
                    names = [v for v in have]
                elif how == 'first':
                    # the variable the others are modelled on comes first
                    names = names[::-1]
                f = f[[v for v in have if v in names]]
                path = d + '/f%d_%s.nc' % (n, how)
                f.to_netcdf(path)
                p = w.params(d, out=d + '/o%d_%s' % (n, how), **kw)
                p['forcing'] = path
                p['forcing_vars'] = {v: v for v in names}
                p['constant_vars'] = {v: vals[v] if how != 'text' else
                                      repr(vals[v]) for v in (
                                          s[::-1] if how == 'first' else s)}
                keep = dict(p['constant_vars'])
                if how == 'chunks':
                    p['chunks'] = {'lat': 1, 'lon': 1}
                r.state(item['method'], item['ts'], item['dt'], sorted(
                    vals.items()), how)
                tag = '%s:%s:%s:%s' % (item['method'], '+'.join(s), how,
                                       item['dt'])
                ds = run_ok(r, tag, world.run, p)
                if ds is None:
                    continue
                r.trace()
                e = world.same_ds(exp, ds)
                r.trans(sum(x.size for x in exp.data_vars.values()))
                if e:
                    r.fail(tag, 'constants %s (%s, %s, step %s): %s'
                           % (vals, how, item['dt'], item['ts'], e))
                if p.get('constant_vars') != keep:
                    r.fail(tag + ':params', 'constant_vars were modified')
                r.outcome([float(ds[v].sum()) for v in ds.data_vars])
            n += 1
