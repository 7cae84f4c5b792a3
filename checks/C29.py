"""Inputs that cannot be used are refused, never silently propagated."""
import itertools
import os

import numpy as np
import xarray as xr

from mc import world
from mc.lib import World, cell, run_ok, tmpdir
from mc.world import RunError

LEVEL = 'model_checking'
RULE = ('state = (kind of bad value, input, variable, cell, day or month, '
        'option set, format, chunks): one bad value at every position; the '
        'run must raise, or (where the value is not used) write exactly the '
        'output of the run without it')
ASSUMPTIONS = ['the earliest days of the state are not used by every '
               'variable: a run that ignores them is right']
MINIMUM = {'quick': 700, 'thorough': 3000}
OPTS = {'sub': dict(time_step=180, prec_type='triangle', utc_offset=True),
        'mix': dict(time_step=360, prec_type='mix', period_ending=True),
        'day': dict(time_step=1440, out_freq='D'),
        'pt': dict(time_step=240, method='passthrough'),
        'ptday': dict(time_step=1440, method='passthrough')}
BAD = {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf}
N = 3
START = '1952-02-28'


def items(tier):
    res = []
    for o in OPTS:
        vs = ['prec', 't_min', 't_max', 'wind'] + (
            ['shortwave'] if o.startswith('pt') else [])
        for how in list(BAD) + ['fill', 'swap']:
            for fmt in ('netcdf', 'data', 'ascii', 'chunks', 'threads'):
                if fmt == 'ascii' and how == 'fill':
                    continue
                if tier == 'quick' and fmt != 'netcdf' and (
                        o in ('mix', 'ptday') or how == '-inf'):
                    continue
                res.append(dict(k='forcing', opt=o, how=how, fmt=fmt,
                                vs=vs if how != 'swap' else ['t_max'],
                                few=tier == 'quick' and fmt != 'netcdf'))
        for how in list(BAD) + ['swap']:
            if tier == 'quick' and (o in ('mix', 'ptday') or how == '-inf'):
                continue
            for v in ('prec', 't_min', 't_max') if how != 'swap' else (
                    't_max',):
                days = list(range(90)) if tier == 'thorough' else [
                    0, 1, 2, 30, 59, 60, 61, 62, 75, 87, 88, 89]
                res.append(dict(k='state', opt=o, how=how, v=v, days=days))
        for how in BAD:
            res.append(dict(k='domain', opt=o, how=how))
        for fmt in ('netcdf', 'data'):
            res.append(dict(k='lacking', opt=o, fmt=fmt))
    return res


def make(it):
    cs = []
    for i in range(4):
        c = cell(N, seed=i, elev=100. + 150 * i, mask=float(i != 1))
        if it['opt'].startswith('pt'):
            c['forcing']['shortwave'] = 120. + 20 * i + 35 * np.arange(N)
        cs.append(c)
    return World(cs, kind='grid', shape=(2, 2), lats=[40.125, 47.],
                 lons=[-100.0625, 20.5], start=START)


def same(r, key, what, exp, got):
    for v in exp.data_vars:
        a, b = exp[v].values, got[v].values
        act = np.isfinite(a)
        if not np.isfinite(b[act]).all():
            r.fail(key + ':propagated', '%s: accepted, and %s holds %r'
                   % (what, v, b[act][~np.isfinite(b[act])][0]))
            return
        if not world.same(a, b):
            r.fail(key + ':changed', '%s: accepted, and %s changed'
                   % (what, v))
            return


def tell(r, p, key, what, exp, must=True):
    r.state(key)
    r.trans()
    try:
        got = world.run(p)
    except RunError as e:
        r.outcome(str(e)[:50])
        r.trace()
        r.count('refused')
        return
    r.trace()
    if must:
        bad = [v for v in got.data_vars if not np.isfinite(
            got[v].values[np.isfinite(exp[v].values)]).all()]
        r.fail(key, '%s: accepted; %s' % (
            what, 'not finite: %s' % bad if bad else 'finite output'))
    else:
        same(r, key, what, exp, got)
    r.count('accepted')


def evaluate(it, r):
    o = dict(OPTS[it['opt']])
    w = make(it)
    with tmpdir() as d:
        w.write(d)
        fmt = it.get('fmt', 'netcdf')
        if fmt in ('chunks', 'threads'):
            o['chunks'] = {'lat': 1, 'lon': 1}
        if fmt == 'threads':
            o.update(scheduler='threads', num_workers=3)
        exp = run_ok(r, 'clean', world.run, w.params(d, out=d + '/ref', **o))
        if exp is None:
            return
        n = 0

        def params():
            return w.params(d, out='%s/o%d' % (d, n), **o)
        act = [i for i, c in enumerate(w.cells) if c['mask'] > 0]
        tag = '%s:%s' % (it['k'], it['opt'])
        if it['k'] == 'forcing':
            f0 = w.forcing()
            for v in it['vs']:
                for i, t in itertools.product(act, range(N)):
                    if not (it['few'] and (i, t) not in (
                            (act[0], 0), (act[-1], N - 1), (act[1], 1))):
                        n += 1
                        f = f0.copy(deep=True)
                        y, x = divmod(i, 2)
                        if it['how'] == 'swap':
                            val = float(f['t_min'].values[t, y, x]) - 2 ** -4
                        else:
                            val = BAD.get(it['how'], -9999.)
                        f[v].values[t, y, x] = val
                        p = params()
                        key = '%s:%s:%s:%s:%d:%d' % (tag, it['how'], fmt, v,
                                                     i, t)
                        if fmt == 'data':
                            if it['how'] == 'fill':
                                f = f.where(f > -9000)
                            p['forcing'], p['forcing_fmt'] = f, 'data'
                        elif fmt == 'ascii':
                            p = ascii_(w, p, '%s/v%d' % (d, n), f)
                        else:
                            enc = {v: {'_FillValue': -9999.}} \
                                if it['how'] == 'fill' else {}
                            f.to_netcdf('%s/f%d.nc' % (d, n), encoding=enc)
                            p['forcing'] = '%s/f%d.nc' % (d, n)
                        tell(r, p, key, '%s (%s) in %s of cell %d, day %d'
                             % (it['how'], fmt, v, i, t), exp)
        elif it['k'] == 'state':
            s0 = w.state()
            v = it['v']
            for i in act[:2]:
                for t in it['days']:
                    n += 1
                    s = s0.copy(deep=True)
                    y, x = divmod(i, 2)
                    s[v].values[t, y, x] = BAD[it['how']] \
                        if it['how'] in BAD else \
                        float(s['t_min'].values[t, y, x]) - .5
                    s.to_netcdf('%s/s%d.nc' % (d, n))
                    p = params()
                    p['state'] = '%s/s%d.nc' % (d, n)
                    if it['how'] == 'swap':
                        # the range of the state is smoothed: not refused,
                        # but the output has to be complete
                        r.state(tag, 'swap', i, t)
                        r.trace()
                        try:
                            got = world.run(p)
                        except RunError:
                            continue
                        if any(not np.isfinite(got[z].values[np.isfinite(
                                exp[z].values)]).all()
                                for z in exp.data_vars):
                            r.fail('%s:swap:%d:%d' % (tag, i, t),
                                   'output not finite')
                        continue
                    tell(r, p, '%s:%s:%s:%d:%d' % (tag, it['how'], v, i, t),
                         '%s in %s of the state of cell %d, day %d'
                         % (it['how'], v, i, t), exp, must=False)
        elif it['k'] == 'domain':
            for v in ('elev', 't_pk', 'dur'):
                if v != 'elev' and o.get('prec_type') is None:
                    continue
                for i in act:
                    for m in ([0] if v == 'elev' else [0, 1, 2, 6, 11]):
                        n += 1
                        ds = w.domain()
                        y, x = divmod(i, 2)
                        if v == 'elev':
                            ds[v].values[y, x] = BAD[it['how']]
                        else:
                            ds[v].values[m, y, x] = BAD[it['how']]
                        ds.to_netcdf('%s/d%d.nc' % (d, n))
                        p = params()
                        p['domain'] = '%s/d%d.nc' % (d, n)
                        # the run is in February and March
                        tell(r, p, '%s:%s:%s:%d:%d' % (tag, it['how'], v, i,
                                                       m),
                             '%s in %s of cell %d, month %d' % (
                                 it['how'], v, i, m + 1), exp,
                             must=v == 'elev' or m in (1, 2))
        else:
            for v in ('prec', 't_min', 't_max') + (
                    ('shortwave',) if it['opt'].startswith('pt') else ()):
                for how in ('file', 'config'):
                    n += 1
                    p = params()
                    f = w.forcing()
                    if how == 'file':
                        f = f.drop_vars(v)
                    else:
                        p['forcing_vars'] = {a: b for a, b in
                                             p['forcing_vars'].items()
                                             if a != v}
                    if fmt == 'data':
                        p['forcing'], p['forcing_fmt'] = f, 'data'
                    else:
                        p['forcing'] = '%s/l%d.nc' % (d, n)
                        f.to_netcdf(p['forcing'])
                    tell(r, p, '%s:%s:%s:%s' % (tag, fmt, v, how),
                         '%s not in the %s' % (v, how), exp)
            for v in ('elev', 'mask', 't_pk', 'dur', 'lat'):
                if v in ('t_pk', 'dur') and o.get('prec_type') is None:
                    continue
                n += 1
                p = params()
                p['domain'] = '%s/l%d.nc' % (d, n)
                ds = w.domain()
                (ds.drop_vars(v) if v != 'lat' else
                 ds.rename(lat='y')).to_netcdf(p['domain'])
                tell(r, p, '%s:domain:%s' % (tag, v),
                     '%s not in the domain' % v, exp)
            for v in ('prec', 't_min', 't_max'):
                n += 1
                p = params()
                p['state'] = '%s/l%d.nc' % (d, n)
                w.state().drop_vars(v).to_netcdf(p['state'])
                tell(r, p, '%s:state:%s' % (tag, v),
                     '%s not in the state' % v, exp)
    r.show(it)


def ascii_(w, p, d, f):
    os.makedirs(d)
    names = list(f.data_vars)
    p['forcing'], p['forcing_fmt'] = [], 'ascii'
    p['forcing_vars'] = {v: v for v in names}
    for i, c in enumerate(w.cells):
        y, x = divmod(i, 2)
        path = '%s/data_%s_%s' % (d, c['lat'], c['lon'])
        with open(path, 'w') as fh:
            for t in range(N):
                fh.write(' '.join(repr(float(f[v].values[t, y, x]))
                                  for v in names) + '\n')
        p['forcing'].append(path)
    return p
