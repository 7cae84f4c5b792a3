"""Exactly the requested period of a longer record is used, and a period that
the inputs do not cover is refused."""
import os

import numpy as np
import pandas as pd
import xarray as xr

from mc import world
from mc.lib import World, cell, run_ok, tmpdir
from mc.world import RunError

LEVEL = 'model_checking'
RULE = ('state = (window of the record, option set, format, how much longer '
        'the state is) or (which day is missing, repeated or out of order in '
        'which input); windows are compared bit by bit with the run of '
        'trimmed files, the rest must raise and write no value')
ASSUMPTIONS = ['ASCII and binary records begin on the first day of the run '
               '(they carry no dates)']
MINIMUM = {'quick': 300, 'thorough': 900}
OPTS = {'sub': dict(time_step=180, prec_type='mix'),
        'utc': dict(time_step=360, utc_offset=True, prec_type='triangle',
                    period_ending=True),
        'day': dict(time_step=1440, out_freq='D'),
        'pt': dict(time_step=240, method='passthrough', out_freq='36H')}
START = '1952-02-26'


def items(tier):
    L = 6 if tier == 'quick' else 9
    res = []
    wins = [(a, b) for a in range(L) for b in range(a, L)]
    for o in OPTS:
        for i in range(0, len(wins), 7):
            for fmt in ('netcdf', 'data', 'glob'):
                if tier == 'quick' and fmt != 'netcdf' and o not in ('utc',
                                                                     'day'):
                    continue
                res.append(dict(k='win', opt=o, L=L, wins=wins[i:i + 7],
                                fmt=fmt))
    for o in OPTS:
        for fmt in ('netcdf', 'data'):
            if tier == 'quick' and (o, fmt) in (('utc', 'data'),
                                                ('pt', 'netcdf')):
                continue
            res.append(dict(k='forcing', opt=o, L=L, fmt=fmt))
        days = list(range(90)) if tier == 'thorough' else sorted(
            set(range(list(OPTS).index(o), 90, 5)) |
            {0, 1, 59, 60, 88, 89})
        for i in range(0, len(days), 9):
            res.append(dict(k='state', opt=o, L=3, days=days[i:i + 9]))
        res.append(dict(k='period', opt=o, L=L))
        for fmt in ('ascii', 'binary'):
            if o in ('sub', 'day'):
                res.append(dict(k='short', opt=o, L=4, fmt=fmt))
    return res


def record(it):
    """One long record; the forcings and the state are cut from it."""
    L = it['L']
    cs = []
    for i in range(4):
        rec = world.weather(110 + L, seed=3 + i)
        rec['shortwave'] = 100. + 60 * np.sin(np.arange(110. + L) + i) ** 2
        cs.append((rec, dict(elev=60. + 350 * i, mask=float(i != 2))))
    return cs


def make(it, a, b):
    """Days a..b of the record as forcings, the 90 before as state."""
    cs = []
    for rec, kw in record(it):
        f = {v: x[110 + a:111 + b] for v, x in rec.items()}
        if it['opt'] != 'pt':
            f.pop('shortwave')
        s = {v: rec[v][20 + a:110 + a] for v in ('prec', 't_min', 't_max')}
        cs.append(cell(forcing=f, state=s, **kw))
    return World(cs, kind='grid', shape=(2, 2), lats=[40.5, 47.],
                 lons=[-100.25, 20.], start=pd.Timestamp(START) +
                 pd.Timedelta(days=a))


def long_state(it, before, after):
    """State record from ``before`` days before the first day on."""
    cs = []
    for rec, kw in record(it):
        s = {v: rec[v][110 - before:110 + after] for v in
             ('prec', 't_min', 't_max')}
        f = {v: rec[v][110:112] for v in rec}
        cs.append(cell(forcing=f, state=s, **kw))
    w = World(cs, kind='grid', shape=(2, 2), lats=[40.5, 47.],
              lons=[-100.25, 20.], start=pd.Timestamp(START))
    ds = w.state()
    return ds.assign_coords(time=pd.date_range(
        pd.Timestamp(START) - pd.Timedelta(days=before),
        periods=before + after))


def put(it, w, p, ds, d):
    if it.get('fmt') == 'data':
        p['forcing'], p['forcing_fmt'] = ds, 'data'
    elif it.get('fmt') == 'glob':
        n = ds.sizes['time']
        for k, (a, b) in enumerate(((0, 2), (2, 3), (3, n))):
            ds.isel(time=slice(a, b)).to_netcdf('%s/part%d.nc' % (d, k))
        p['forcing'] = d + '/part*.nc'
    else:
        ds.to_netcdf(d + '/forcing.nc')


def refused(r, p, key, what):
    """The run must raise, and leave no values."""
    out = p['out_dir']
    try:
        world.run(p, read=False)
    except RunError as e:
        r.outcome(str(e)[:60])
        r.trace()
        for f in world.out_files(out):
            with xr.open_dataset(f) as ds:
                for v in ds.data_vars:
                    x = ds[v].values       # never written: fill value
                    if (np.isfinite(x) & (np.abs(x) < 9e36)).any():
                        r.fail(key + ':values', '%s: raised, but %s holds '
                               'values of %s' % (what, os.path.basename(f),
                                                 v))
        return
    r.trace()
    r.fail(key, '%s: accepted' % what)


def evaluate(it, r):
    o = OPTS[it['opt']]
    L = it['L']
    if it['k'] == 'win':
        whole = make(it, 0, L - 1)
        for a, b in it['wins']:
            w = make(it, a, b)
            key = '%s:%s:%d-%d' % (it['opt'], it['fmt'], a, b)
            with tmpdir() as d:
                w.write(d)
                exp = run_ok(r, key + ':trimmed', world.run,
                             w.params(d, out=d + '/ref', **o))
                p = w.params(d, out=d + '/out', **o)
                put(it, w, p, whole.forcing(), d)
                n = (a + b) % 4
                if n:
                    long_state(it, 90 + 5 * (n - 1), (0, a, L, a)[n]
                               ).to_netcdf(d + '/state.nc') \
                        if n > 1 or a == 0 else None
                r.state(key, n)
                got = run_ok(r, key, world.run, p)
                if exp is None or got is None:
                    continue
                r.trace()
                e = world.same_ds(exp, got)
                r.trans(sum(v.size for v in exp.data_vars.values()))
                if e:
                    r.fail(key, 'days %d to %d of %d: %s' % (a, b, L, e))
                # one or both ends may be left to the record
                for ends in (('start',) * (a == 0), ('stop',) * (b == L - 1),
                             ('start', 'stop') * (b - a == L - 1)):
                    if not ends:
                        continue
                    k2 = key + ':' + '+'.join(ends)
                    q = w.params(d, out='%s/%s' % (d, '_'.join(ends)), **o)
                    q.update({x: p[x] for x in ('forcing', 'forcing_fmt')})
                    q.update({x: 'forcing' for x in ends})
                    r.state(k2)
                    got = run_ok(r, k2, world.run, q)
                    if got is None:
                        continue
                    r.trace()
                    e = world.same_ds(exp, got)
                    if e:
                        r.fail(k2, 'days %d to %d of %d, %s as in the '
                               'forcings: %s' % (a, b, L, ends, e))
                r.outcome(key)
    elif it['k'] == 'forcing':
        w = make(it, 0, L - 1)
        full = w.forcing()
        for i in range(L):
            for how in ('missing', 'repeated', 'replaced'):
                ix = {'missing': [k for k in range(L) if k != i],
                      'repeated': sorted(list(range(L)) + [i]),
                      'replaced': [k if k != i else (k or 2) - 1
                                   for k in range(L)]}[how]
                key = 'forcing:%s:%s:%s:%d' % (it['opt'], it['fmt'], how, i)
                r.state(key)
                r.trans()
                with tmpdir() as d:
                    w.write(d)
                    p = w.params(d, **o)
                    put(it, w, p, full.isel(time=ix), d)
                    refused(r, p, key, 'day %d of the forcings %s' % (i, how))
    elif it['k'] == 'state':
        w = make(it, 0, 2)
        s = w.state()
        for i in it['days']:
            for how in ('missing', 'missing+', 'replaced', 'swapped'):
                st = s
                if how == 'missing+':
                    st = xr.concat([s.isel(time=slice(0, 1)).assign_coords(
                        time=[s.time.values[0] - np.timedelta64(1, 'D')]),
                        s], dim='time')
                    ix = [k for k in range(91) if k != i + 1]
                elif how == 'missing':
                    ix = [k for k in range(90) if k != i]
                elif how == 'replaced':
                    ix = [k if k != i else (k - 1 if k else 1)
                          for k in range(90)]
                else:
                    if i in (0, 89):
                        continue
                    ix = [{i: i + 1, i + 1: i}.get(k, k) for k in range(90)]
                key = 'state:%s:%s:%d' % (it['opt'], how, i)
                r.state(key)
                r.trans()
                with tmpdir() as d:
                    w.write(d)
                    st.isel(time=ix).to_netcdf(d + '/state.nc')
                    refused(r, w.params(d, **o), key,
                            'day %d of the state %s' % (i, how))
    elif it['k'] == 'period':
        w = make(it, 0, L - 1)
        t0 = pd.Timestamp(START)
        for a in (-400, -90, -2, -1, 0, 2, L - 1, L, L + 3):
            for b in (-91, -1, 0, 2, L - 1, L, L + 1, 40, 366):
                if 0 <= a <= b <= L - 1:
                    continue
                key = 'period:%s:%d:%d' % (it['opt'], a, b)
                r.state(key)
                r.trans()
                with tmpdir() as d:
                    w.write(d)
                    long_state(it, 90, L).to_netcdf(d + '/state.nc')
                    refused(r, w.params(d, **dict(
                        o, start=str((t0 + pd.Timedelta(days=a)).date()),
                        stop=str((t0 + pd.Timedelta(days=b)).date()))),
                        key, 'days %d to %d of a record of %d' % (a, b, L))
    else:
        from checks.C09 import SCALE, write_vic
        w = make(it, 0, L - 1)
        names = list(w.cells[0]['forcing'])
        for k in range(4):
            if not w.cells[k]['mask'] > 0:
                continue
            for n in range(L):
                # one cell's file ends after n days
                key = 'short:%s:%s:%d:%d' % (it['opt'], it['fmt'], k, n)
                r.state(key)
                r.trans()
                with tmpdir() as d:
                    w.write(d)
                    for c in w.cells:
                        for v in names:
                            c['forcing'][v] = np.rint(
                                c['forcing'][v] * 4) / 4
                    fs = write_vic(w, d + '/vic', it['fmt'], names, None)
                    if it['fmt'] == 'ascii':
                        t = open(fs[k]).readlines()[:n]
                        open(fs[k], 'w').writelines(t)
                    else:
                        t = open(fs[k], 'rb').read()[:n * 2 * len(names)]
                        open(fs[k], 'wb').write(t)
                    p = w.params(d, **o)
                    p['forcing'], p['forcing_fmt'] = fs, it['fmt']
                    p['forcing_vars'] = {
                        v: v if it['fmt'] == 'ascii' else '%g %s' % SCALE[v]
                        for v in names}
                    refused(r, p, key, 'the file of cell %d ends after %d of '
                            '%d days' % (k, n, L))
    r.show(it)
