"""The same forcings give the same output whatever format they come in."""
import argparse
import itertools
import os
import struct

import numpy as np
import pandas as pd
import xarray as xr

from mc import world
from mc.lib import World, cell, first_bad, run_ok, tmpdir

LEVEL = 'model_checking'
RULE = ('state = (format and its details, options, mask); the forcings are '
        'written in each format, and the run is compared bit by bit with the '
        'one from a plain netCDF file')
ASSUMPTIONS = ['values that every format can represent',
               'single precision input is compared to single precision']
MINIMUM = {'quick': 150, 'thorough': 400}
N = 5
OPTS = {'sub': dict(time_step=180, prec_type='mix'),
        'day': dict(time_step=1440, out_freq='2D'),
        'pt': dict(time_step=360, method='passthrough', utc_offset=True)}
MASKS = {'full': [1, 1, 1, 1], 'hole': [1, 0, 1, 1], 'one': [0, 0, 1, 0]}
SCALE = {'prec': (40., 'unsigned'), 't_max': (100., 'signed'),
         't_min': (100., 'signed'), 'wind': (100., 'signed'),
         'shortwave': (20., 'unsigned')}


def formats(tier):
    res = []
    perms = list(itertools.permutations(range(4)))
    # VIC files, in every order of the list of files
    for p in (perms[::6] + perms[-1:] if tier == 'quick' else perms):
        res += [('ascii', p), ('binary', p)]
    res += [('ascii', x) for x in ('extra', 'long', 'tabs', 'dir', 'ext',
                                   'others', 'aligned', 'exponents')]
    res += [('binary', x) for x in ('extra', 'long', 'dir', 'ext', 'others')]
    vs = list(itertools.permutations(range(4)))
    res += [('vars', fmt, v) for fmt in ('ascii', 'binary')
            for v in (vs[::5] if tier == 'quick' else vs)]
    for i in range(1, N):
        res.append(('glob', i))
    res += [('glob', 'days'), ('glob', 'vars')]
    res += [('data', x) for x in ('plain', 'chunked', 'dims', 'more',
                                  'renamed', 'longer', 'noon',
                                  'evening', 'f4', 'reversed')]
    for x in itertools.permutations(('time', 'lat', 'lon')):
        res.append(('netcdf', 'dims', x))
    res += [('netcdf', x) for x in (
        'f4', 'packed', 'unlimited', 'hours', 'seconds', 'noon', 'evening',
        'renamed', 'more', 'longer', 'netcdf3', 'fill', 'chunksizes')]
    return res


def items(tier):
    fs = formats(tier)
    res = []
    for o in OPTS:
        for m in MASKS:
            if tier == 'quick' and (o, m) not in (
                    ('sub', 'full'), ('day', 'hole'), ('pt', 'one')):
                continue
            for i in range(0, len(fs), 6):
                res.append(dict(opt=o, mask=m, fmts=fs[i:i + 6]))
            for dt in ('i2', 'i4', 'f4', 'mixed'):
                res.append(dict(opt=o, mask=m, ints=dt))
    return res


def make(it):
    cs = []
    for i in range(4):
        c = cell(N, seed=i, elev=100. + 150 * i,
                 mask=float(MASKS[it['mask']][i]))
        f = c['forcing']
        f['shortwave'] = 120. + 20 * i + 35 * np.arange(N)
        for v in f:
            # a float32 of a whole number over a whole number, in every format
            f[v] = np.rint(f[v] * SCALE[v][0]) / SCALE[v][0]
            f[v] = np.rint(f[v] * 4) / 4        # exact in single precision
        f['t_max'] = np.maximum(f['t_max'], f['t_min'] + 1)
        cs.append(c)
    if it['opt'] != 'pt':
        for c in cs:
            c['forcing'].pop('shortwave')
    else:
        # values over the whole range of what two bytes hold
        for j, x in enumerate((1638.25, 818.25, 819.0, 819.25, 1638.0)):
            cs[2]['forcing']['prec'][j] = x
        cs[2]['forcing']['wind'][:] = 327.5, 0., 163.75, 164., 2.5
    return World(cs, kind='grid', shape=(2, 2), lats=[40.125, 47.],
                 lons=[-100.0625, 20.5], start='1952-02-26')


def write_vic(w, d, fmt, names, detail):
    """One file per cell; returns them in row-major order."""
    os.makedirs(d)
    res = []
    for c in w.cells:
        name = 'data' if detail != 'ext' else 'my_long_data'
        path = '%s/%s_%s_%s' % (d, name, c['lat'], c['lon'])
        cols = np.column_stack([c['forcing'][v] for v in names])
        if detail == 'long':
            cols = np.vstack([cols, cols[:2] * 0 + 7])
        if fmt == 'ascii':
            sep = '\t' if detail == 'tabs' else ' '
            form = {'aligned': '%12.4f', 'exponents': '%.17e'}.get(
                detail, '%r')
            with open(path, 'w') as f:
                for row in cols:
                    f.write(sep.join(form % float(x) for x in row) + '\n')
        else:
            with open(path, 'wb') as f:
                for row in cols:
                    for v, x in zip(names, row):
                        k, t = SCALE[v]
                        f.write(struct.pack('h' if t == 'signed' else 'H',
                                            int(round(x * k))))
        res.append(path)
    if detail in ('extra', 'dir', 'others'):
        with open(d + '/README', 'w') as f:
            f.write('not a forcing file\n')
        res.append(d + '/README')
    if detail == 'others':
        # a cell that is not in the domain
        p = '%s/data_%s_%s' % (d, 55.5, 33.25)
        with open(res[0], 'rb') as f, open(p, 'wb') as g:
            g.write(f.read())
        res.insert(0, p)
    return res


def vic_params(p, w, d, fmt, order, detail=None, names=None):
    names = names or list(w.cells[0]['forcing'])
    files = write_vic(w, d + '/vic', fmt, names, detail)
    if isinstance(order, (tuple, list)):
        files = [files[i] for i in order]
    p['forcing'] = files
    p['forcing_fmt'] = fmt
    p['forcing_vars'] = {v: v if fmt == 'ascii' else '%g %s' % SCALE[v]
                         for v in names}
    return p


def through_ini(p, d):
    """A directory of files can be named in a configuration file."""
    from metsim import io
    flat = {k: v for k, v in p.items() if not isinstance(v, dict) and
            k not in ('forcing', 'verbose', 'out_freq')}
    t = '[MetSim]\nforcing = %s/vic\n' % d
    t += ''.join('%s = %s\n' % x for x in flat.items())
    if p.get('out_freq'):
        t += 'out_freq = %s\n' % p['out_freq']
    for s in ('chunks', 'forcing_vars', 'domain_vars', 'state_vars'):
        t += '[%s]\n' % s + ''.join('%s = %s\n' % x for x in p[s].items())
    t += '[out_vars]\n' + ''.join('%s = %s\n' % (k, v['out_name'])
                                  for k, v in p['out_vars'].items())
    with open(d + '/conf', 'w') as f:
        f.write(t)
    return io.read_config(argparse.Namespace(
        config=d + '/conf', scheduler='sync', num_workers=1, verbose=False))


def netcdf(w, d, x, p):
    ds = w.forcing()
    enc = {}
    kw = {}
    if x[0] == 'dims':
        ds = ds.transpose(*x[1])
    elif x[0] == 'f4':
        ds = ds.astype('f4')
    elif x[0] == 'packed':
        enc = {v: {'dtype': 'i4', 'scale_factor': 1 / 4., 'add_offset': 8.,
                   '_FillValue': -32768} for v in ds.data_vars}
    elif x[0] == 'fill':
        enc = {v: {'_FillValue': -9999.} for v in ds.data_vars}
    elif x[0] == 'chunksizes':
        enc = {v: {'chunksizes': (1, 1, 1), 'zlib': True}
               for v in ds.data_vars}
    elif x[0] == 'unlimited':
        kw['unlimited_dims'] = ['time']
    elif x[0] in ('hours', 'seconds'):
        enc = {'time': {'units': x[0] + ' since 1901-05-17 06:30',
                        'dtype': 'f8'}}
    elif x[0] in ('noon', 'evening'):
        ds['time'] = ds.indexes['time'] + pd.Timedelta(
            hours=12 if x[0] == 'noon' else 23, minutes=59)
    elif x[0] == 'renamed':
        m = {v: 'in_' + v for v in ds.data_vars}
        ds = ds.rename(m)
        p['forcing_vars'] = {m[v]: v for v in m}
    elif x[0] == 'more':
        ds['unused'] = ds['prec'] * np.nan
        ds['other'] = ('k', np.arange(3.))
    elif x[0] == 'longer':
        more = ds.assign_coords(time=ds.indexes['time'] +
                                pd.Timedelta(days=N))
        ds = xr.concat([ds, more * 0 + 5], dim='time')
    elif x[0] == 'netcdf3':
        kw['format'] = 'NETCDF3_64BIT'
    ds.to_netcdf(d + '/other.nc', encoding=enc, **kw)
    p['forcing'] = d + '/other.nc'
    return p


def glob_(w, d, x, p):
    os.makedirs(d + '/parts')
    ds = w.forcing()
    if x == 'vars':
        for v in ds.data_vars:
            ds[[v]].to_netcdf('%s/parts/f_%s.nc' % (d, v))
    else:
        cuts = range(0, N + 1) if x == 'days' else [0, x, N]
        for a, b in zip(list(cuts), list(cuts)[1:]):
            ds.isel(time=slice(a, b)).to_netcdf('%s/parts/f_%d.nc' % (d, a))
    p['forcing'] = d + '/parts/f_*.nc'
    return p


def data(w, x, p):
    ds = w.forcing()
    if x == 'chunked':
        ds = ds.chunk({'time': 2, 'lat': 1})
    elif x == 'dims':
        ds = ds.transpose('lon', 'lat', 'time')
    elif x == 'more':
        ds['unused'] = ds['prec'] * np.nan
    elif x == 'renamed':
        m = {v: 'in_' + v for v in ds.data_vars}
        ds = ds.rename(m)
        p['forcing_vars'] = {m[v]: v for v in m}
    elif x in ('noon', 'evening'):
        ds['time'] = ds.indexes['time'] + pd.Timedelta(
            hours=12 if x == 'noon' else 23, minutes=59)
    elif x == 'f4':
        ds = ds.astype('f4')
    elif x == 'reversed':
        ds = ds.isel(lat=slice(None, None, -1), lon=slice(None, None, -1))
    elif x == 'longer':
        more = ds.assign_coords(time=ds.indexes['time'] +
                                pd.Timedelta(days=N))
        ds = xr.concat([ds, more * 0 + 5], dim='time')
    p['forcing'] = ds
    p['forcing_fmt'] = 'data'
    return p


def whole(it, r):
    """Inputs of whole numbers, stored as integers."""
    o = OPTS[it['opt']]
    for which in ('forcing', 'state', 'domain', 'all'):
        w = make(it)
        for i, c in enumerate(w.cells):
            # only what is stored as integers is whole
            for k in ('forcing', 'state'):
                if which not in (k, 'all'):
                    continue
                for v in c[k]:
                    c[k][v] = np.rint(c[k][v])
                c[k]['t_max'] = np.maximum(c[k]['t_max'], c[k]['t_min'] + 1)
            c['t_pk'], c['dur'] = c['t_pk'] + .25, c['dur'] + .5
            c['elev'] += .75
            if which in ('domain', 'all'):
                c['elev'] = np.rint(c['elev'])
                c['t_pk'], c['dur'] = np.rint(c['t_pk']), np.rint(c['dur'])
        with tmpdir() as d:
            w.write(d)
            tag = '%s,%s' % (it['opt'], it['mask'])
            ref = run_ok(r, tag + ',floats', world.run,
                         w.params(d, out=d + '/ref', **o))
            for k, ds in (('forcing', w.forcing()), ('state', w.state()),
                          ('domain', w.domain())):
                if which in (k, 'all'):
                    for j, v in enumerate(list(ds.data_vars)):
                        if v in ('lat', 'lon'):
                            continue
                        dt = it['ints'] if it['ints'] != 'mixed' else (
                            'i4', 'f8', 'i2')[j % 3]
                        ds[v] = ds[v].astype(dt)
                    ds.to_netcdf('%s/%s.nc' % (d, k))
            r.state(tag, 'ints', it['ints'], which)
            key = '%s,ints,%s,%s' % (tag, it['ints'], which)
            got = run_ok(r, key, world.run, w.params(d, **o))
            if ref is None or got is None:
                continue
            r.trace()
            for v in ref.data_vars:
                t = (2e-5, 1e-5) if it['ints'] == 'f4' else (1e-12, 1e-12)
                e = first_bad(got[v].fillna(-99), ref[v].fillna(-99), *t)
                r.trans(ref[v].size)
                if e:
                    r.fail(key, 'whole numbers as %s (%s): %s %s' % (
                        it['ints'], which, v, e))
            r.outcome(tag, it['ints'], which)


def evaluate(it, r):
    if 'ints' in it:
        return whole(it, r)
    w = make(it)
    o = OPTS[it['opt']]
    with tmpdir() as top:
        w.write(top)
        ref_p = w.params(top, out=top + '/ref', **o)
        tag = '%s,%s' % (it['opt'], it['mask'])
        if run_ok(r, tag + ',netcdf', world.run, ref_p) is None:
            return
        ref = dict(world.read_outputs(top + '/ref'))
        for n, f in enumerate(it['fmts']):
            f = tuple(tuple(x) if isinstance(x, list) else x for x in f)
            d = '%s/f%d' % (top, n)
            os.makedirs(d)
            p = w.params(top, out=d + '/out', **o)
            what = ','.join(map(str, f))
            if f[0] in ('ascii', 'binary'):
                p = vic_params(p, w, d, f[0], f[1], f[1])
                if f[1] == 'dir':
                    p = through_ini(p, d)
            elif f[0] == 'vars':
                names = list(w.cells[0]['forcing'])
                p = vic_params(p, w, d, f[1], None, names=[
                    names[i] for i in f[2]] + names[4:])
            elif f[0] == 'netcdf':
                p = netcdf(w, d, f[1:], p)
            elif f[0] == 'glob':
                p = glob_(w, d, f[1], p)
            else:
                p = data(w, f[1], p)
            r.state(tag, what)
            key = '%s,%s' % (tag, what)
            if run_ok(r, key, world.run, p) is None:
                continue
            r.trace()
            got = dict(world.read_outputs(d + '/out'))
            if sorted(got) != sorted(ref):
                r.fail(key + ':files', 'files %s' % sorted(got))
                continue
            for k in ref:
                if f in (('netcdf', 'f4'), ('data', 'f4')):
                    # some of the arithmetic is in single precision then
                    e = None
                    for v in ref[k].data_vars:
                        e = e or first_bad(got[k][v].fillna(0),
                                           ref[k][v].fillna(0), 2e-5, 1e-5)
                else:
                    e = world.same_ds(ref[k], got[k])
                r.trans(sum(ref[k][v].size for v in ref[k].data_vars))
                if e:
                    r.fail(key + ':differs', '%s: %s' % (what, e))
            r.outcome(tag, what)
    r.show(it)
