"""Inputs are left alone, and a rerun replaces what earlier runs left."""
import copy
import hashlib
import itertools
import os
import stat

import numpy as np
import xarray as xr

from mc import world
from mc.lib import World, cell, tmpdir
from mc.world import RunError

LEVEL = 'model_checking'
RULE = ('state = history of runs (configuration, format of the forcings) into '
        'one directory, which also holds the inputs in some; after every run '
        'its files equal those of the run into an empty directory, all other '
        'files, and every input, are as they were')
ASSUMPTIONS = ['files of earlier runs under other names stay, as the program '
               'cannot know whose they are']
MINIMUM = {'quick': 120, 'thorough': 600}
RUNS = {
    'sub': dict(time_step=180),
    'subD': dict(time_step=360, out_freq='D', prec_type='mix',
                 utc_offset=True),
    'day': dict(time_step=1440, out_precision='f4'),
    'dayD': dict(time_step=1440, out_freq='D', out_vars=['prec', 't_max']),
    'few': dict(time_step=180, out_vars=['temp'], chunks={'lat': 1},
                out_precision='f4'),
    'short': dict(time_step=180, stop='1952/02/28', out_prefix='p'),
    'threads': dict(time_step=240, scheduler='threads', num_workers=3,
                    chunks={'lat': 1, 'lon': 1}),
    'fail': dict(time_step=180, constant_vars={'t_min': 80.}),
    'refused': dict(time_step=7),
}
FORMATS = ['netcdf', 'data', 'ascii', 'binary', 'glob', 'data:noon',
           'data:cftime', 'data:names', 'data:more', 'data:lazy']


def items(tier):
    hs = [(a, b) for a in RUNS for b in RUNS]
    hs += [t for t in itertools.product(RUNS, repeat=3)
           if tier == 'thorough' or t[2] == 'sub' and t[0] != t[1]
           and 'sub' not in t[:2]]
    res = []
    for where in ('apart', 'same'):
        k = hs if where == 'apart' else hs[:81]
        for i in range(0, len(k), 9):
            res.append(dict(where=where, h=k[i:i + 9], fmt='netcdf'))
    for f in FORMATS[1:]:
        res.append(dict(where='apart', fmt=f, h=[(a, b) for a in RUNS
                                                 for b in ('sub', 'day')]))
    res.append(dict(where='leftovers', fmt='netcdf', h=[(a,) for a in RUNS]))
    return res


def tree(d):
    """Contents, permissions and times of all files."""
    res = {}
    for top, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(top, f)
            s = os.stat(p)
            with open(p, 'rb') as fh:
                res[os.path.relpath(p, d)] = (
                    hashlib.sha1(fh.read()).hexdigest(),
                    stat.S_IMODE(s.st_mode), s.st_mtime_ns)
    return res


def build(it, d):
    cs = [cell(5, seed=i, lat=0, lon=0, elev=100. + 300 * i)
          for i in range(4)]
    for c in cs:
        for v in c['forcing']:
            c['forcing'][v] = np.rint(c['forcing'][v] * 4) / 4
        c['forcing']['t_max'] = np.maximum(c['forcing']['t_max'],
                                           c['forcing']['t_min'] + 1)
    w = World(cs, kind='grid', shape=(2, 2), lats=[40., 50.],
              lons=[10., 20.], start='1952-02-26')
    w.write(d)
    return w


def setup(it, w, d, out, name):
    from checks.C09 import vic_params
    p = w.params(d, out=out, **copy.deepcopy(RUNS[name]))
    if it['fmt'] in ('ascii', 'binary'):
        q = dict(p)
        if not os.path.isdir(d + '/vic'):
            q = vic_params(q, w, d, it['fmt'], None)
            it['_vic'] = (list(q['forcing']), dict(q['forcing_vars']))
        p['forcing'], p['forcing_vars'] = list(it['_vic'][0]), \
            dict(it['_vic'][1])
        p['forcing_fmt'] = it['fmt']
    elif it['fmt'] == 'glob':
        if not os.path.isdir(d + '/parts'):
            os.makedirs(d + '/parts')
            f = w.forcing()
            for k in range(5):
                f.isel(time=slice(k, k + 1)).to_netcdf(
                    '%s/parts/f%d.nc' % (d, k))
        p['forcing'] = d + '/parts/f*.nc'
    elif it['fmt'] == 'data':
        p['forcing'], p['forcing_fmt'] = w.forcing(), 'data'
    elif it['fmt'].startswith('data'):
        f = w.forcing()
        if 'noon' in it['fmt']:
            f = f.assign_coords(time=f.indexes['time'] + np.timedelta64(9, 'h'))
        elif 'cftime' in it['fmt']:
            f = f.assign_coords(time=xr.cftime_range(
                str(w.start)[:10], periods=5, calendar='standard'))
        elif 'names' in it['fmt']:
            f = f.rename({v: 'my_' + v for v in f.data_vars})
            p['forcing_vars'] = {'my_' + v: v for v in p['forcing_vars']}
        elif 'more' in it['fmt']:
            f = f.astype('f4').transpose('lon', 'time', 'lat')
            f['more'] = f['prec'] * 2
            f['height'] = f['prec'].isel(time=0, drop=True)
            f = xr.concat([f.assign_coords(time=f.indexes['time'] -
                                           np.timedelta64(5, 'D')), f,
                           f.assign_coords(time=f.indexes['time'] +
                                           np.timedelta64(5, 'D'))], 'time',
                          data_vars='minimal')
        elif 'lazy' in it['fmt']:
            f = f.chunk({'time': 2, 'lat': 1})
        rain = [v for v in f.data_vars if 'prec' in v][0]
        f[rain].attrs['note'] = 'mine'
        f['time'].encoding['units'] = 'hours since 1900-01-01'
        f[rain].encoding['dtype'] = 'f4'
        p['forcing'], p['forcing_fmt'] = f, 'data'
    return p


def notes(ds):
    return {v: (dict(ds[v].attrs), dict(ds[v].encoding), ds[v].chunks,
                str(ds[v].dtype), ds[v].dims)
            for v in ds.variables}, dict(ds.attrs), dict(ds.encoding), \
        list(ds.variables), sorted(ds.coords)


def evaluate(it, r):
    it = dict(it)
    with tmpdir() as top:
        inp = top + '/in'
        w = build(it, inp)
        fresh = {}
        for n in sorted({x for h in it['h'] for x in h}):
            out = '%s/fresh_%s' % (top, n)
            try:
                world.run(setup(it, w, inp, out, n), read=False)
                fresh[n] = world.snapshot(out)
            except RunError as e:
                fresh[n] = None
            if (fresh[n] is None) != (n in ('fail', 'refused')):
                r.fail('fresh:%s:%s' % (it['fmt'], n), 'run %s alone %s' % (
                    n, 'raised' if fresh[n] is None else 'was accepted'))
                return
        for k, h in enumerate(it['h']):
            what = '%s:%s:%s' % (it['where'], it['fmt'], '->'.join(h))
            r.state(what)
            out = '%s/o%d' % (top, k)
            os.makedirs(out)
            if it['where'] == 'same':
                # the inputs lie in the output directory
                inp = out
                w = build(it, inp)
            elif it['where'] == 'leftovers':
                # what a crash may have left: truncated and foreign files
                for f in fresh[h[0]] or ():
                    with open('%s/fresh_%s/%s' % (top, h[0], f), 'rb') as a, \
                            open('%s/%s' % (out, f), 'wb') as b:
                        b.write(a.read()[:700] if k % 2 else b'')
                with open(out + '/notes.txt', 'w') as f:
                    f.write('mine')
                with open(out + '/forcing_19000101-19000102.nc', 'w') as f:
                    f.write('not netcdf')
            for j, n in enumerate(h):
                p = setup(it, w, inp, out, n)
                mine = set(fresh[n] or ())
                before, outb = tree(inp), tree(out)
                data = p['forcing'].copy(deep=True) \
                    if it['fmt'][:4] == 'data' else None
                held = p['forcing'] if data is not None else None
                about = notes(held) if data is not None else None
                keep = {a: copy.deepcopy(b) for a, b in p.items()
                        if a != 'forcing'}
                try:
                    world.run(p, read=False)
                    err = None
                except RunError as e:
                    err = str(e)
                r.trace()
                r.trans(len(before) + len(mine))
                if (err is None) != (fresh[n] is not None):
                    r.fail(what + ':error', 'run %d (%s) of %s: %s'
                           % (j, n, what, err))
                    break
                after, outa = tree(inp), tree(out)
                for f in before:
                    if it['where'] == 'same' and f in mine:
                        continue
                    if after.get(f) != before[f] and not (
                            err and f not in ('domain.nc', 'forcing.nc',
                                              'state.nc')
                            and it['where'] == 'same'):
                        r.fail(what + ':input', 'run %d (%s) of %s changed '
                               'the input %s' % (j, n, what, f))
                if it['where'] != 'same' and sorted(after) != sorted(before):
                    r.fail(what + ':litter', 'run %d (%s) of %s left files '
                           'among the inputs: %s' % (j, n, what, sorted(
                               set(after) - set(before))))
                if data is not None and not (
                        data.identical(held) and about == notes(held)):
                    r.fail(what + ':data', 'run %d (%s) of %s changed the '
                           'dataset passed in' % (j, n, what))
                for a in keep:
                    if a in p and p[a] != keep[a]:
                        r.fail(what + ':params', '%s changed from %r to %r'
                               % (a, keep[a], p[a]))
                if err is None:
                    new = set(outa) - set(outb)
                    if not mine <= set(outa) or new - mine:
                        r.fail(what + ':files', 'run %d (%s) of %s: files %s'
                               ', expected %s' % (j, n, what, sorted(outa),
                                                  sorted(mine)))
                        break
                    for f in set(outb) - mine:
                        if outa.get(f) != outb[f]:
                            r.fail(what + ':other', 'run %d (%s) of %s '
                                   'changed %s' % (j, n, what, f))
                    got = snap(out, mine)
                    e = world.snap_diff(fresh[n], got, skip=(
                        'attr:out_dir', 'attr:forcing', 'attr:domain',
                        'attr:state'))
                    if e:
                        r.fail(what + ':differs', 'run %d (%s) of %s: %s'
                               % (j, n, what, e))
                r.outcome(what, j, err)
    r.show({a: it[a] for a in ('where', 'fmt')})


def snap(out, names):
    import tempfile
    import shutil
    with tmpdir() as d:
        for f in names:
            shutil.copy('%s/%s' % (out, f), '%s/%s' % (d, f))
        return world.snapshot(d)
