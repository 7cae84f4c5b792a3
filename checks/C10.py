"""Inputs are matched to cells by coordinate, never by position."""
import itertools
import os

import numpy as np
import xarray as xr

from mc import world
from mc.lib import World, cell, run_ok, tmpdir

LEVEL = 'model_checking'
RULE = ('state = (layout, which file, order of its coordinates, order of its '
        'dimensions, cells it has beyond the domain); output is compared, '
        'coordinate by coordinate, with the run of files in the order of the '
        'domain')
ASSUMPTIONS = ['coordinates of the files are equal, not just near, to those '
               'of the domain']
MINIMUM = {"quick": 120, "thorough": 150}
LATS, LONS = [40., 47.5], [-100., 10., 170.]
OPT = dict(time_step=360, prec_type='mix', utc_offset=True)


def variants(tier):
    """(file, what, detail)"""
    res = []
    orders = [(a, b) for a in itertools.permutations(range(2))
              for b in itertools.permutations(range(3))]
    dims = list(itertools.permutations(('time', 'lat', 'lon')))
    for f in ('forcing', 'state'):
        for o in orders:
            for k, t in enumerate(dims):
                if tier == 'quick' and (k + sum(o[1][:1])) % 3:
                    continue
                res.append((f, o, t, 0))
        for o in orders[::3]:
            res.append((f, o, dims[2], 2))
    for o in orders:
        # forcing and state in different orders
        res.append(('both', o, dims[1], 1))
        for t in ([0, 1] if tier == 'quick' else [0, 1, 2, 3]):
            res.append(('domain', o, t, 0))
    res += [('mixed', i, None, 0) for i in range(4)]
    return res


def items(tier):
    vs = variants(tier)
    res = [dict(lay='grid', vs=vs[i:i + 8]) for i in range(0, len(vs), 8)]
    perms = list(itertools.permutations(range(4)))
    hv = [(f, p, x) for f in ('forcing', 'state', 'domain')
          for p in (perms[::4] + perms[-1:] if tier == 'quick' else perms)
          for x in (0, 1)]
    res += [dict(lay='hruc', vs=hv[i:i + 8]) for i in range(0, len(hv), 8)]
    res += [dict(lay='grid', vs=[('subset', a, b, f) for a in range(2)
                                 for b in range(3)
                                 for f in ('forcing', 'state')]),
            dict(lay='lack', vs=[(f, i) for f in ('forcing', 'state')
                                 for i in range(3)])]
    # files named by their coordinates
    vic = [(fmt, o, t) for fmt in ('ascii', 'binary')
           for o in itertools.product(itertools.permutations(range(2)),
                                      itertools.permutations(range(3)))
           for t in (('lat', 'lon'), ('lon', 'lat'))]
    if tier == 'quick':
        vic = vic[::3] + vic[1::9]
    res += [dict(lay='vic', vs=vic[i:i + 6]) for i in range(0, len(vic), 6)]
    return res


def cells(n):
    return [cell(3, seed=i, lat=30. + 5 * i, lon=-100. + 45 * i,
                 elev=50. + 300 * i, t_pk=600. + 40 * i + 5 * np.arange(12),
                 dur=200. + 30 * i + 7 * np.arange(12)) for i in range(n)]


def beyond(ds, dim, n):
    """More cells than the domain has, on both sides of it."""
    c = ds[dim].values.astype(float)
    step = 3.25
    lo = [c.min() - step * (k + 1) for k in range(n)]
    hi = [c.max() + step * (k + 1) for k in range(n)]
    more = ds.isel({dim: [0] * (2 * n)}) * 0 + 99
    more = more.assign_coords({dim: lo + hi})
    a = more.isel({dim: slice(0, n)})
    b = more.isel({dim: slice(n, 2 * n)})
    x = ds.assign_coords({dim: c})
    return xr.concat([a, x, b], dim=dim)


def evaluate(it, r):
    if it['lay'] == 'lack':
        return lack(it, r)
    if it['lay'] == 'vic':
        return vic(it, r)
    grid = it['lay'] == 'grid'
    mask = [1., 1., 0., 1., 1., 1.] if grid else [1., 1., 1., 0.]
    cs = cells(len(mask))
    for c, m in zip(cs, mask):
        c['mask'] = m
    w = World(cs, kind='grid', shape=(2, 3), lats=LATS, lons=LONS) if grid \
        else World(cs, kind='hruc')
    sp = ['lat', 'lon'] if grid else ['hru']
    with tmpdir() as top:
        w.write(top)
        ref = run_ok(r, 'ref', world.run, w.params(top, out=top + '/ref',
                                                   **OPT))
        if ref is None:
            return
        for n, v in enumerate(it['vs']):
            d = '%s/v%d' % (top, n)
            os.makedirs(d)
            f = {'domain': w.domain(), 'forcing': w.forcing(),
                 'state': w.state()}
            expect = ref
            key = '%s,%s' % (it['lay'], v[0])
            if v[0] == 'subset':
                # the domain is one cell of the files
                f['domain'] = f['domain'].isel(lat=[v[1]], lon=[v[2]])
                expect = ref.isel(lat=[v[1]], lon=[v[2]])
                if v[3] == 'state':
                    f['state'] = f['state'].isel(lat=[v[1]], lon=[v[2]])
            elif v[0] == 'mixed':
                # the variables of the domain in different orders
                g = f['domain']
                for k, x in enumerate(('elev', 't_pk', 'dur')):
                    if v[1] == k or v[1] == 3:
                        g[x] = g[x].transpose(*reversed(g[x].dims))
            elif grid:
                ix = {'lat': list(v[1][0]), 'lon': list(v[1][1])}
                for k in (('forcing', 'state') if v[0] == 'both'
                          else (v[0],)):
                    g = f[k].isel(**ix)
                    if k == 'domain':
                        dims = [('month', 'lat', 'lon'),
                                ('lon', 'lat', 'month'),
                                ('lat', 'month', 'lon'),
                                ('lon', 'month', 'lat')][v[2]]
                        expect = ref.isel(**ix)
                        mo = 'lat' if dims.index('lat') < dims.index('lon') \
                            else 'lon'
                        expect = expect.transpose('time', mo, 'lon' if
                                                  mo == 'lat' else 'lat')
                        g = g.transpose(*dims)
                    else:
                        g = g.transpose(*v[2])
                        if v[3]:
                            g = beyond(beyond(g, 'lat', v[3]), 'lon', v[3])
                    f[k] = g
                    ix = {'lat': ix['lat'][::-1],
                          'lon': ix['lon'][1:] + ix['lon'][:1]}
            else:
                g = f[v[0]].isel(hru=list(v[1]))
                if v[0] == 'domain':
                    expect = ref.isel(hru=list(v[1]))
                elif v[2]:
                    g = beyond(g, 'hru', 2)
                f[v[0]] = g
            for k in f:
                f[k].to_netcdf('%s/%s.nc' % (d, k))
            r.state(it['lay'], v)
            kw = dict(OPT)
            if n % 2 and v[0] != 'subset':
                kw['chunks'] = {sp[-1]: 2}
            got = run_ok(r, '%s:%s' % (key, v), world.run, w.params(
                d, **kw))
            if got is None:
                continue
            r.trace()
            for c in sp:
                if not np.array_equal(got[c], expect[c]):
                    r.fail(key + ':coord', '%s: %s is %s, expected %s' % (
                        v, c, got[c].values, expect[c].values))
            e = world.same_ds(expect, got)
            r.trans(sum(x.size for x in expect.data_vars.values()))
            if e:
                r.fail(key + ':differs', '%s: %s' % (v, e))
            r.outcome(it['lay'], v[0], v[1])
    r.show(it)


def lack(it, r):
    """A file without one of the cells of the domain must be refused."""
    for f, i in it['vs']:
        w = World(cells(3), kind='hruc')
        with tmpdir() as d:
            w.write(d)
            g = (w.forcing() if f == 'forcing' else w.state()).isel(
                hru=[k for k in range(3) if k != i])
            g.to_netcdf('%s/%s.nc' % (d, f))
            r.state('lack', f, i)
            try:
                world.run(w.params(d, **OPT))
                r.fail('lack:%s' % f, 'the %s file lacks cell %d, and the '
                       'run went through' % (f, i))
            except world.RunError:
                pass
            r.trace()
            r.outcome('lack', f)
    r.show(it)


def vic(it, r):
    """The domain in any order, the forcings in a file for each cell."""
    from checks.C09 import SCALE, vic_params
    cs = cells(6)
    cs[2]['mask'] = 0.
    for c in cs:
        f = c['forcing']
        for v in f:
            f[v] = np.rint(f[v] * SCALE[v][0]) / SCALE[v][0]
        f['t_max'] = np.maximum(f['t_max'], f['t_min'] + 1)
    w = World(cs, kind='grid', shape=(2, 3), lats=LATS, lons=LONS)
    with tmpdir() as top:
        w.write(top)
        ref = run_ok(r, 'ref', world.run, w.params(top, out=top + '/ref',
                                                   **OPT))
        if ref is None:
            return
        for n, (fmt, o, dims) in enumerate(it['vs']):
            d = '%s/v%d' % (top, n)
            os.makedirs(d)
            ix = {'lat': list(o[0]), 'lon': list(o[1])}
            w.domain().isel(**ix).transpose('month', *dims).to_netcdf(
                d + '/domain.nc')
            w.forcing().to_netcdf(d + '/forcing.nc')
            w.state().to_netcdf(d + '/state.nc')
            p = vic_params(w.params(d, **OPT), w, d, fmt,
                           [5, 0, 3, 1, 4, 2][n:] + [5, 0, 3, 1, 4, 2][:n])
            r.state('vic', fmt, o, dims)
            key = 'vic,%s:%s,%s' % (fmt, o, dims)
            got = run_ok(r, key, world.run, p)
            if got is None:
                continue
            r.trace()
            expect = ref.isel(**ix).transpose('time', *dims)
            for c in ('lat', 'lon'):
                if not np.array_equal(got[c], expect[c]):
                    r.fail(key + ':coord', '%s is %s, expected %s' % (
                        c, got[c].values, expect[c].values))
            e = world.same_ds(expect, got)
            r.trans(sum(x.size for x in expect.data_vars.values()))
            if e:
                r.fail(key + ':differs', e)
            r.outcome('vic', fmt, dims)
    r.show(it)
