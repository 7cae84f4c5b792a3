"""Cells are independent: an active cell's output is that of running it alone,
and inactive cells are never computed."""
import itertools

import numpy as np

from mc import world
from mc.lib import World, cell, run_ok, tmpdir

LEVEL = 'model_checking'
RULE = ('state = (layout, mask pattern, mask encoding, what inactive cells '
        'hold) or (cell perturbed, input perturbed); each active cell is '
        'compared bit by bit with a run of that cell alone')
ASSUMPTIONS = ['mtclim iterates each cell on its own, so that bitwise '
               'equality is expected']
MINIMUM = {'quick': 150, 'thorough': 500}
OPTS = {'a': dict(time_step=360, prec_type='triangle', utc_offset=True),
        'b': dict(time_step=1440)}
N = 6
INPUTS = ['prec', 't_min', 't_max', 'wind', 'elev', 'lat', 'lon', 't_pk',
          'dur', 'state']
# cells that agree in everything but one input, and in that one nearly so
NEAR = {'lat': .3, 'lon': .3, 'elev': 3., 'prec': .3, 't_min': .3,
        't_max': .3, 'wind': .3, 't_pk': 3., 'dur': 3., 'state': .3}
# active / inactive values of the mask
CODES = {'01': (1., 0.), '1nan': (1., np.nan), '2-1': (2., -1.),
         '.5:0': (.5, 0.), 'int': (3, 0)}


def items(tier):
    res = []
    for o in OPTS:
        for lay in ('grid', 'yx', 'hru'):
            masks = list(range(1, 64))
            if tier == 'quick' and (o, lay) != ('a', 'grid'):
                masks = [m for m in masks if bin(m).count('1') in (1, 5)]
            for i in range(0, len(masks), 8):
                res.append(dict(k='mask', opt=o, lay=lay,
                                masks=masks[i:i + 8], code='01'))
            for c in list(CODES)[1:]:
                res.append(dict(k='mask', opt=o, lay=lay, masks=[11, 52],
                                code=c))
            res.append(dict(k='garbage', opt=o, lay=lay,
                            masks=[11, 52] if tier == 'quick'
                            else list(range(1, 63, 3))))
            for x in INPUTS:
                if (lay == 'grid' and x in ('lat', 'lon')) or (
                        o == 'b' and x in ('t_pk', 'dur')):
                    continue
                if tier == 'quick' and lay != 'hru' and x not in (
                        'elev', 't_max', 't_pk', 'state'):
                    continue
                res.append(dict(k='perturb', opt=o, lay=lay, x=x))
        res.append(dict(k='none', opt=o, lay='hru'))
        for x in NEAR:
            if o == 'b' and x in ('t_pk', 'dur', 'lon'):
                continue
            res.append(dict(k='near', opt=o, lay='hru', x=x))
            if x in ('lat', 'lon'):
                res.append(dict(k='near', opt=o, lay='yx', x=x))
    return res


def cells():
    res = [cell(3, seed=i, lat=[40., 40., 40., 55., 55., 55.][i],
                 lon=[-100., 10., 170.][i % 3], elev=10. + 400 * i,
                 t_pk=600. + 40 * i + 5 * np.arange(12),
                 dur=200. + 30 * i + 7 * np.arange(12)) for i in range(N)]
    for c in res:
        c['forcing']['prec'] = c['forcing']['prec'] + .5
    return res


def make(cs, lay):
    if lay == 'grid':
        return World(cs, kind='grid', shape=(2, 3), lats=[40., 55.],
                     lons=[-100., 10., 170.], start='1951-01-30')
    if lay == 'yx':
        return World(cs, kind='yx', shape=(2, 3), start='1951-01-30')
    return World(cs, start='1951-01-30')


def go(r, cs, lay, o, tag):
    with tmpdir() as d:
        w = make(cs, lay)
        w.write(d)
        ds = run_ok(r, tag, world.run, w.params(d, **OPTS[o]))
    if ds is None:
        return None
    r.trace()
    return {v: ds[v].values.reshape(len(ds.time), -1) for v in ds.data_vars}


def alone(r, o, cs=None):
    """Each cell in a process that has run no other."""
    res = []
    for c in cs or cells():
        x, e = world.forked(lambda: go(r, [c], 'hru', o, 'alone'))
        if e or x is None:
            r.fail('alone:raised', 'a cell alone: %s' % (e or 'failed'))
            x = None
        res.append(x)
    return res


def near(it, r):
    """Neighbours that agree in all inputs but one."""
    o, lay, x = it['opt'], it['lay'], it['x']
    for scale in (1., .1, .01):
        cs = []
        for i in range(N):
            c = cell(3, seed=2, lat=47.25, lon=10.125, elev=250.)
            c['forcing']['prec'] = c['forcing']['prec'] + .5
            d = NEAR[x] * scale * (i, 0, -i)[i % 3]
            if x in c['forcing']:
                c['forcing'][x] = c['forcing'][x] + d * np.array([0, 1, 0])
            elif x == 'state':
                c['state']['t_max'] = c['state']['t_max'] + d
                c['state']['t_min'] = c['state']['t_min'] - d
            else:
                c[x] = c[x] + d
            cs.append(c)
        key = 'near,%s,%s,%s' % (o, lay, x)
        r.state(key, scale)
        ref = alone(r, o, cs)
        got = go(r, cs, lay, o, key)
        if got is None or None in ref:
            continue
        for i in range(N):
            same_cell(r, key, got, ref[i], i, 'neighbours differ in %s by %g'
                      % (x, NEAR[x] * scale))
        r.outcome(key, scale, [round(float(v[:, N - 1].sum()), 9)
                               for v in got.values()])


def same_cell(r, key, got, ref, i, what):
    for v in ref:
        r.trans(len(ref[v]))
        if not world.same(got[v][:, i], ref[v][:, 0]):
            j = int(np.argmax(got[v][:, i] != ref[v][:, 0]))
            r.fail(key, '%s: %s of cell %d is %r at step %d, %r when run '
                   'alone' % (what, v, i, got[v][j, i], j, ref[v][j, 0]))
            return


def evaluate(it, r):
    o, lay, k = it['opt'], it['lay'], it['k']
    if k == 'near':
        return near(it, r)
    ref = alone(r, o)
    if None in ref:
        return
    if k in ('mask', 'garbage'):
        for m in it['masks']:
            on, off = CODES[it.get('code', '01')]
            cs = cells()
            act = [bool(m >> i & 1) for i in range(N)]
            for c, a in zip(cs, act):
                c['mask'] = on if a else off
                if k == 'garbage' and not a:
                    for j, v in enumerate(c['forcing']):
                        c['forcing'][v] = np.full(3, [np.nan, 1e20, -999.,
                                                      np.inf][j])
                    c['state']['t_max'] = np.full(90, np.nan)
                    c['t_pk'] = np.full(12, np.nan)
                    c['elev'] = np.nan
            key = '%s,%s,%s,%s' % (k, o, lay, it.get('code'))
            r.state(key, m)
            got = go(r, cs, lay, o, key)
            if got is None:
                continue
            for i in range(N):
                if act[i]:
                    same_cell(r, key + ':active', got, ref[i], i,
                              'mask %s' % act)
                    continue
                for v in got:
                    r.trans()
                    if not np.isnan(got[v][:, i]).all():
                        r.fail(key + ':inactive', 'mask %s: %s is present at '
                               'inactive cell %d' % (act, v, i))
            r.outcome(key, m)
    elif k == 'perturb':
        base = go(r, cells(), lay, o, 'perturb')
        for i in range(N):
            cs = cells()
            c, x = cs[i], it['x']
            if x in c['forcing']:
                c['forcing'][x] = c['forcing'][x] * 1.25 + 1.0
                if x == 't_min':
                    c['forcing']['t_max'] = c['forcing']['t_max'] + 10
            elif x in ('elev', 'lat', 'lon'):
                c[x] += 7.25
            elif x == 'state':
                for v in c['state']:
                    c['state'][v] = c['state'][v] + (
                        3. if v == 't_max' else 1.)
            else:
                c[x] = c[x] * .9
            key = 'perturb,%s,%s,%s' % (o, lay, x)
            got = go(r, cs, lay, o, key)
            if got is None or base is None:
                continue
            r.state(key, i)
            changed = set()
            for v in got:
                for j in range(N):
                    r.trans()
                    if not world.same(got[v][:, j], base[v][:, j]):
                        if j == i:
                            changed.add(v)
                        else:
                            r.fail(key + ':leak', '%s of cell %d changes '
                                   'with %s of cell %d' % (v, j, x, i))
            if not changed and not (x == 'lon' and o == 'b'):
                r.fail(key + ':ignored', '%s of cell %d changes nothing'
                       % (x, i))
            r.outcome(key, sorted(changed))
    else:
        cs = cells()
        for c in cs:
            c['mask'] = 0.
        got = go(r, cs, lay, o, 'none')
        r.state('none', o)
        if got is not None and any(np.isfinite(x).any()
                                   for x in got.values()):
            r.fail('none,%s' % o, 'output at inactive cells')
        r.outcome('none', o)
    r.show(it)
