"""What an object runs is what its parameters say when it runs."""
import copy
import itertools
import os
import shutil

import numpy as np
import xarray as xr

from mc import world
from mc.lib import World, cell, tmpdir
from mc.world import RunError, quiet

LEVEL = 'model_checking'
RULE = ('state = (sequence of operations on one object: parameters set, inputs '
        'looked at, loaded, run, output opened); after each run the files are '
        'compared with those of a new object made with the parameters of the '
        'moment, and a run that a new object refuses must be refused')
ASSUMPTIONS = ['parameters are set in ms.params before ms.run()',
               'objects are run with schedulers in this process']
MINIMUM = {'quick': 300, 'thorough': 5000}
DAILY = ['prec', 'shortwave', 'tskc', 'vapor_pressure', 'wind']
SETS = {
    'hour': dict(time_step=60),
    'day': dict(time_step=1440, out_vars=DAILY),
    'six': dict(time_step=360, out_vars=DAILY),
    'tri': dict(prec_type='triangle'),
    'utc': dict(utc_offset=True),
    'tva': dict(lw_type='tva', lw_cloud='default'),
    'pe': dict(period_ending=True),
    'D': dict(out_freq='D'),
    'f4': dict(out_precision='f4'),
    'chunk': dict(chunks={'hru': 1}),
    'rain': dict(rain_scalar=.3, tdew_tol=1e-4),
    'later': dict(start='1951/12/31'),
    'sooner': dict(stop='1951/12/31'),
    'units': dict(out_vars={
        'prec': {'out_name': 'rain', 'units': 'mm s-1'},
        'tskc': {'out_name': 'cloud', 'units': '%'},
        'wind': {'out_name': 'wind', 'units': 'm s-1'}}),
    'plain': dict(out_vars={v: {'out_name': v} for v in ('prec', 'tskc')}),
    'x': dict(out_prefix='x'),
    'threads': dict(scheduler='threads', num_workers=2),
    'const': dict(constant_vars={'wind': 7., 'prec': 2.}),
    'lapse': dict(lapse_rate=.004, tmax_daylength_fraction=.4),
    'pt': dict(method='passthrough'),
    'forcing': dict(forcing='forcing2.nc'),
    'state': dict(state='state2.nc'),
    'domain': dict(domain='domain2.nc'),
    # domains of different sizes, cut in the same way
    'part': dict(domain='domain3.nc', chunks={'hru': 1}),
    'whole': dict(domain='domain.nc', chunks={'hru': 1}),
    # (can not be run)
    'bad': dict(lw_type='nonsense'),
    'bad7': dict(time_step=7),
}
OPS = ('look', 'load', 'run', 'open')


def sequences(tier):
    """Each ends with a run, as yet unwritten; simplest first."""
    ss = list(SETS)
    res = [(a,) for a in ss]
    res += [(o, a) for o in OPS[:3] for a in ss]
    res += [('run', 'open', a) for a in ss[::2]]
    pairs = list(itertools.permutations(ss, 2))
    # one way and another, with a run between
    if tier == 'quick':
        res += [(a, 'run', b) for k, (a, b) in enumerate(pairs) if k % 3 == 0]
        res += [(a, b) for k, (a, b) in enumerate(pairs) if k % 9 == 1]
        res += [('run', a, 'run', 'base') for a in ss]
        res += [s for s in (('part', 'run', 'whole'),
                            ('whole', 'run', 'part')) if s not in res]
    else:
        res += [(a, o, b) for o in OPS[:3] for a, b in pairs]
        res += pairs
        res += [('run', a, 'run', b) for a, b in pairs]
        res += [('run', a, o, 'base') for a in ss for o in OPS[:3]]
    return res


def items(tier):
    seqs = sequences(tier)
    # those with the same first setting share what they are compared with
    seqs.sort(key=lambda s: list(SETS).index(next(x for x in s if x in SETS)))
    n = 12 if tier == 'quick' else 40
    return [dict(scheds=s) for s in schedulers(tier)] + [
        dict(seqs=[list(s) for s in seqs[i:i + n]])
        for i in range(0, len(seqs), n)]


def schedulers(tier):
    """What the object is made with, and what each run of it is to use."""
    if tier == 'quick':
        return [['threads', 'distributed', 'distributed'],
                ['threads', 'processes', 'distributed', 'threads'],
                ['distributed', 'distributed', 'processes', 'distributed'],
                ['distributed', 'threads', 'distributed']]
    return [list(s) for s in itertools.product(
        ('distributed', 'threads', 'processes', 'sync'), repeat=4)]


def build(d):
    cs = [cell(4, seed=i, lat=30. + 15 * i, lon=-100. + 95 * i,
               elev=100. + 700 * i) for i in range(2)]
    for i, c in enumerate(cs):
        c['forcing']['shortwave'] = 120. + 25 * i + 30 * np.arange(4)
    w = World(cs, kind='hruc', start='1951-12-30')
    w.write(d)
    f, s, g = w.forcing(), w.state(), w.domain()
    # one state for either of the starts
    xr.concat([s, f[list(s.data_vars)].isel(time=[0])], dim='time').to_netcdf(
        d + '/state.nc')
    (xr.concat([s, f[list(s.data_vars)].isel(time=[0])], dim='time') * .5
     ).to_netcdf(d + '/state2.nc')
    f['t_max'] = f['t_max'] + 3
    f['prec'] = f['prec'] * 2
    f.to_netcdf(d + '/forcing2.nc')
    g.isel(hru=[1]).to_netcdf(d + '/domain3.nc')
    g['elev'] = g['elev'] + 900
    g['mask'] = g['mask'] * [1, 0]
    g.to_netcdf(d + '/domain2.nc')
    return w


def base(w, d):
    p = w.params(d, time_step=180, out_vars=[
        'temp', 'prec', 'shortwave', 'vapor_pressure', 'longwave', 'tskc',
        'wind', 'air_pressure'])
    p['constant_vars'] = {}
    return p


def changes(name, w, d):
    c = copy.deepcopy(SETS[name])
    for k in ('forcing', 'state', 'domain'):
        if k in c:
            c[k] = '%s/%s' % (d, c[k])
    if isinstance(c.get('out_vars'), list):
        c['out_vars'] = world.out_vars(c['out_vars'])
    return c


def content(out):
    """Everything in the files but when and where they were made."""
    res = {}
    for name, ds in world.read_outputs(out):
        attrs = {k: str(v) for k, v in ds.attrs.items()
                 if k not in ('history', 'out_dir')}
        va = {v: {k: str(x) for k, x in ds[v].attrs.items()}
              for v in ds.variables}
        res[name] = ds, attrs, va
    return res


def compare(a, b):
    if sorted(a) != sorted(b):
        return 'files %s, a new object writes %s' % (sorted(b), sorted(a))
    for n in a:
        e = world.same_ds(a[n][0], b[n][0])
        if e:
            return '%s: %s' % (n, e)
        if not np.array_equal(a[n][0]['time'].values, b[n][0]['time'].values):
            return '%s: other times' % n
        if a[n][2] != b[n][2]:
            bad = [v for v in a[n][2] if a[n][2][v] != b[n][2].get(v)]
            return '%s: attributes of %s are %s, of a new object %s' % (
                n, bad[0], b[n][2].get(bad[0]), a[n][2][bad[0]])
        if a[n][1] != b[n][1]:
            ks = [k for k in set(a[n][1]) | set(b[n][1])
                  if a[n][1].get(k) != b[n][1].get(k)]
            return '%s: global attribute %s is %r, of a new object %r' % (
                n, ks[0], b[n][1].get(ks[0]), a[n][1].get(ks[0]))
    return None


def switch(it, r):
    """One object is run with one scheduler after another."""
    made, runs = it['scheds'][0], it['scheds'][1:]
    tag = '.'.join(it['scheds'])
    with tmpdir() as d:
        w = build(d)
        p = dict(base(w, d), chunks={'hru': 1}, num_workers=2)
        cs = [dict(time_step=180), dict(time_step=60, utc_offset=True),
              dict(time_step=1440, out_vars=world.out_vars(
                  ['prec', 't_min', 'shortwave']))]
        order, want, now = [], [], copy.deepcopy(p)
        for k, s in enumerate(runs):
            c = dict(cs[k % 3], scheduler=s)
            order += [c, 'run']
            now.update(copy.deepcopy(c))
            q = copy.deepcopy(now)
            q.update(scheduler='sync', out_dir='%s/f%d' % (d, k))
            world.run(q, read=False)
            want.append(content(q['out_dir']))
        res = world.sub_run([dict(p, out_dir=d + '/o', scheduler=made)], d,
                            order=order)
        r.trans(len(order))
        if len(res) != len(runs):
            res = res[:1] * len(runs)
        for k, e in enumerate(res):
            r.state(tuple(it['scheds'][:k + 2]))
            r.trace()
            key = '%s:%d' % (tag, k)
            if e:
                r.fail(key + ':raised', 'made with %s; run %d, with %s: %s, a '
                       'new object does not' % (made, k, runs[k], e))
                return
            got = content('%s/o.%d' % (d, k))
            for x in (want[k], got):
                for n in x:
                    # (what differs by intention)
                    for a in ('scheduler', 'chunks', 'num_workers'):
                        x[n][1].pop(a, None)
            e = compare(want[k], got)
            if e:
                r.fail(key + ':differs', 'made with %s; run %d, with %s: %s'
                       % (made, k, runs[k], e))
                return
            r.outcome(tag, k)
    r.show(it)


def evaluate(it, r):
    if 'scheds' in it:
        return switch(it, r)
    mm = world.metsim_module()
    with tmpdir() as d:
        w = build(d)
        fresh = {}

        def expected(p, key):
            if key not in fresh:
                q = dict(copy.deepcopy(p), out_dir='%s/f%d' % (d, len(fresh)))
                try:
                    world.run(q, read=False)
                    fresh[key] = content(q['out_dir'])
                except RunError as e:
                    fresh[key] = None
            return fresh[key]

        for n, seq in enumerate(it['seqs']):
            tag = '.'.join(seq)
            p = dict(base(w, d), out_dir='%s/o%d' % (d, n))
            now = copy.deepcopy(p)
            current = []
            os.makedirs(p['out_dir'])
            with quiet():
                ms = mm.MetSim(copy.deepcopy(p))
            err = None
            for k, op in enumerate(list(seq) + ['run']):
                r.trans()
                if op == 'base':
                    c, current = base(w, d), []
                    c.pop('out_dir')
                elif op in SETS:
                    c = changes(op, w, d)
                    current = [x for x in current if not set(
                        SETS[x]) <= set(SETS[op])] + [op]
                else:
                    c = None
                if c is not None:
                    ms.params.update(copy.deepcopy(c))
                    now.update(copy.deepcopy(c))
                    continue
                r.state(tuple(seq[:k]), op)
                want = expected(now, tuple(current))
                try:
                    with quiet():
                        if op == 'look':
                            ms.domain, ms.met_data, ms.state, ms.slices
                        elif op == 'load':
                            ms.load_inputs()
                        elif op == 'open':
                            ms.open_output().close()
                        else:
                            for f in world.out_files(p['out_dir']):
                                os.unlink(f)
                            ms.run()
                    ok = True
                except Exception as e:
                    if want is not None:
                        r.fail(tag + ':raised', '%s: %s (at %d) raised %s: %s,'
                               ' a new object does not' % (
                                   tag, op, k, type(e).__name__, e))
                        break
                    ok = False
                if op != 'run':
                    continue
                r.trace()
                if want is None:
                    if ok:
                        r.fail(tag + ':accepted', '%s: the run (at %d) was not'
                               ' refused' % (tag, k))
                        break
                    continue
                err = compare(want, content(p['out_dir']))
                if err:
                    r.fail(tag + ':differs', '%s: run at %d: %s' % (
                        tag, k, err))
                    break
                r.outcome(tuple(current))
            shutil.rmtree(p['out_dir'])
    r.show(it)
