"""No memory: what a run writes does not depend on what the same process did
before, nor on other MetSim objects that live in it."""
import itertools
import os

import numpy as np

from mc import world
from mc.lib import World, cell, tmpdir

LEVEL = 'model_checking'
RULE = ('state = a history of operations (make object, run it, read a '
        'configuration, failed run) in one process; after every history the '
        'files written by each run are compared, raw bytes and attributes, '
        'with those of the same run in a fresh process')
ASSUMPTIONS = ['the time of creation in the history attribute is ignored']
MINIMUM = {'quick': 150, 'thorough': 900}
INI = """
[MetSim]
time_step = 360
start = 1950/1/1
stop = 1950/1/3
forcing = {d}/forcing.nc
domain = {d}/domain.nc
state = {d}/state.nc
forcing_fmt = netcdf
out_dir = {out}
out_prefix = forcing
scheduler = sync
out_precision = f8
{opts}
[chunks]
[forcing_vars]
prec = prec
t_min = t_min
t_max = t_max
[state_vars]
prec = prec
t_min = t_min
t_max = t_max
[domain_vars]
lat = lat
lon = lon
mask = mask
elev = elev
t_pk = t_pk
dur = dur
{out_vars}
"""


def raw(w, d, out, **kw):
    """Parameters as a user gives them: only what is needed."""
    p = {'start': '1950/01/01', 'stop': '1950/01/03', 'out_dir': out,
         'forcing': d + '/forcing.nc', 'domain': d + '/domain.nc',
         'state': d + '/state.nc', 'forcing_fmt': 'netcdf',
         'time_step': 360, 'scheduler': 'sync',
         'forcing_vars': {'prec': 'prec', 't_min': 't_min', 't_max': 't_max'},
         'state_vars': {v: v for v in ('prec', 't_min', 't_max')},
         'domain_vars': {v: v for v in ('lat', 'lon', 'mask', 'elev', 't_pk',
                                        'dur')}}
    p.update(kw)
    return p


def op_params(name, w, d, out):
    import argparse
    from metsim import io
    ini = lambda opts='', ov='': INI.format(d=d, out=out, opts=opts,
                                            out_vars=ov)
    if name.startswith('ini'):
        os.makedirs(out, exist_ok=True)
        path = out + '/conf'
        with open(path, 'w') as f:
            f.write(ini("out_vars = ['prec', 'temp']\nprec_type = triangle",
                        '[out_vars]\ntemp = tas\nrel_humid = hurs')
                    if name == 'ini' else ini('utc_offset = True'))
        c = io.read_config(argparse.Namespace(
            config=path, scheduler='sync', num_workers=1, verbose=False))
        if name == 'ini2':
            # [out_vars] not given: the defaults
            c.pop('out_vars', None)
        return c
    kw = {
        'plain': {},
        'units': dict(out_vars={
            'temp': {'out_name': 'tas', 'units': 'K'},
            'prec': {'out_name': 'pr', 'units': 'mm s-1'},
            'tskc': {'out_name': 'tskc', 'units': '%'}}),
        'daily': dict(time_step=1440, method='passthrough', out_freq='D',
                      forcing_vars={v: v for v in (
                          'prec', 't_min', 't_max', 'shortwave')},
                      constant_vars={'wind': 3.5},
                      out_vars={'t_min': {'out_name': 'tn', 'units': 'K'},
                                'wind': {'out_name': 'wind'},
                                'shortwave': {'out_name': 'sw',
                                              'units': 'nonsense'}}),
        'opts': dict(prec_type='mix', utc_offset=True, period_ending=True,
                     lw_type='tva', lw_cloud='default', lapse_rate=0.004,
                     sw_prec_thresh=2.0, rain_scalar=.5, tday_coef=.3,
                     tmax_daylength_fraction=.5, out_precision='f8',
                     chunks={'hru': 1}, scheduler='threads', num_workers=2),
        'bad': dict(time_step=360, out_vars={'nope': {'out_name': 'nope'}}),
        'late': dict(stop='1950/02/03'),
    }[name]
    return raw(w, d, out, **kw)


# a run, and the same with one thing changed
ONE = {
    'time_step': [180, 1440], 'prec_type': ['triangle', 'mix'],
    'utc_offset': [True], 'period_ending': [True], 'out_freq': ['D'],
    'out_precision': ['f8'], 'lw_type': ['tva', 'brutsaert'],
    'lw_cloud': ['default'], 'sw_prec_thresh': [3.0], 'tdew_tol': [1e-2],
    'tmax_daylength_fraction': [.45], 'rain_scalar': [.4],
    'tday_coef': [.2], 'lapse_rate': [.003], 'method': ['passthrough'],
    'stop': ['1950/01/02'],
    'chunks': [{'hru': 1}], 'out_prefix': ['other'],
    'constant_vars': [{'wind': 2.25}],
    'forcing_vars': [{'prec': 'prec', 't_min': 't_min', 't_max': 't_max',
                      'wind': 'wind'}],
    'out_vars': [['temp'], {'temp': {'out_name': 'tas', 'units': 'K'}}],
    'world': ['elev', 'lat', 'lon', 'mask', 't_pk', 'dur', 'prec', 't_min',
              't_max', 'state', 'days', 'cells', 'dates'],
}
SAME_DIR = ('elev', 'prec', 'state')     # also: the file is written anew
NAMES = ['plain', 'units', 'daily', 'opts', 'ini', 'ini2', 'bad', 'late']


def histories(tier):
    res = [[('do', a), ('do', b)] for a in NAMES for b in NAMES]
    ok = NAMES[:6]
    # two objects alive at once: (new a, new b, run a, run b), ...
    for a, b in itertools.product(ok, repeat=2):
        A, B = [('new', a, 0), ('run', a, 0)], [('new', b, 1), ('run', b, 1)]
        res += [[A[0], B[0], A[1], B[1]], [A[0], B[0], B[1], A[1]]]
        res.append([A[0], B[0], A[1], A[1], B[1]])
    three = list(itertools.product(NAMES, repeat=3))
    if tier == 'quick':
        # the last one observes; every pair before it
        three = [t for t in three if t[2] in ('plain', 'ini2')
                 and t[0] != t[1]]
    res += [[('do', x) for x in t] for t in three]
    return res


def items(tier):
    h = histories(tier)
    n = max(4, len(h) // 64)
    s = ['sync', 'threads', 'processes', 'distributed']
    pairs = [(a, b) for a in s for b in s if a != b and (
        tier == 'thorough' or 'sync' in (a, b) or 'threads' in (a, b))]
    one = [dict(one=x, base=b) for x in ONE for b in ('uniform', 'triangle')
           if tier == 'thorough' or (b == 'triangle') == (
               x in ('world', 'utc_offset', 'time_step'))]
    return [dict(scheds=x) for x in pairs] + one + [dict(h=h[i:i + n]) for i in range(0, len(h), n)]


def make():
    cs = [cell(3, seed=i, lat=41. + 9 * i, lon=-100. + 80 * i,
               elev=10. + 500 * i) for i in range(2)]
    for i, c in enumerate(cs):
        c['forcing']['shortwave'] = 150. + 20 * i + 30 * np.arange(3)
    return World(cs)


def play(hist, w, d):
    """Run a history in this process; [(operation, error, snapshot)]."""
    import shutil
    mm = world.metsim_module()
    objs, res = {}, []
    for n, op in enumerate(hist):
        out = '%s/out_%s' % (d, op[1])
        k = (op[1], op[2] if len(op) > 2 else 'x')
        err = None
        with world.quiet():
            try:
                if op[0] in ('do', 'new'):
                    objs[k] = mm.MetSim(op_params(op[1], w, d, out))
                if op[0] in ('do', 'run'):
                    shutil.rmtree(out, ignore_errors=True)
                    objs[k].run()
            except Exception as e:
                err = '%s: %s' % (type(e).__name__, e)
        if op[0] != 'new':
            res.append((op[1], err, None if err else world.snapshot(out)))
    return res


def schedulers(it, r):
    """Objects with different schedulers, made one after the other."""
    a, b = it['scheds']
    with tmpdir() as d:
        w = make()
        w.write(d)
        # (in a process of its own: this one must not have run anything)
        _, e = world.forked(lambda: world.run(raw(w, d, d + '/ref'),
                                              read=False))
        if e:
            return r.fail('schedulers:raised', e)
        ref = world.snapshot(d + '/ref')
        for order in ([0, 1], [1, 0]):
            what = 'made %s, %s; run %s' % (a, b, ', '.join(
                it['scheds'][i] for i in order))
            ps = [raw(w, d, '%s/%d%d' % (d, order[0], i), scheduler=s,
                      num_workers=2, chunks={'hru': 1})
                  for i, s in enumerate((a, b))]
            res = world.sub_run(ps, d, order=order)
            r.state(what)
            r.trace(2)
            for i, e in zip(order, res):
                r.trans()
                if e:
                    r.fail('schedulers:error', '%s: the %s run: %s' % (
                        what, it['scheds'][i], e))
                    continue
                e = world.snap_diff(ref, world.snapshot(ps[i]['out_dir']),
                                    skip=('attr:scheduler', 'attr:chunks',
                                          'attr:num_workers',
                                          'attr:out_dir'))
                if e:
                    r.fail('schedulers:differs', '%s: the %s run wrote %s'
                           % (what, it['scheds'][i], e))
                r.outcome(what, i)


def changed(x):
    """The world with one thing changed."""
    w = make()
    for c in w.cells:
        if x in ('elev', 'lat', 'lon', 't_pk', 'dur'):
            c[x] = c[x] + 5.5
        elif x in c['forcing']:
            c['forcing'][x] = c['forcing'][x] + .75
            if x == 't_min':
                c['forcing']['t_max'] = c['forcing']['t_max'] + 3
        elif x == 'state':
            for v in c['state']:
                c['state'][v] = c['state'][v] + 1.5
        elif x == 'mask':
            w.cells[0]['mask'] = 0.
    if x == 'cells':
        return World(w.cells[::-1])
    if x == 'dates':
        return World(w.cells, start='1950-07-01')
    return w


def one(it, r):
    """Two runs in one process that differ in one thing, both orders."""
    mm = world.metsim_module()
    with tmpdir() as d:
        base = dict(prec_type=it['base'], out_vars={
            v: {'out_name': v} for v in world.SUB_VARS[:-1]})
        x = it['one']

        def go(change, out, where='w'):
            kw, w = dict(base), make()
            if x == 'world' and change is not None:
                if change == 'days':
                    kw['stop'] = '1950/01/02'
                elif change == 'dates':
                    kw.update(start='1950/07/01', stop='1950/07/03')
                w = changed(change)
                where = where if where == 'same' else 'w_%s' % change
            elif change is not None:
                kw[x] = change
                if x == 'method':
                    kw['forcing_vars'] = {v: v for v in (
                        'prec', 't_min', 't_max', 'shortwave')}
                if change == 1440:
                    kw['out_vars'] = {v: {'out_name': v} for v in (
                        'tskc', 'shortwave', 'vapor_pressure', 'pet')}
                if x == 'out_vars' and isinstance(change, list):
                    kw[x] = {v: {'out_name': v} for v in change}
            at = d + '/' + where
            if where == 'same' or not os.path.exists(at + '/state.nc'):
                w.write(at)
            with world.quiet():
                try:
                    mm.MetSim(raw(w, at, out, **kw)).run()
                except Exception as e:
                    return '%s: %s' % (type(e).__name__, e)
            return {f: {k: v for k, v in s.items() if k not in (
                'attr:out_dir', 'attr:forcing', 'attr:domain', 'attr:state')}
                for f, s in world.snapshot(out).items()}

        n = itertools.count()

        def play(seq, where='w'):
            v, e = world.forked(lambda: [go(c, '%s/o%d' % (d, i), where)
                                         for i, c in seq])
            return v if e is None else [e] * len(seq)
        for place in ('w', 'same'):
            alone = {}
            for c in [None] + ONE[x]:
                if place == 'same' and (x != 'world' or c not in (
                        None,) + SAME_DIR):
                    continue
                alone[str(c)] = play([(next(n), c)], place)[0]
                if isinstance(alone[str(c)], str):
                    r.fail('one:%s:raised' % x, '%s=%s: %s' % (
                        x, c, alone[str(c)]))
            for c in ONE[x]:
                if str(c) not in alone:
                    continue
                for seq in ([None, c], [c, None], [None, c, None]):
                    r.state(x, str(c), it['base'], place,
                            [s is None for s in seq])
                    got = play([(next(n), s) for s in seq], place)
                    r.trace(len(seq))
                    for s, g in zip(seq, got):
                        ref = alone[str(s)]
                        r.trans()
                        if isinstance(ref, str):
                            continue
                        e = g if isinstance(g, str) else \
                            world.snap_diff(ref, g)
                        if e:
                            r.fail('one:%s' % x, '%s (%s %s): the run with '
                                   '%s wrote %s' % (seq, x, place, s, e))
                        r.outcome(x, str(s))
        r.show(it)


def evaluate(it, r):
    if 'one' in it:
        return one(it, r)
    if 'scheds' in it:
        return schedulers(it, r)
    w = make()
    with tmpdir() as d:
        w.write(d)
        fresh = {}
        for n in sorted({op[1] for h in it['h'] for op in h}):
            v, e = world.forked(lambda: play([('do', n)], w, d))
            if e:
                raise RuntimeError(e)
            fresh[n] = v[0]
            if (v[0][1] is not None) != (n in ('bad', 'late')):
                r.fail('fresh:%s' % n, 'run %s alone: %s' % (n, v[0][1]))
        for h in it['h']:
            v, e = world.forked(lambda: play(h, w, d))
            what = ' -> '.join(' '.join(map(str, op)) for op in h)
            r.state(what)
            r.trace(len(h))
            if e:
                r.fail('history:died', '%s: %s' % (what, e))
                continue
            for n, err, snap in v:
                r.trans()
                _, err0, snap0 = fresh[n]
                r.outcome(n, err)
                if err != err0:
                    r.fail('history:%s:error' % n, '%s: %s ended with %r, '
                           'alone with %r' % (what, n, err, err0))
                elif snap0 is not None:
                    e = world.snap_diff(snap0, snap)
                    if e:
                        r.fail('history:%s:differs' % n, '%s: %s wrote %s'
                               % (what, n, e))
        r.show({'histories': it['h'][:3]})
