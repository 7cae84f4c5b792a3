"""Decomposition invariance: the output does not depend on how the domain is
cut into chunks, nor on who works on them."""
import itertools

import numpy as np

from mc import world
from mc.lib import World, cell, run_ok, text, tmpdir

LEVEL = 'model_checking'
RULE = ('state = (layout, mask, chunk sizes incl. their order, scheduler, '
        'workers, option set); every state is one run of the whole program, '
        'compared bit by bit with the run that does not cut the domain')
ASSUMPTIONS = ['the multi-process schedulers are explored on a subset of the '
               'chunkings (each run starts processes)']
MINIMUM = {'quick': 250, 'thorough': 600}
LAYOUTS = {'grid': dict(kind='grid', shape=(2, 3), lats=[40., 47.],
                        lons=[-100., 10., 170.]),
           'lonlat': dict(kind='grid', shape=(3, 2), dims=('lon', 'lat'),
                          lats=[47., 40.], lons=[-100., 10., 170.]),
           'hru': dict(kind='hru'), 'hruc': dict(kind='hruc'),
           'yx': dict(kind='yx', shape=(2, 3))}
MASKS = {'full': [1, 1, 1, 1, 1, 1], 'holes': [0, 1, 1, 1, 0, 1],
         'corner': [0, 0, 0, 0, 1, 0]}
OPTS = {'plain': dict(time_step=180),
        'mix': dict(time_step=360, prec_type='mix', utc_offset=True,
                    out_precision='f4', out_freq='D'),
        'daily': dict(time_step=1440, period_ending=True),
        'const': dict(time_step=240, method='passthrough', out_freq='2D',
                      constant_vars={'wind': 2.5})}


def make(layout, mask, nd=3):
    n = 5 if layout.startswith('hru') else 6
    cs = [cell(nd, seed=i, lat=30. + 3 * i, lon=-120. + 41 * i,
               elev=10. + 400 * i, mask=float(MASKS[mask][i]))
          for i in range(n)]
    for i, c in enumerate(cs):
        if layout == 'hru':
            c['forcing'].pop('wind')
        c['forcing']['shortwave'] = 150. + 20 * i + 30 * np.arange(nd)
    return World(cs, start='1952-02-28', **LAYOUTS[layout])


def chunkings(layout):
    w = LAYOUTS[layout]
    if layout.startswith('hru'):
        return [{'hru': k} for k in range(1, 7)]
    dims = w.get('dims') or (('lat', 'lon') if layout == 'grid'
                             else ('y', 'x'))
    a, b = dims
    na, nb = w['shape']
    res = [{a: k} for k in range(1, na + 2)]
    res += [{b: k} for k in range(1, nb + 2)]
    for i, j in itertools.product(range(1, na + 2), range(1, nb + 2)):
        res += [{a: i, b: j}, {b: j, a: i}]
    return res


def items(tier):
    res = []
    for lay in LAYOUTS:
        for mk in MASKS:
            for o in OPTS:
                if tier == 'quick' and (mk, o) not in (
                        ('full', 'mix'), ('holes', 'plain'),
                        ('holes', 'const'), ('corner', 'daily')):
                    continue
                cks = chunkings(lay)
                for i in range(0, len(cks), 8):
                    res.append(dict(lay=lay, mask=mk, opt=o, sched='sync',
                                    chunks=cks[i:i + 8], workers=[1]))
        one = chunkings(lay)
        some = [one[0], one[-1]] if tier == 'quick' else one[::4] + one[-1:]
        res.append(dict(lay=lay, mask='holes', opt='mix', sched='threads',
                        chunks=one[:4], workers=[1, 2, 3, 8]))
        for s in ('processes', 'distributed'):
            for w in ([2] if tier == 'quick' else [1, 2, 3]):
                if tier == 'quick' and lay in ('lonlat', 'hruc'):
                    continue
                res.append(dict(lay=lay, mask='holes', opt='mix', sched=s,
                                chunks=some[:1] if tier == 'quick' else some,
                                workers=[w]))
    # a cluster that runs already; a debugging run
    for by in ('address', 'file'):
        for n, t in ([(1, 3)] if by == 'file' else [(2, 2)]) \
                if tier == 'quick' else [(1, 3), (2, 1), (2, 2), (3, 2)]:
            res.append(dict(lay='grid', mask='holes', opt='mix',
                            sched='distributed', chunks=chunkings('grid')[:1],
                            workers=[1], cluster=[by, n, t]))
    for s in ('threads', 'distributed', 'processes', 'sync'):
        res.append(dict(lay='grid', mask='corner', opt='plain', sched=s,
                        chunks=chunkings('grid')[:1], workers=[2],
                        verbose=10))
    if tier == 'thorough':
        for s in ('single-threaded', 'synchronous', 'threading',
                  'multiprocessing'):
            res.append(dict(lay='grid', mask='holes', opt='mix', sched=s,
                            chunks=chunkings('grid')[:3], workers=[1, 2]))
    # costliest first
    res.sort(key=lambda x: x['sched'] not in ('processes', 'distributed',
                                              'multiprocessing'))
    return res


def params(w, d, it):
    o = dict(OPTS[it['opt']])
    ov = world.DAY_VARS if o['time_step'] == 1440 else world.SUB_VARS
    if 'wind' not in w.cells[0]['forcing'] and 'constant_vars' not in o:
        ov = [v for v in ov if v != 'wind']
    p = w.params(d, out_vars=ov, **o)
    if o.get('method') != 'passthrough':
        p['forcing_vars'].pop('shortwave')
    if 'constant_vars' in o:
        p['forcing_vars'].pop('wind', None)
    return p


def evaluate(it, r):
    w = make(it['lay'], it['mask'])
    tag = '%s,%s,%s,%s' % (it['lay'], it['mask'], it['opt'], it['sched'])
    tag += ''.join(',%s=%s' % (k, it[k]) for k in ('cluster', 'verbose')
                   if k in it)
    with tmpdir() as d:
        w.write(d)
        p = params(w, d, it)
        p['out_dir'] = d + '/ref'
        if run_ok(r, tag + ',ref', world.run, p) is None:
            return
        ref = dict(world.read_outputs(d + '/ref'))
        mask = np.array([c['mask'] for c in w.cells]).reshape(w.shape) > 0
        for f, ds in ref.items():
            for v in ds.data_vars:
                x = ds[v].values
                if np.isnan(x[:, mask]).any() or \
                        not np.isnan(x[:, ~mask]).all():
                    r.fail(tag + ',ref:filled', '%s of %s: values missing at '
                           'active cells or present at inactive ones' % (v, f))
        jobs = [(ck, nw) for ck in it['chunks'] for nw in it['workers']]
        runs = []
        for i, (ck, nw) in enumerate(jobs):
            q = params(w, d, it)
            # sizes come as text from an INI file
            q.update(chunks={k: str(v) if i % 2 else v
                             for k, v in ck.items()},
                     scheduler=it['sched'], num_workers=nw,
                     out_dir='%s/o%d' % (d, i))
            if 'verbose' in it:
                q['verbose'] = it['verbose']
            if 'cluster' in it:
                q['_cluster'] = it['cluster'] + [d + '/scheduler.json']
            runs.append(q)
        sub = it['sched'] in ('processes', 'distributed', 'multiprocessing') \
            or 'verbose' in it
        errs = world.sub_run(runs, d) if sub else None
        for i, (ck, nw) in enumerate(jobs):
            t = '%s,%s,w%d' % (tag, text(ck), nw)
            r.state(tag, list(ck.items()), nw)
            r.trace()
            if sub:
                if errs[i]:
                    r.fail(t + ':raised', 'a valid run failed: %s' % errs[i])
                    continue
            elif run_ok(r, t, world.run, runs[i]) is None:
                continue
            got = dict(world.read_outputs(runs[i]['out_dir']))
            if sorted(got) != sorted(ref):
                r.fail(t + ':files', 'files %s, expected %s' % (
                    sorted(got), sorted(ref)))
                continue
            for f in ref:
                e = world.same_ds(ref[f], got[f])
                if not e:
                    for c in ref[f].coords:
                        if not np.array_equal(ref[f][c], got[f][c]):
                            e = 'coordinate %s differs' % c
                if e:
                    r.fail(t + ':differs', '%s: %s' % (f, e))
                r.trans(sum(ref[f][v].size for v in ref[f].data_vars))
                r.outcome(tag, f)
    r.show(it)
