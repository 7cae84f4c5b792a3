"""Schedule independence: every interleaving of the workers gives the output
of a sequential run, without deadlock, and never has two of them in the netCDF
library at once."""
import json
import os
import shutil

import numpy as np

from mc import sched, world
from mc.lib import World, cell, tmpdir

LEVEL = 'model_checking'
RULE = ('state = where each worker stands (source line, lock or library call) '
        'at a scheduling decision; an execution is the whole program under '
        'one schedule; all schedules with at most the stated number of '
        'preemptions are run, each compared with the sequential run')
ASSUMPTIONS = ['preemptions happen between the lines of MetSim, at lock '
               'operations and inside calls of the netCDF library, which is '
               'not thread safe', 'worker processes are explored by holding '
               'every writer inside its critical section']
MINIMUM = {'quick': 300, 'thorough': 1000}
ITEM_TIMEOUT = 300
HARNESS = {
    # name: cells, chunk, workers, days, options
    'utc': (2, 1, 2, 2, dict(time_step=360, utc_offset=True)),
    'mix': (2, 1, 2, 2, dict(time_step=360, prec_type='mix',
                             utc_offset=True)),
    'files': (2, 1, 2, 2, dict(time_step=360, out_freq='D',
                               method='passthrough')),
    'daily': (2, 1, 2, 2, dict(time_step=1440, out_freq='D')),
    'three': (3, 1, 3, 2, dict(time_step=360, out_freq='D')),
    'queue': (3, 1, 2, 2, dict(time_step=360, prec_type='triangle',
                               lw_type='tva', period_ending=True)),
}


def bounds(tier):
    return [{k: v for k, v in i.items() if k != 'shard'}
            for i in items(tier) if i.get('shard', 0) == 0]


def items(tier):
    res = []
    if tier == 'quick':
        # two workers in the same code are interchangeable: who comes first
        # is not a choice in the runs at line granularity
        todo = [('mix', 'line', 1, 8, 1, True, True),
                ('files', 'line', 1, 8, 1, True, True),
                ('three', 'io', 1, 4, 1, False, False),
                ('queue', 'io', 1, 4, 1, False, False)]
    else:
        todo = [('utc', 'line', 1, 32, 2, False, True),
                ('mix', 'line', 1, 32, 1, False, True),
                ('files', 'line', 1, 32, 2, False, True),
                ('queue', 'line', 1, 32, 1, False, False),
                ('daily', 'line', 1, 16, 2, False, True),
                ('three', 'io', 2, 64, 1, False, False),
                ('queue', 'io', 2, 64, 1, False, False),
                ('files', 'io', 2, 64, 2, False, True)]
    res += [dict(h='procs', sched=s, workers=w)
            for s in ('processes', 'distributed')
            for w in ((2,) if tier == 'quick' else (2, 3))]
    for h, g, b, n, k, sym, free in todo:
        res += [dict(h=h, grain=g, bound=b, shard=i, shards=n, repeat=k,
                     symmetric=sym, free=free) for i in range(n)]
    return res


def make(h):
    n, ck, nw, nd, o = HARNESS[h]
    cs = [cell(nd, seed=3 * i + 1, lat=35. + 9 * i, lon=-100. + 77 * i,
               elev=100. + 700 * i, t_pk=600. + 40 * i + 5 * np.arange(12),
               dur=200. + 30 * i + 7 * np.arange(12)) for i in range(n)]
    if 'prec_type' in o:
        # storms on a warm day, and all day long on a cold one
        for i, c in enumerate(cs):
            c['forcing'].update(prec=np.array([9. - i, 4. + 2 * i])[:nd],
                                t_min=np.array([7. + i, -6. - i])[:nd],
                                t_max=np.array([19. - i, 2. + i])[:nd])
    if o.get('method') == 'passthrough':
        for i, c in enumerate(cs):
            c['forcing']['shortwave'] = 100. + 50 * i + np.arange(nd)
    return World(cs, start='1950-06-30'), ck, nw, o


def locks_free():
    import dask.utils
    return [str(v.name) for v in
            list(dask.utils.SerializableLock._locks.values())
            if isinstance(v, sched.CoopLock) and v.locked()]


def evaluate(it, r):
    if it['h'] == 'procs':
        return procs(it, r)
    w, ck, nw, o = make(it['h'])
    lines = it['grain'] == 'line'
    tag = '%s,%s' % (it['h'], it['grain'])
    with tmpdir() as d:
        w.write(d)
        ov = None
        ref = world.run(w.params(d, out=d + '/ref', **o))
        names = sorted(os.path.basename(f)
                       for f in world.out_files(d + '/ref'))

        def body():
            shutil.rmtree(d + '/out', ignore_errors=True)
            p = w.params(d, out=d + '/out', scheduler='threads',
                         num_workers=nw, chunks={'hru': ck}, **o)
            world.run(p, read=False)

        def go(choices, expect):
            x = sched.execute(body, nw, choices, expect, lines,
                              it['repeat'])
            r.trace()
            r.trans(x.steps)
            for st in x.states:
                r.state(it['h'], st)
            sch = [i for i, p in enumerate(x.points) if p[3]]
            what = 'schedule: ' + ', '.join(
                'at %s run %d' % (x.points[i][0], x.points[i][3])
                for i in sch[:6])
            for k, m in x.problems:
                if k == 'diverged':
                    raise sched.Diverged(m + ' ' + what)
                r.fail('%s:%s' % (tag, k), '%s; %s' % (m, what))
            if x.error is not None and not any(
                    k == 'deadlock' for k, m in x.problems):
                r.fail(tag + ':raised', '%s; %s' % (x.error, what))
            elif x.error is None:
                got = sorted(os.path.basename(f)
                             for f in world.out_files(d + '/out'))
                if got != names:
                    r.fail(tag + ':files', 'files %s; %s' % (got, what))
                else:
                    ds = world.concat(world.read_outputs(d + '/out'))
                    e = world.same_ds(ref, ds)
                    if e:
                        r.fail(tag + ':differs', '%s; %s' % (e, what))
                    r.outcome(it['h'], names)
            held = locks_free()
            if held:
                r.fail(tag + ':held', 'locks still held after the run: %s; %s'
                       % (held, what))
            return x

        # warm up (imports, compilation), then check that the same choices
        # give the same execution
        sched.execute(body, nw, (), (), lines, it['repeat'])
        base = go((), ())
        again = sched.execute(body, nw, base.choices, base.expect, lines,
                              it['repeat'])
        if again.expect != base.expect:
            i = next((i for i, (a, b) in enumerate(
                zip(again.expect, base.expect)) if a != b), 'end')
            raise sched.Diverged('the same schedule gave other points at %s'
                                 % i)
        if base.tasks < 2:
            raise RuntimeError('only %d tasks' % base.tasks)
        r.count('points_of_default_schedule', len(base.points)
                if it['shard'] == 0 else 0)

        def explore(x, start, top):
            for n, (i, choices, expect) in enumerate(
                    sched.alternatives(
                        x, start, it['bound'], it['free'])):
                if top and n % it['shards'] != it['shard']:
                    continue
                y = go(choices, expect[:i + 1])
                r.count('schedules')
                if len(r.fails) > 20:
                    return
                explore(y, i + 1, False)
        explore(base, 1 if it['symmetric'] else 0, True)
    r.show({'item': it, 'points': base.expect[:40]})


def procs(it, r):
    """Worker processes: every writer is held inside its critical section
    for long enough that another one could get there."""
    w, ck, nw, o = make('three')
    tag = it['sched']
    with tmpdir() as d:
        w.write(d)
        ref = world.run(w.params(d, out=d + '/ref', **o))
        notes = d + '/notes'
        os.makedirs(notes)
        p = w.params(d, scheduler=it['sched'], num_workers=it['workers'],
                     chunks={'hru': 1}, **o)
        e, = world.sub_run([p], d, env={'MC_HOLD': notes + ':0.4'})
        r.state(tag, it['workers'])
        r.trace()
        if e:
            r.fail(tag + ':raised', 'a valid run failed: %s' % e)
            return
        spans = {}
        for f in os.listdir(notes):
            a, b = open(os.path.join(notes, f)).read().split('\n')
            name, t0 = json.loads(a)
            spans.setdefault(name, []).append((t0, int(b), f))
        n = sum(map(len, spans.values()))
        r.count('held_writes', n)
        if n != 6:
            raise RuntimeError('%d held writes, expected 6' % n)
        for name, x in spans.items():
            x.sort()
            for (a0, a1, fa), (b0, b1, fb) in zip(x, x[1:]):
                r.trans()
                if b0 < a1:
                    r.fail(tag + ':overlap', '%s was open for writing in two '
                           'workers at once' % os.path.basename(name))
        bad = world.same_ds(ref, world.concat(
            world.read_outputs(p['out_dir'])))
        if bad:
            r.fail(tag + ':differs', bad)
        r.outcome(tag)
