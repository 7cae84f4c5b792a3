"""A failure never looks like success."""
import os
import shutil
import time

from checks.C09 import vic_params
from mc import fault, world
from mc.lib import World, cell, tmpdir
from mc.world import RunError

import numpy as np

LEVEL = 'fault_enumeration'
RULE = ('case = (configuration, scheduler, the point that fails, how): a '
        'library call (open, create, define, read, write, close) or a line '
        'of the program raises, alone or with all that follow, a write gets '
        'half of its values out, the output directory vanishes before a file '
        'in it is opened, a worker process is killed; the run must '
        'raise or have written everything, hold no lock and leave no thread '
        'running; the run after it in the same process must write exactly '
        'what it writes in a fresh one')
ASSUMPTIONS = ['an error is raised by the call that fails (a library that '
               'reports success without having written is not modelled)']
MINIMUM = {'quick': 1200, 'thorough': 3000}
ITEM_TIMEOUT = 500
CONF = {
    'sub': dict(time_step=360, utc_offset=True,
                out_freq='D', chunks={'lat': 1, 'lon': 1},
                out_vars=['temp', 'prec', 'longwave', 'wind']),
    'whole': dict(time_step=360, prec_type='triangle', utc_offset=True,
                  chunks={}, out_vars=['temp', 'prec']),
    'day': dict(time_step=1440, chunks={'lon': 1}, out_precision='f4',
                out_vars=['t_min', 'shortwave', 'pet']),
    'pt': dict(time_step=360, method='passthrough', chunks={},
               out_vars=['shortwave', 'rel_humid', 'tskc']),
    'ascii': dict(time_step=360, chunks={'lon': 2}, prec_type='triangle',
                  out_vars=['spec_humid', 'prec']),
    'binary': dict(time_step=1440, chunks={}, out_vars=['t_max', 'prec']),
}
EXC = {'oserror': lambda: OSError(28, 'No space left on device'),
       'memory': lambda: MemoryError(),
       'value': lambda: ValueError('injected'),
       'key': lambda: KeyError('injected'),
       'netcdf': lambda: RuntimeError('NetCDF: HDF error')}
# the files whose lines fail in the quick tier
QUICK = {'whole': '', 'pt': ('passthrough.py', 'mtclim.py'),
         'ascii': 'io.py', 'binary': 'io.py', 'day': ('metsim.py', 'units.py')}
KILL = ['open domain.nc', 'open forcing.nc', 'open state.nc', 'read',
        'reopen output', 'write', 'close output']


def items(tier):
    res = []
    deep = tier == 'thorough'
    for c in CONF:
        for s in ('sync', 'threads'):
            if s == 'threads' and not CONF[c]['chunks']:
                continue
            lib = ['oserror', 'netcdf'] if deep else ['netcdf']
            if c == 'sub':
                lib += ['persist', 'half'] if deep or s == 'sync' else [
                    'half']
                lib += ['vanish']
            n = 6 if deep else 2
            for e in lib:
                res += [dict(k='lib', c=c, s=s, e=e, shard=i, shards=n,
                             occ='all' if deep else 'some')
                        for i in range(n)]
            if deep:
                ee = list(EXC)
            elif s == 'sync':
                ee = {'sub': [], 'whole': ['memory'],
                      'pt': ['value'], 'ascii': ['value'],
                      'day': [], 'binary': ['key']}[c]
            else:
                ee = {'day': ['memory']}.get(c, [])
            n = 8 if deep else 4
            for e in ee:
                res += [dict(k='line', c=c, s=s, e=e, shard=i, shards=n,
                             occ='all' if deep else 'some')
                        for i in range(n)]
    for s in ('processes', 'distributed'):
        for how in ('kill', 'raise'):
            for lab in KILL:
                for n in (1, 2) if deep else (
                        (2,) if lab in ('read', 'write') else (1,)):
                    if not deep and how == 'raise' and lab not in (
                            'open state.nc', 'write', 'close output'):
                        continue
                    res.append(dict(k='proc', s=s, how=how, label=lab, n=n))
    # the slow ones first
    res.sort(key=lambda x: (x['k'] != 'proc', x.get('how') != 'kill',
                            x.get('s') != 'distributed'))
    return res


def make(d, c):
    cs = []
    for i in range(3):
        x = cell(2, seed=i, elev=100. + 150 * i, mask=float(i != 1))
        x['forcing'] = {v: np.rint(a * 4) / 4
                        for v, a in x['forcing'].items()}
        x['forcing']['t_max'] += 1
        if c == 'pt':
            x['forcing']['shortwave'] = 120. + 20 * i + 35 * np.arange(2)
        cs.append(x)
    w = World(cs, kind='grid', shape=(1, 3), lats=[40.125],
              lons=[-100.0625, 20.5, 77.], start='1952-02-28')
    w.write(d)
    return w


def setup(w, d, it, out):
    p = w.params(d, out=out, scheduler=it['s'], num_workers=3,
                 **CONF[it['c']])
    if it['c'] in ('ascii', 'binary'):
        p = vic_params(p, w, d, it['c'], None)
    return p


def evaluate(it, r):
    if it['k'] == 'proc':
        return procs(it, r)
    import metsim
    src = os.path.dirname(os.path.abspath(metsim.__file__)) + os.sep
    fault.install()
    tag = '%s:%s:%s:%s' % (it['k'], it['c'], it['s'], it['e'])
    with tmpdir() as d:
        w = make(d, it['c'])
        p = setup(w, d, it, d + '/out')
        ref = go(p, d)
        assert ref is not None
        # count the points
        fault.PLAN = plan = fault.Plan(lines=it['k'] == 'line')
        if plan.lines:
            fault.lines(src, True)
        try:
            world.run(dict(p), read=False)
        finally:
            fault.PLAN = None
        assert plan.order
        todo = points(it, plan)
        r.count('points', len(plan.order))
        batch = []
        mine = todo[it['shard']::it['shards']]
        for n, (lab, k) in enumerate(mine):
            batch.append((lab, k))
            one(it, r, tag, w, d, p, ref, src, lab, k)
            # and a run over what is left behind; for lines, after some
            if len(batch) == (1 if it['k'] == 'lib' and it['occ'] == 'all' else
                              4 if it['k'] == 'lib' else 10) or n + 1 == len(mine):
                again(r, tag, p, ref, batch)
                batch = []
            if len(r.fails) > 30:
                break
        fault.lines(src, False)
    r.show({'item': it, 'points': plan.order[:30]})


def again(r, tag, p, ref, batch):
    what = 'after failures at %s' % ', '.join(
        '%s (time %d)' % x for x in batch)
    key = '%s:%s:%d:after' % ((tag,) + batch[-1])
    try:
        world.run(dict(p), read=False)
    except RunError as e:
        r.fail(key, '%s the next run raised %s' % (what, e))
        return
    r.trace()
    e = world.snap_diff(ref, snap(p))
    if e:
        r.fail(key, '%s the next run wrote something else: %s' % (what, e))
    r.trans(len(batch))


def points(it, plan):
    if it['k'] == 'lib':
        if it['e'] == 'half':
            return [x for x in plan.order if x[0] == 'write']
        if it['e'] == 'vanish':
            # (every one of these comes before a file in it is opened)
            return [x for x in plan.order if x[0].startswith(
                ('create', 'reopen', 'open ')) or
                x[0] == 'read' and (x[1] % 4 == 0 or it['occ'] == 'all')]
        if it['occ'] == 'all':
            return plan.order
        # of what happens often: the first, the last and some between
        return [(a, n) for a, n in plan.order
                if n <= 2 or n == plan.seen[a] or n % 9 == 0]
    res = []
    for lab, n in plan.seen.items():
        if it['occ'] == 'some' and not lab.startswith(QUICK[it['c']]):
            continue
        ks = {1} if it['occ'] == 'some' else {
            1, 2, max(1, n // 2), max(1, n - 1), n} & set(range(1, n + 1))
        res += [(lab, k) for k in sorted(ks)]
    return res


def go(p, d):
    shutil.rmtree(p['out_dir'], ignore_errors=True)
    world.run(dict(p), read=False)
    return world.snapshot(p['out_dir'])


def one(it, r, tag, w, d, p, ref, src, lab, k):
    what = '%s (time %d) fails with %s' % (lab, k, it['e'])
    key = '%s:%s:%d' % (tag, lab.split(':')[0] if it['k'] == 'line'
                        else lab, k)
    r.state(tag, lab, k)
    gone = []

    def hit(x, n, total):
        if gone and it['e'] == 'persist':
            return OSError(28, 'No space left on device')
        if x == lab and n == k and not gone:
            gone.append(1)
            if it['e'] == 'half':
                return 'half'
            if it['e'] == 'vanish':
                # no exception is injected: the library finds it missing
                shutil.rmtree(p['out_dir'], ignore_errors=True)
                return 'vanish'
            if it['e'] == 'persist':
                return OSError(28, 'No space left on device')
            return EXC[it['e']]()
    plan = fault.Plan(hit, lines=it['k'] == 'line')
    shutil.rmtree(p['out_dir'], ignore_errors=True)
    fault.PLAN = plan
    try:
        world.run(dict(p), read=False)
        err = None
    except RunError as e:
        err = str(e)
    finally:
        busy = fault.busy(src)
        fault.PLAN = None
    r.trace()
    if busy:
        r.fail(key + ':running', '%s: run() %s while worker threads go on '
               '(%s)' % (what, 'raised' if err else 'returned', busy))
        t = time.time()
        while fault.busy(src) and time.time() - t < 20:
            time.sleep(.02)
    if not plan.fired:
        r.count('not_reached')
    r.outcome(lab, err)
    if err is None:
        r.count('survived')
        e = world.snap_diff(ref, snap(p))
        if e:
            r.fail(key + ':silent', '%s: run() returned normally, but the '
                   'output is not complete: %s' % (what, e))
    else:
        r.count('raised')
    h = [x for x in fault.held()]
    if h:
        r.fail(key + ':locked', '%s: locks still held: %s' % (what, h))
        fault.release()


def snap(p):
    try:
        return world.snapshot(p['out_dir'])
    except Exception as e:
        return {'unreadable': str(e)}


def procs(it, r):
    tag = '%s:%s' % (it['s'], it['how'])
    what = '%s of a worker at %s (time %d)' % (it['how'], it['label'],
                                              it['n'])
    # a known finding: no need to wait for long
    lost = tag == 'distributed:kill' and it['label'] in KILL[-3:]
    with tmpdir() as d:
        w = make(d, 'sub')
        kw = dict(CONF['sub'], num_workers=2)
        world.run(w.params(d, out=d + '/ref', scheduler='sync', **CONF['sub']),
                  read=False)
        ref = world.snapshot(d + '/ref')
        p = w.params(d, out=d + '/out', scheduler=it['s'], **kw)
        res = world.sub_run([dict(p, _keep=d + '/k0'),
                             dict(p, _keep=d + '/k1')], d,
                            timeout=30 if lost else 200,
                            env={'MC_FAULT': '%s/mark|%s|%d|%s' % (
                                d, it['label'], it['n'], it['how'])})
        r.state(tag, it['label'], it['n'])
        r.trace(2)
        r.outcome(tag, str(res)[:60])
        if not os.path.exists(d + '/mark'):
            raise RuntimeError('%s: never reached' % what)
        r.trans()
        skip = ('attr:out_dir', 'attr:scheduler', 'attr:num_workers')
        if lost and res[0] and res[0].startswith('hang'):
            r.fail('%s:%s:hang' % (tag, it['label'].replace(' ', '-')), '%s: the run does not '
                   'end' % what)
            return
        for i in (0, 1):
            if res[i] is None:
                e = world.snap_diff(ref, world.snapshot(d + '/k%d' % i),
                                    skip=skip)
                if e:
                    r.fail('%s:%s:%d:silent' % (tag, it['label'], i),
                           '%s: run %d returned normally, but the output is '
                           'not complete: %s' % (what, i, e))
            elif i or res[i].startswith(('hang', 'died')):
                r.fail('%s:%s:%d:after' % (tag, it['label'], i),
                       '%s: run %d: %s' % (what, i, res[i]))
        r.count('raised' if res[0] else 'survived')
    r.show(it)
