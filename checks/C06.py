"""Splitting the output into files neither loses, repeats nor changes
anything."""
import os
import re

import numpy as np
import pandas as pd
import xarray as xr

from mc import world
from mc.lib import World, cell, expected_times, run_ok, tmpdir

LEVEL = 'model_checking'
RULE = ('state = (output frequency, time step, period labelling, first day, '
        'number of days); the files together must hold the time axis of the '
        'unsplit run exactly once with the same values, each file one '
        'interval of the frequency, named after its first and last step')
ASSUMPTIONS = ['intervals are those of pandas.Grouper']
MINIMUM = {'quick': 200, 'thorough': 1000}
FREQS = ['', 'D', '2D', '3D', '7D', 'W', 'W-SAT', 'MS', 'M', '2MS', 'QS',
         'Q-NOV', 'AS', 'A', 'AS-OCT', 'SM', '12H', '6H', '5H', '36H', '90T']
STARTS = ['1951-12-30', '1952-02-28', '2001-09-29', '1999-06-30']
COARSE = ['MS', 'M', 'AS', 'A', 'QS', '10D', 'SMS', '2MS', 'W-SUN']


def items(tier):
    res = []
    for f in FREQS:
        cs = []
        for ts in ((90, 360, 1440) if tier == 'quick'
                   else (15, 60, 90, 180, 240, 360, 1440)):
            for pe in (False, True):
                for i, s in enumerate(STARTS):
                    if tier == 'quick' and (i + ts // 90 + pe) % 4 not in (
                            0, len(f) % 4):
                        continue
                    cs.append((ts, pe, s, 5))
        for i in range(0, len(cs), 6):
            res.append(dict(freq=f, cases=cs[i:i + 6]))
    for f in COARSE:
        res.append(dict(freq=f, cases=[(1440, pe, '1951-11-20', 120)
                                       for pe in (False, True)]))
        if tier != 'quick':
            res.append(dict(freq=f, cases=[(360, pe, '1999-12-20', 400)
                                           for pe in (False, True)]))
    return res


def groups(times, freq):
    """The times of each file: one per non-empty interval."""
    if not freq:
        return [times]
    s = pd.Series(np.arange(len(times)), index=times)
    return [times[g.values] for _, g in s.groupby(pd.Grouper(freq=freq))
            if len(g)]


def evaluate(it, r):
    f = it['freq']
    for ts, pe, start, n in it['cases']:
        cs = [cell(n, seed=i, lat=30. + 8 * i, lon=-90. + 50 * i)
              for i in range(3)]
        cs[1]['mask'] = 0.
        w = World(cs, kind='hruc', start=start)
        tag = 'freq=%s,ts=%d,pe=%s' % (f, ts, pe)
        with tmpdir() as d:
            w.write(d)
            kw = dict(time_step=ts, period_ending=pe, chunks={'hru': 2})
            ref = run_ok(r, tag + ',whole', world.run,
                         w.params(d, out=d + '/ref', **kw))
            p = w.params(d, out_freq=f, **kw)
            if ref is None or run_ok(r, tag, world.run, p) is None:
                continue
            parts = world.read_outputs(p['out_dir'])
            whole = os.path.basename(world.out_files(d + '/ref')[0])
            r.state(f, ts, pe, start, n)
            r.trace(2)
            times = expected_times(start, n, ts, pe)
            want = groups(times, f)
            if len(want) != len(parts):
                r.fail(tag + ':files', '%s: %d files %s, expected %d' % (
                    start, len(parts), [x[0] for x in parts][:4], len(want)))
                continue
            stamp = []
            for (name, ds), t in zip(parts, want):
                r.trans(ds['time'].size)
                got = pd.DatetimeIndex(ds['time'].values)
                if len(got) != len(t) or not (got == t).all():
                    r.fail(tag + ':times', '%s: %s holds %s..%s (%d), '
                           'expected %s..%s (%d)' % (
                               start, name, got[0], got[-1], len(got), t[0],
                               t[-1], len(t)))
                    break
                m = re.fullmatch(r'forcing_(\d{8})(\d{4})?-(\d{8})(\d{4})?'
                                 r'\.nc', name)
                if not m or m[1] != t[0].strftime('%Y%m%d') or \
                        m[3] != t[-1].strftime('%Y%m%d') or \
                        (m[2] or t[0].strftime('%H%M')) != \
                        t[0].strftime('%H%M') or \
                        (m[4] or t[-1].strftime('%H%M')) != \
                        t[-1].strftime('%H%M'):
                    r.fail(tag + ':name', 'the file of %s..%s is named %s'
                           % (t[0], t[-1], name))
                stamp.append(name)
            else:
                e = world.same_ds(ref, world.concat(parts))
                if e:
                    r.fail(tag + ':differs', '%s: %s' % (start, e))
                for name, ds in parts:
                    for c in ref.coords:
                        if c != 'time' and not np.array_equal(ref[c], ds[c]):
                            r.fail(tag + ':coord', '%s of %s differs'
                                   % (c, name))
                    for v in ref.variables:
                        if ref[v].attrs.get('units') != \
                                ds[v].attrs.get('units'):
                            r.fail(tag + ':units', '%s: units of %s differ'
                                   % (name, v))
            r.outcome(f, [len(t) for t in want])
            # the program's own way to read its output back
            with world.quiet():
                try:
                    mm = world.metsim_module()
                    back = mm.MetSim(p).open_output()
                    e = world.same_ds(ref, back.load())
                    back.close()
                except Exception as x:
                    e = '%s: %s' % (type(x).__name__, x)
            if e:
                r.fail(tag + ':open_output', '%s: %s' % (start, e))
            if not f and [x[0] for x in parts] != [whole]:
                r.fail(tag + ':name', 'without a frequency: %s' % stamp)
    r.show(it)
