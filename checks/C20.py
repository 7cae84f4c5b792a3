"""Restart: a run cut at any day and continued from the 90 days before equals
the run that was not cut."""
import itertools

import numpy as np
import pandas as pd

from mc import world
from mc.lib import World, cell, first_bad, run_ok, tmpdir

LEVEL = 'model_checking'
RULE = ('state = (days at which the run is cut, option set); every day of the '
        'parts is compared with that of the whole run')
ASSUMPTIONS = [
    'MTCLIM iterates over the whole run until the dewpoint is stable to '
    'tdew_tol, set to 1e-10 here, so that values agree to 1e-6',
    'values that need days on both sides of a cut (temperature, humidity and '
    'longwave on the two days next to it; everything there with UTC output) '
    'are compared from the second day on each side']
MINIMUM = {'quick': 120, 'thorough': 400}
OPTS = {
    'day': dict(time_step=1440),
    'day.pt': dict(time_step=1440, method='passthrough'),
    'sub': dict(time_step=180),
    'tri': dict(time_step=60, prec_type='triangle', lw_type='tva'),
    'mix': dict(time_step=240, prec_type='mix', utc_offset=True),
    'pt': dict(time_step=360, method='passthrough', period_ending=True)}
LOCAL = ('prec', 'shortwave', 'tskc', 'wind')     # need one day only
START = '1952-02-25'


def items(tier):
    res = []
    L = 8 if tier == 'quick' else 10
    cuts = [[c] for c in range(1, L)] + [
        list(c) for c in itertools.combinations(range(1, L), 2)]
    if tier == 'thorough':
        cuts += [list(c) for c in itertools.combinations(range(1, L), 3)]
    for o in OPTS:
        for i in range(0, len(cuts), 7):
            res.append(dict(opt=o, L=L, cuts=cuts[i:i + 7], start=START))
        if o in ('day', 'sub', 'mix') or tier == 'thorough':
            # longer than the record that is carried over
            res.append(dict(opt=o, L=130, start='1951-11-29', cuts=[
                [1], [29], [30], [31, 61], [60], [89], [90], [91], [95, 128],
                [129]][::1 if tier == 'thorough' or o == 'day' else 2]))
        if o in ('day', 'tri', 'pt') or tier == 'thorough':
            # years of it
            L = 1500 if o == 'day' or tier == 'thorough' else 1130
            for c in ([1], [200, 733], [365], [731], [L - 1]):
                res.append(dict(opt=o, L=L, start='1950-06-10', cuts=[c]))
    return res


def evaluate(it, r):
    L = it['L']
    o = dict(OPTS[it['opt']], tdew_tol=1e-10)
    recs = []
    for i in range(3):
        rec = world.weather(90 + L, seed=11 + i, warm=4. + 5 * i)
        rec['shortwave'] = 100. + 60 * np.sin(np.arange(90. + L) + i) ** 2
        if o.get('method') != 'passthrough':
            rec.pop('shortwave')
        recs.append(rec)

    def run(d, a, b, name):
        cs = []
        for i, rec in enumerate(recs):
            cs.append(cell(
                lat=(-31., 8., 52.)[i], lon=(-77., 13., 140.)[i],
                elev=50. + 600 * i,
                t_pk=np.full(12, 700.), dur=np.full(12, 300.),
                forcing={v: x[90 + a:90 + b] for v, x in rec.items()},
                state={v: rec[v][a:90 + a] for v in (
                    'prec', 't_min', 't_max')}))
        w = World(cs, start=pd.Timestamp(it['start']) + pd.Timedelta(days=a))
        w.write(d + '/' + name)
        return run_ok(r, '%s:%s' % (it['opt'], name), world.run,
                      w.params(d + '/' + name, **o))

    with tmpdir() as d:
        whole = run(d, 0, L, 'whole')
        if whole is None:
            return
        per = whole.sizes['time'] // L
        done = {}
        for cut in it['cuts']:
            key = '%s:%d:%s' % (it['opt'], L, '+'.join(map(str, cut)))
            r.state(key)
            parts = list(zip([0] + cut, cut + [L]))
            for a, b in parts:
                if (a, b) not in done:
                    done[a, b] = run(d, a, b, '%d-%d' % (a, b))
                ds = done[a, b]
                if ds is None:
                    continue
                r.trace()
                t = whole['time'].values[a * per:b * per]
                if not np.array_equal(ds['time'].values, t):
                    r.fail(key + ':time', 'part %d-%d has other times'
                           % (a, b))
                    continue
                for v in whole.data_vars:
                    lo, hi = a, b
                    if per > 1 and (v not in LOCAL or o.get('utc_offset')):
                        lo, hi = (a + 1 if a else a), (b - 1 if b < L else b)
                        if o.get('utc_offset'):
                            # the ends are filled from the other end then
                            k = 1 if v in LOCAL else 2
                            lo, hi = a + k, b - k
                    if lo >= hi:
                        continue
                    g = ds[v].values[(lo - a) * per:(hi - a) * per]
                    e = whole[v].values[lo * per:hi * per]
                    r.trans(g.size)
                    # exact, but for the iteration of MTCLIM
                    tol = (1e-6, 1e-9)
                    bad = first_bad(g, e, *tol)
                    if bad:
                        r.fail('%s:%s' % (key, v), 'cut at day %s: %s of the '
                               'part %d-%d differs %s' % (cut, v, a, b, bad))
            r.outcome(key)
    r.show(it)
