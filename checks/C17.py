"""UTC output is local output shifted by the longitude; longitudes wrap."""
import numpy as np

from mc import ref, world
from mc.lib import (World, cell, debruijn, first_bad, record, run_ok, text,
                    tmpdir)

LEVEL = 'model_checking'
RULE = ('state = (longitude, time step, option set); transitions = local run '
        '-> UTC run (shift by the offset of the longitude) and longitude -> '
        'longitude +- 360 (no change), compared at every step and variable')
ASSUMPTIONS = ['the offset of a longitude is its whole minutes of time; '
               'shortwave uses half minutes',
               'the record is taken to continue periodically where a shift '
               'reaches beyond it, and humidity is compared in its interior']
MINIMUM = {'quick': 300, 'thorough': 1000}
TYPES = [{'prec': p, 't_min': a, 't_max': b, 'wind': w} for p, a, b, w in
         ((0., -3., 9., 1.), (5., 4., 6., 2.5), (0., 10., 30., 9.),
          (30., -9., -8., 0.))]
OPTS = [dict(prec_type='uniform'), dict(prec_type='mix', lw_type='tva'),
        dict(prec_type='triangle', period_ending=True, lw_cloud='default'),
        dict(method='passthrough'),
        dict(method='passthrough', lw_type='idso', given='longwave')]
VARS = world.SUB_VARS


def lons(tier):
    # whole multiples of a quarter degree are whole minutes of time
    step = 7.5 if tier == 'quick' else 2.5
    a = np.arange(-180, 180.01, step)
    b = [-179.9, -100.3, -99.95, -7.31, -0.26, -0.2, 0.1, 0.2, 0.26, 33.33,
         151.21, 179.9, 179.99]
    return [float(x) for x in a] + b


def items(tier):
    res = []
    ls = lons(tier)
    for ts in ([1, 15, 30, 60, 180] if tier == 'quick'
               else [1, 2, 5, 10, 15, 30, 60, 90, 120, 180, 360]):
        for o in OPTS:
            for i in range(0, len(ls), 16):
                res.append(dict(ts=ts, opt=o, lons=ls[i:i + 16],
                                start='1952-02-24'))
    return res


def between(r, tag, v, lon, off, ts, x, fine):
    n = len(fine)
    part = fine[(np.arange(n) + off) % n].reshape(-1, ts)
    k = np.arange(len(x))
    # two days at the ends need days beyond the record
    ok = (k * ts + off >= 2880) & ((k + 1) * ts + off < n - 2880) & \
        (k * ts >= 2880) & ((k + 1) * ts < n - 2880)
    if v == 'prec':
        y, ok = part.sum(axis=1), np.ones(len(x), bool)
    elif v in ('wind', 'tskc'):
        y, ok = part.mean(axis=1), np.ones(len(x), bool)
    elif v == 'shortwave':
        if int(ref.norm_lon(lon) / 360 * 2880) != 2 * off:
            return
        y = part.mean(axis=1)
    elif v == 'longwave':
        return          # not linear in the cloud cover of the two days
    else:
        y = part[:, -1]
    e = first_bad(x[ok], y[ok], 1e-7, 1e-7)
    if e:
        r.fail('%s:shift:%s' % (tag, v), 'lon %r (%d min): UTC %s is not that '
               'of the minutes of the local run %s' % (lon, off, v, e))
    r.trans(int(ok.sum()))


def evaluate(it, r):
    ts, o = it['ts'], it['opt']
    seq = debruijn(len(TYPES), 2)
    n = len(seq)
    f = record(seq, TYPES)
    if o.get('method') == 'passthrough':
        f['shortwave'] = 180 + 170 * np.sin(1.3 * np.arange(n))
    if 'given' in o:
        f['longwave'] = 280 + 70 * np.cos(2.1 * np.arange(n))
        o = {k: x for k, x in o.items() if k != 'given'}
    lat = 41.5
    base = [cell(n, lat=lat, lon=l, elev=120., forcing=f)
            for l in it['lons']]
    wrap = [cell(n, lat=lat, lon=l + (360 if l < 0 else -360), elev=120.,
                 forcing=f) for l in it['lons']]
    wrap2 = [cell(n, lat=lat, lon=l + 360, elev=120., forcing=f)
             for l in it['lons']]
    tag = 'ts=%d,%s' % (ts, text(it['opt']))
    w = World(base + wrap + wrap2, start=it['start'])
    with tmpdir() as d:
        w.write(d)
        p = w.params(d, utc_offset=True, time_step=ts, **o)
        utc = run_ok(r, tag + ',utc', world.run, dict(p))
        w1 = World(base[:1], start=it['start'])
        w1.write(d + '/l')
        p1 = w1.params(d + '/l', utc_offset=False, time_step=ts, **o)
        loc = run_ok(r, tag + ',local', world.run, dict(p1))
        fine = loc if ts == 1 else run_ok(
            r, tag + ',fine', world.run, dict(
                p1, out_dir=d + '/fine', time_step=1))
    if utc is None or loc is None or fine is None:
        return
    ll = utc['time'].attrs.get('long_name', '')
    if 'utc' not in str(ll).lower() or \
            'local' not in str(loc['time'].attrs.get('long_name', '')).lower():
        r.fail(tag + ':label', 'time is labelled %r / %r' % (
            ll, loc['time'].attrs.get('long_name')))
    if not np.array_equal(utc['time'].values, loc['time'].values):
        r.fail(tag + ':time', 'UTC and local runs have different time axes')
    m = len(base)
    L = {v: np.asarray(loc[v].values[:, 0], float) for v in VARS}
    F = {v: np.asarray(fine[v].values[:, 0], float) for v in VARS}
    N = n * 1440 // ts
    idx = np.arange(N)
    for i, l in enumerate(it['lons']):
        off = ref.offset_minutes(l)
        r.state(tag, l)
        for v in VARS:
            x = np.asarray(utc[v].values[:, i], float)
            for k in (1, 2):
                # -180 and 180 are the same meridian, half a day either way
                if abs(l) == 180:
                    continue
                y = np.asarray(utc[v].values[:, i + k * m], float)
                e = first_bad(y, x, 1e-9, 1e-9)
                if e:
                    r.fail('%s:wrap:%s' % (tag, v), '%s at lon %r differs '
                           'from lon %r %s' % (v, (wrap, wrap2)[k - 1][i][
                               'lon'], l, e))
                r.trans(N)
            if off % ts:
                # the step begins within a step of the local run: it is made
                # up of the minutes of the local run that it covers
                between(r, tag, v, l, off, ts, x, F[v])
                continue
            s = off // ts
            if v == 'shortwave':
                if int(ref.norm_lon(l) / 360 * 2880) != 2 * off:
                    continue
                rtol, atol = 1e-9, 1e-7
                ok = (idx + s >= 0) & (idx + s < N)
                # the sun of another day of the year is used near midnight
                # in the wrapped part only
            elif v in ('prec', 'wind', 'tskc'):
                rtol, atol, ok = 1e-9, 1e-9, np.ones(N, bool)
            elif v == 'temp':
                rtol, atol = 1e-9, 1e-7
                ok = (idx + s >= 0) & (idx + s < N)
            else:
                rtol, atol = 1e-9, 1e-9
                # interior: both sides between the first and last minimum
                b = 2 * 1440 // ts
                ok = (idx + s >= b) & (idx + s < N - b) & (idx >= b) & \
                    (idx < N - b)
            y = L[v][(idx + s) % N]
            e = first_bad(x[ok], y[ok], rtol, atol)
            if e:
                r.fail('%s:shift:%s' % (tag, v), 'lon %r (%d min): UTC %s is '
                       'not the shifted local one %s' % (l, off, v, e))
            r.trans(int(ok.sum()))
        r.trace()
        r.outcome(l, ts)
    r.show(it)
