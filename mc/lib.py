"""Shared parts of the checks: comparing a run of the real code with the
reference models, and the small enumerations the spaces are made of."""
import copy
import functools
import itertools

import numpy as np
import pandas as pd

from mc import ref, world
from mc.world import World, RunError, cell, tmpdir

DIVISORS = [d for d in range(1, 361) if 1440 % d == 0]      # sub-daily steps
CORE_STEPS = [1, 5, 15, 30, 60, 90, 180, 240, 360]

# what each output may differ from the reference by: (relative, absolute);
# round-off only, so that any change of meaning is seen
TOL = {'temp': (1e-8, 1e-7), 'prec': (1e-8, 1e-9), 'shortwave': (1e-6, 1e-6),
       'longwave': (1e-6, 1e-6), 'vapor_pressure': (1e-6, 1e-9),
       'air_pressure': (1e-9, 1e-9), 'spec_humid': (1e-6, 1e-12),
       'rel_humid': (1e-6, 1e-7), 'tskc': (1e-8, 1e-9), 'wind': (1e-9, 1e-9),
       't_min': (1e-12, 1e-12), 't_max': (1e-12, 1e-12), 'pet': (1e-6, 1e-9),
       'daylength': (1e-9, 1e-6)}


@functools.lru_cache(maxsize=256)
def sun(lat, elev, lr):
    return ref.sun(lat, elev, lr)


def actual_sun(lat, elev, lr):
    """The real code's solar geometry, in the reference's layout (so that a
    check of what is built on it does not judge it)."""
    from metsim.physics import solar_geom
    return solar_geom(float(elev), float(lat), float(lr))


@functools.lru_cache(maxsize=64)
def _actual_sun(lat, elev, lr):
    return actual_sun(lat, elev, lr)


def debruijn(k, n):
    """Cyclic De Bruijn sequence B(k, n), closed: every window of n symbols
    of an alphabet of k occurs."""
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


def record(seq, types):
    """A forcing record from day types (dicts of scalars)."""
    return {k: np.array([types[s][k] for s in seq], float) for k in types[0]}


def first_bad(a, b, rtol, atol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return 'shape %s, expected %s' % (a.shape, b.shape)
    ok = np.abs(a - b) <= atol + rtol * np.abs(b)
    if ok.all():
        return None
    bad = np.argwhere(~ok)
    i = tuple(int(x) for x in bad[0])
    return 'at %s: got %r, expected %r (%d of %d values)' % (
        list(i), float(a[i]), float(b[i]), len(bad), a.size)


def where(c):
    return 'lat=%g lon=%g elev=%g' % (c['lat'], c['lon'], c['elev'])


def compare(r, ds, cells, start, p, names, tag, sun_of=None, inv=None,
            upstream=()):
    """Compare outputs of a run (HRU layout) with the reference, cell by cell.
    names in ``upstream`` are taken from the run itself by ``inv``."""
    dates = pd.date_range(start, periods=len(cells[0]['forcing']['prec']))
    nbad = 0
    for i, c in enumerate(cells):
        s = (sun_of or _actual_sun)(c['lat'], c['elev'], p['lapse_rate'])
        o = ref.run_cell(c, dates, p, s)
        got = {v: np.asarray(ds[v].values[:, i], float) for v in ds.data_vars}
        for v in names:
            if v not in got:
                r.fail('%s:%s:missing' % (tag, v), 'output lacks %s' % v)
                continue
            e = first_bad(got[v], o[v], *TOL[v])
            if e:
                nbad += 1
                r.fail('%s:%s' % (tag, v), '%s (%s) differs from the '
                       'reference model %s' % (v, where(c), e))
            r.trans(len(o[v]))
        if inv:
            for e in inv(c, got, o, p, dates) or ():
                nbad += 1
                r.fail('%s:inv' % tag, '%s: %s' % (where(c), e))
        r.trace()
        r.outcome([np.round(got[v][:: max(1, len(got[v]) // 7)], 6).tolist()
                   for v in names if v in got])
    return nbad


def run_ok(r, tag, fn, *a, **kw):
    """Run a configuration that is valid; an exception is a violation."""
    try:
        return fn(*a, **kw)
    except RunError as e:
        r.fail('%s:raised' % tag, 'a valid run raised %s' % e)
        return None


def run_compare(r, cells, names, tag, start='1951-12-28', inv=None,
                sun_of=None, **kw):
    w = World(cells, start=start)
    with tmpdir() as d:
        w.write(d)
        p = w.params(d, **kw)
        full = dict(p)
        ds = run_ok(r, tag, world.run, p)
    if ds is None:
        return None
    compare(r, ds, cells, start, full, names, tag, sun_of, inv)
    return ds


def expected_times(start, n, ts, period_ending):
    t = pd.date_range(pd.Timestamp(start), periods=n * 1440 // ts,
                      freq='%dT' % ts)
    return t + pd.Timedelta(minutes=ts) if period_ending else t


def text(kw):
    return ','.join('%s=%s' % (k, kw[k]) for k in sorted(kw))


def product(**axes):
    """All combinations of named axes, simplest first."""
    names = list(axes)
    return [dict(zip(names, v)) for v in itertools.product(*axes.values())]


def chunked(seq, n):
    seq = list(seq)
    return [seq[i:i + n] for i in range(0, len(seq), n)]


LATS = [0.0, 47.3, -35.2, 66.5, -66.7, 23.4, 70.1, -90.0, 90.0]
LONS = [0.0, -100.3, 7.6, 179.9, 180.0, 200.0, -180.0, 359.9, -0.2]
ELEVS = [0.0, 1500.0, -50.0, 4200.0]
