"""Humidity and pressure: consistent with temperature and each other."""
import numpy as np

from mc import ref
from mc.lib import (CORE_STEPS, DIVISORS, ELEVS, LATS, LONS, cell, debruijn,
                    first_bad, record, run_compare, text)

LEVEL = 'model_checking'
RULE = ('state = (time step, method, UTC flag, site, pair of day types); at '
        'every step vapour pressure, relative and specific humidity and air '
        'pressure are checked against saturation, the gas law and the '
        'interpolation of the daily vapour pressure')
ASSUMPTIONS = ['sub-daily vapour pressure is held in kPa (see the known '
               'finding of C22)']
MINIMUM = {'quick': 500, 'thorough': 1000}
PAIRS = [(-40.0, -25.0), (-8.0, 1.0), (0.0, 0.0), (2.0, 19.0), (21.0, 38.0),
         (14.0, 15.0), (-25., 12.)]
TYPES = [{'prec': 4.0 * (i % 2), 't_min': a, 't_max': b}
         for i, (a, b) in enumerate(PAIRS)]
VARS = ['vapor_pressure', 'rel_humid', 'air_pressure', 'spec_humid']


def items(tier):
    steps = DIVISORS if tier == 'thorough' else CORE_STEPS + [20, 120, 144]
    res = []
    for ts in steps:
        for utc in (False, True):
            for method in ('mtclim', 'passthrough'):
                for lr in (0.0065, 0.009):
                    res.append(dict(ts=ts, utc=utc, method=method, lr=lr,
                                    start='1952-02-20', nd=0))
                for nd in (1, 2):           # records of a day or two
                    if tier == 'quick' and (ts < 30 or ts in (90, 240)):
                        continue
                    res.append(dict(ts=ts, utc=utc, method=method, lr=0.0065,
                                    start='1952-02-28', nd=nd))
    return res


def cells(method, nd):
    res = []
    whole = debruijn(len(TYPES), 2)
    k = 0
    for lat, lon, first in ((a, b, i) for i in (
            [0] if not nd else range(len(whole) - 1) if nd == 2
            else range(len(TYPES))) for a, b in list(zip(LATS, LONS))[
                ::1 if not nd else 4]):
        seq = whole if not nd else whole[first:first + nd] if nd == 2 \
            else [first]
        f0 = record(seq, TYPES)
        for elev in ELEVS[k % 2::2] if not nd else ELEVS[k % 4:][:1]:
            f = dict(f0)
            if method == 'passthrough':
                n = len(seq)
                f['shortwave'] = 150. + 100. * np.sin(np.arange(n))
                # from very dry to far above saturation at any temperature
                f['vapor_pressure'] = 10 ** (1.0 + 3.2 * (
                    0.5 + 0.5 * np.sin(1.9 * np.arange(n) + k)))
            t = [(-35., -20.), (20., 30.), (5., 6.)][k % 3]
            st = {'prec': np.full(90, .5 + k % 4), 't_min': np.full(90, t[0]),
                  't_max': np.full(90, t[1])}
            res.append(cell(len(seq), lat=lat, lon=lon, elev=elev, forcing=f,
                            state=st))
        k += 1
    return res


def evaluate(it, r):
    cs = cells(it['method'], it['nd'])

    def inv(c, got, o, p, dates):
        t, vp = got['temp'], got['vapor_pressure']
        rh, q, pa = got['rel_humid'], got['spec_humid'], got['air_pressure']
        for v, x in got.items():
            if not np.isfinite(x).all():
                yield '%s has missing values' % v
        sat = ref.svp(t) / 1000.
        if vp.min() < 0:
            yield 'negative vapour pressure'
        i = int(np.argmax(vp / sat))
        if vp[i] > sat[i] * (1 + 1e-9):
            yield 'step %d: vapour pressure %r kPa above saturation %r' % (
                i, vp[i], sat[i])
        if rh.min() < 0 or rh.max() > 100:
            yield 'relative humidity outside of [0, 100]'
        for v, x in (('rel_humid', ref.rel_humid(vp, t)),
                     ('air_pressure', ref.air_pressure(
                         t, c['elev'], p['lapse_rate'])),
                     ('spec_humid', ref.spec_humid(vp, pa))):
            e = first_bad(got[v], x, 1e-9, 1e-12)
            if e:
                yield '%s inconsistent with the other outputs %s' % (v, e)
        if q.min() < 0 or q.max() >= 1:
            yield 'specific humidity outside of [0, 1)'

    run_compare(r, cs, VARS, text(it), start=it['start'], inv=inv,
                time_step=it['ts'], utc_offset=it['utc'],
                method=it['method'], lapse_rate=it['lr'],
                out_vars=VARS + ['temp'])
    for c in cs:
        t = c['forcing']['t_max']
        for i in range(max(1, len(t) - 1)):
            r.state(text(it), c['lat'], c['lon'], c['elev'], t[i:i + 2])
    r.show(dict(it, cells=len(cs), days=it['nd'] or len(t)))
