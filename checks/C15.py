"""Shortwave: the daily energy, when the sun is up, and never negative."""
import numpy as np

from mc import ref
from mc.lib import (CORE_STEPS, DIVISORS, LATS, LONS, _actual_sun, cell,
                    debruijn, record, run_compare, text)

LEVEL = 'model_checking'
RULE = ('state = (time step, method, averaging, UTC flag, latitude, longitude,'
        ' day of the year); the energy of each day, darkness and the share of '
        'each step are checked at every state')
ASSUMPTIONS = ['the share of the day\'s radiation in each 30 s is the real '
               'solar geometry, which C18 decides',
               'at latitudes with midnight sun 1/2880 of the day is not '
               'resolved: energies agree to 1e-3 there']
MINIMUM = {'quick': 500, 'thorough': 1500}
TYPES = [{'prec': p, 't_min': a, 't_max': b} for p, a, b in
         ((0., -3., 9.), (5., 4., 6.), (0., 10., 30.), (30., -9., -9.))]


def items(tier):
    res = []
    for ts in DIVISORS:
        for method, avg in (('mtclim', None), ('passthrough', None),
                            ('passthrough', 'daylight'),
                            ('passthrough', 'daily')):
            for utc in (False, True):
                # quick: of the other steps, each method with one of the two
                i = DIVISORS.index(ts) + (method == 'mtclim') + (
                    avg == 'daily')
                if ts not in CORE_STEPS and tier == 'quick' and i % 2 == utc:
                    continue
                long = ts in (30, 180) or tier == 'thorough'
                for start in (['1951-12-20', '1953-01-01'] if long
                              else ['1952-02-20']):
                    res.append(dict(ts=ts, method=method, avg=avg, utc=utc,
                                    start=start, n=400 if long else 40))
    return res


def evaluate(it, r):
    n = it['n']
    seq = (debruijn(len(TYPES), 4) * 3)[:n]
    cs = []
    for i, (lat, lon) in enumerate(zip(LATS, LONS)):
        f = record(seq[i:] + seq[:i], TYPES)
        if it['method'] == 'passthrough':
            k = np.arange(n)
            f['shortwave'] = np.where(k % 7 == 3, 0., 180 + 170 * np.sin(
                1.3 * k + i))
        cs.append(cell(n, lat=lat, lon=lon, elev=100. * i, forcing=f))
    kw = {} if it['avg'] is None else {'sw_averaging': it['avg']}

    def inv(c, got, o, p, dates):
        x = got['shortwave']
        if not np.isfinite(x).all() or x.min() < 0:
            yield 'shortwave missing or negative'
            return
        frac, dayl, pot, tt = _actual_sun(c['lat'], c['elev'],
                                          p['lapse_rate'])
        doy = np.asarray(dates.dayofyear) - 1
        ts = p['time_step']
        if it['method'] == 'passthrough':
            secs = np.full(n, 86400.) if it['avg'] != 'daylight' \
                else dayl[doy]
            e = c['forcing']['shortwave'] * secs
        else:
            s = dict(p)
            d = ref.daily(c['forcing'], c['state'], doy + 1, c['lat'],
                          c['elev'], (frac, dayl, pot, tt), s)
            e = d['shortwave'] * dayl[doy]
        if not p['utc_offset']:
            day = x.reshape(n, -1)
            got_e = day.sum(axis=1) * ts * 60
            has_sun = frac[doy].sum(axis=1) > 0
            want = np.where(has_sun, e, 0.)
            bad = np.nonzero(np.abs(got_e - want) > 1.2e-3 * want + 1e-3)[0]
            if len(bad):
                b = bad[0]
                yield 'day %s: %r J m-2, the daily value is %r' % (
                    dates[b].date(), got_e[b], want[b])
            dark = frac[doy].reshape(n, -1, 2 * ts).sum(axis=2) == 0
            if (day[dark] != 0).any():
                yield 'shortwave when the sun is down'
            lit = frac[doy].reshape(n, -1, 2 * ts).sum(axis=2) > 1e-9
            if (day[lit & (e[:, None] > 1)] <= 0).any():
                yield 'no shortwave when the sun is up'
    run_compare(r, cs, ['shortwave'], text(it), start=it['start'], inv=inv,
                time_step=it['ts'], utc_offset=it['utc'],
                method=it['method'], out_vars=['shortwave'], **kw)
    for c in cs:
        for i in range(n):
            r.state(text(it), c['lat'], c['lon'], i)
    r.show(dict(it, lats=LATS, lons=LONS))
