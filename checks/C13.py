"""Temperature: bounded by the daily extremes, which it reaches on time."""
import numpy as np

from mc.lib import (CORE_STEPS, DIVISORS, LATS, LONS, cell, debruijn, product,
                    record, run_compare, text)

LEVEL = 'model_checking'
RULE = ('state = (time step, daylength fraction, UTC flag, latitude, longitude,'
        ' window of three day types); every step is compared with the monotone '
        'interpolation through the daily extremes at their times')
ASSUMPTIONS = ['t_min <= t_max on each day', 'daylength fraction in (0, 1]']
MINIMUM = {'quick': 500, 'thorough': 1500}
PAIRS = [(-12.0, -3.0), (0.0, 0.0), (5.0, 25.0), (18.0, 19.0), (-30.0, 2.0)]
TYPES = [{'prec': 1.0 * (i % 2), 't_min': a, 't_max': b}
         for i, (a, b) in enumerate(PAIRS)]


def items(tier):
    res = []
    for ts in DIVISORS:
        for utc in (False, True):
            res.append(dict(ts=ts, utc=utc, frac=0.67, pe=False))
            fs = (0.05, 0.3, 0.5, 1.0)
            if ts not in CORE_STEPS and tier == 'quick':
                i = DIVISORS.index(ts) + 2 * utc
                fs = (fs[i % 4],)
            res += [dict(ts=ts, utc=utc, frac=f, pe=True) for f in fs]
    # several years
    more = [dict(ts=ts, utc=utc, frac=.6, pe=False, start='1951-10-05',
                 years=3) for ts in (30, 180, 360) for utc in (False, True)]
    return more + [dict(x, start=s) for x in res
            for s in (['1951-12-01'] if tier == 'quick' else
                      ['1951-12-01', '1952-05-02', '2023-10-10'])]


def cells(n=None):
    seq = debruijn(len(TYPES), 3)
    seq = (seq * (1 + (n or 1) // len(seq)))[:n]
    f = record(seq, TYPES)
    st = [{'prec': np.ones(90), 't_min': np.linspace(-5, t, 90),
           't_max': np.linspace(5, t + 3, 90)} for t in (-20., 4., 15.)]
    return [cell(len(seq), lat=LATS[i], lon=LONS[i], elev=200., forcing=f,
                 state=st[i % 3]) for i in range(len(LATS))]


def evaluate(it, r):
    n_days = it.get('years', 0) * 366 or None
    cs = cells(n_days)

    def inv(c, got, o, p, dates):
        t = got['temp']
        n = len(dates)
        lo = np.concatenate([[c['state']['t_min'][-1]], c['forcing']['t_min']])
        hi = np.concatenate([[c['state']['t_max'][-1]], c['forcing']['t_max']])
        if not np.isfinite(t).all():
            yield 'missing temperature'
            return
        w = 2 if p['utc_offset'] else 1
        d = t.reshape(n, -1)
        for i in range(n):
            a, b = max(0, i + 1 - w), i + 2 + w
            if d[i].min() < lo[a:b].min() - 1e-6 or \
                    d[i].max() > hi[a:b].max() + 1e-6:
                yield 'day %d: [%r, %r] outside of the daily extremes ' \
                      '[%r, %r]' % (i, d[i].min(), d[i].max(),
                                    lo[a:b].min(), hi[a:b].max())
                return

    run_compare(r, cs, ['temp'], text(it), start=it['start'], inv=inv,
                time_step=it['ts'], utc_offset=it['utc'],
                period_ending=it['pe'], out_vars=['temp'],
                tmax_daylength_fraction=it['frac'])
    seq = debruijn(len(TYPES), 3)
    for c in cs:
        for i in range(len(seq) - 2):
            r.state(it['ts'], it['frac'], it['utc'], it['pe'], it['start'],
                    c['lat'], c['lon'], tuple(seq[i:i + 3]))
    r.show(dict(it, lats=LATS, lons=LONS, days=len(seq)))
