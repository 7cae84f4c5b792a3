"""Daily estimates: the MTCLIM equations, solved for every day."""
import numpy as np

from mc.lib import (ELEVS, LATS, _actual_sun, cell, debruijn, record, ref,
                    run_compare, text)

LEVEL = 'model_checking'
RULE = ('state = (option set, site, wetness of the season, window of two day '
        'types); every day is compared with the published equations solved '
        'independently, and their joint solution is checked by substitution')
ASSUMPTIONS = ['the iteration is solved to tdew_tol, so results agree to that '
               'tolerance']
MINIMUM = {'quick': 500, 'thorough': 1500}
TYPES = [{'prec': p, 't_min': a, 't_max': b} for p, a, b in
         ((0., -38., -31.), (0., -3., 9.), (5., 4., 6.), (.3, 0., 0.),
          (0., 10., 30.), (45., -9., -2.), (0., 22., 46.), (0.01, 14., 19.))]
VARS = ['t_min', 't_max', 'prec', 'vapor_pressure', 'shortwave', 'tskc', 'pet',
        'daylength']
BASE = dict(lw_cloud='cloud_deardorff', rain_scalar=0.75, sw_prec_thresh=0.0,
            tday_coef=0.45, lapse_rate=0.0065, tdew_tol=1e-6)
ALT = dict(lw_cloud=['default'], rain_scalar=[0.3, 1.0],
           sw_prec_thresh=[0.01, 0.3, 10.0], tday_coef=[0.0, 1.0],
           lapse_rate=[0.004, 0.0098], tdew_tol=[1e-2, 1e-9])
STATES = [('dry', 0.0), ('floor', 80. / 365.25), ('wet', 3.0),
          ('spell', None)]


def items(tier):
    opts = [dict(BASE)]
    for k, vs in ALT.items():
        opts += [dict(BASE, **{k: v}) for v in vs]
    if tier == 'thorough':          # all pairs of changed options
        ks = list(ALT)
        for i, a in enumerate(ks):
            for b in ks[i + 1:]:
                opts += [dict(BASE, **{a: x, b: y})
                         for x in ALT[a] for y in ALT[b]]
    return [dict(opt=o, start=s, elev=e) for o in opts
            for s in ('1951-12-20', '1952-06-01')
            for e in (ELEVS if o == BASE or tier == 'thorough'
                      else ELEVS[::2] if s < '1952' else ELEVS[1:2])]


def cells(it):
    seq = debruijn(len(TYPES), 2)
    n = len(seq)
    res = []
    for i, lat in enumerate(LATS):
        for j, (name, wet) in enumerate(STATES):
            k = np.arange(90)
            pr = np.full(90, wet) if wet is not None else \
                np.where(k % 30 == 29, 40., 0.)
            amp = (2.0, 9.0, 17.0, 25.0)[(i + j) % 4]
            st = {'prec': pr, 't_min': 3. * np.sin(k / 5.) - i,
                  't_max': 3. * np.sin(k / 5.) - i + amp}
            f = record(seq[7 * i:] + seq[:7 * i], TYPES)
            if name == 'dry':
                f['prec'] = f['prec'] * (np.arange(n) % 50 == 49)
            res.append(cell(n, lat=lat, lon=10., elev=it['elev'], forcing=f,
                            state=st))
    return res


def evaluate(it, r):
    cs = cells(it)
    o0 = it['opt']

    def inv(c, got, o, p, dates):
        for v, x in got.items():
            if not np.isfinite(x).all():
                yield '%s is not finite' % v
                return
        if got['shortwave'].min() < 0 or got['vapor_pressure'].min() <= 0 or \
                got['pet'].min() < 0:
            yield 'negative shortwave, vapour pressure or PET'
        if not (0 <= got['tskc'].min() and got['tskc'].max() <= 1):
            yield 'cloud fraction outside of [0, 1]'
        # joint solution by substitution: the dewpoint that follows from the
        # PET that was written gives the vapour pressure that was written
        ratio = got['pet'] / o['seasonal']
        tmin, dtr = got['t_min'], got['t_max'] - got['t_min']
        td = ((tmin + 273.15) * (-0.127 + 1.121 * (
            1.003 - 1.444 * ratio + 12.312 * ratio ** 2
            - 32.766 * ratio ** 3) + 0.0006 * dtr) - 273.15)
        tol = max(1e-5, 20 * p['tdew_tol'] * np.sqrt(len(tmin)))
        bad = np.abs(ref.svp(td) / got['vapor_pressure'] - 1)
        if bad.max() > tol:
            yield 'day %d: vapour pressure and PET are not a joint ' \
                'solution (relative residual %.3g)' % (
                    bad.argmax(), bad.max())

    run_compare(r, cs, VARS, text(dict(o0, start=it['start'],
                                       elev=it['elev'])),
                start=it['start'], inv=inv, time_step=1440, out_vars=VARS,
                **o0)
    seq = debruijn(len(TYPES), 2)
    for c in cs:
        for i in range(len(seq) - 1):
            r.state(text(o0), it['start'], c['lat'], c['elev'],
                    float(c['state']['prec'].sum()), i)
    r.show(dict(it, days=len(seq), cells=len(cs)))
