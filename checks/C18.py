"""Solar geometry: physical for every latitude, day and elevation."""
import numpy as np

from mc import world
from mc.lib import _actual_sun, actual_sun, cell, first_bad, ref, text, \
    World, run_ok, tmpdir

LEVEL = 'model_checking'
RULE = ('state = (latitude, elevation, lapse rate, day of the year) on a '
        'regular grid over the whole globe; transitions = latitude -> mirrored '
        'latitude, day -> next day and day -> the half minutes of the day')
ASSUMPTIONS = ['flat horizon; 30 s resolution of the day']
MINIMUM = {'quick': 50000, 'thorough': 200000}


def lats(tier):
    step = 1.0 if tier == 'quick' else 0.25
    a = list(np.arange(0, 90 + step / 2, step))
    return [float(x) for x in a] + [23.44, 43.1, 66.4, 66.55, 66.56, 66.57,
                                    67.4, 89.99]


def brief(days):
    """Latitudes at which a day of the year lasts for seconds only."""
    res = []
    for i in days:
        decl = -0.4092797 * np.cos((i + 11.25) * 0.017214)
        for hss in (1e-6, 1e-4, 1.05e-3, 1.5e-3, 3e-3):
            l = abs(np.arctan(np.cos(hss) / np.tan(decl))) / 0.01745329
            if 66 < l < 90:
                res.append(float(l))
    return res


def items(tier):
    ls = lats(tier) + brief(range(0, 365, 1 if tier != 'quick' else 9))
    ev = [(0., .0065), (2500., .0065)] if tier == 'quick' else \
        [(-100., .0065), (0., .0065), (2500., .0065), (6000., .0065),
         (1500., .005), (1500., .0098)]
    res = [dict(lat=l, elev=e, lr=g) for l in ls for e, g in ev]
    res += [dict(run=y) for y in (1951, 1952)]
    return res


def evaluate(it, r):
    if 'run' in it:
        return run_level(it, r)
    both = {}
    tag = text(it)
    for s in (1, -1):
        lat = s * it['lat']
        try:
            g = [np.array(x) for x in actual_sun(lat, it['elev'], it['lr'])]
        except Exception as e:
            r.fail(tag + ':raised', 'lat %r: %r' % (lat, e))
            return
        both[s] = g
        frac, dayl, pot, tt = g
        want = ref.sun(lat, it['elev'], it['lr'])
        # on days of seconds only, rounding decides whether the sun rises
        ok = want[1] > 120
        ok |= want[1] == 0
        for name, a, b, rt, at in (
                ('radiation shares', frac, want[0], 1e-6, 1e-9),
                ('daylength', dayl, want[1], 1e-9, 1e-5),
                ('potential radiation', pot, want[2], 1e-7, 1e-6),
                ('transmittance', tt, want[3], 1e-7, 1e-9)):
            if name != 'daylength':
                a, b = a[ok], b[ok]
            e = first_bad(a, b, rt, at)
            if e:
                r.fail('%s:%s' % (tag, name), 'lat %r: %s differs from the '
                       'reference model %s' % (lat, name, e))
        for name, a, lo, hi in (('radiation share', frac, 0, 1),
                                ('daylength', dayl, 0, 86400),
                                ('potential radiation', pot, 0, 1500),
                                ('transmittance', tt, 0, 1)):
            if not np.isfinite(a).all() or a.min() < lo or a.max() > hi:
                r.fail('%s:range:%s' % (tag, name), 'lat %r: %s outside of '
                       '[%r, %r]' % (lat, name, lo, hi))
        tot = frac.sum(axis=1)
        sunny = pot > 0
        if np.abs(tot[sunny] - 1).max(initial=0) > 1.5e-3 or \
                tot[~sunny].max(initial=0) > 0:
            r.fail(tag + ':sum', 'lat %r: shares of a day sum to [%r, %r]' % (
                lat, tot[sunny].min(initial=9), tot.max()))
        if ((dayl > 0) != sunny).any() and \
                (np.abs(dayl[(dayl > 0) != sunny]) > 60).any():
            r.fail(tag + ':dark', 'lat %r: daylight without radiation' % lat)
        # lit half minutes are those within half a daylength of noon
        k = np.arange(2880) * 30. + 15 - 43200
        lit = np.abs(k)[None, :] < dayl[:, None] / 2 - 45
        out = np.abs(k)[None, :] > dayl[:, None] / 2 + 45
        if (frac[out] > 0).any() or (frac[lit] <= 0).sum() > 0:
            r.fail(tag + ':lit', 'lat %r: sun up outside of the daylength or '
                   'down within it' % lat)
        # jumps between neighbouring days stay small away from the poles
        if abs(lat) < 60 and np.abs(np.diff(dayl[:365])).max() > 500:
            r.fail(tag + ':smooth', 'lat %r: daylength jumps' % lat)
        for d in range(366):
            r.state(lat, it['elev'], it['lr'], d)
        r.trans(366 * 3)
        r.trace()
        r.outcome(np.round(dayl[::40], 2).tolist())
    e = first_bad(both[1][1][:365] + both[-1][1][:365], np.full(365, 86400.),
                  0, 40. if it['lat'] > 66 else 1e-3) \
        if it['lat'] < 90 else None
    if e:
        r.fail(tag + ':mirror', 'daylengths of lat %r and its mirror do not '
               'add up to a day %s' % (it['lat'], e))
    r.show(it)


def run_level(it, r):
    """Daily output of whole years: the geometry of the right day and place."""
    y = it['run']
    n = 366 if y % 4 == 0 else 365
    ls = [0., 47.3, -35.2, 66.5, -66.7, 75., -90., 90., 89.99, -12.5]
    ls += brief((0, 40))[::4] + [-x for x in brief((172, 330))[1::4]]
    cs = [cell(n, lat=l, elev=500.) for l in ls]
    w = World(cs, start='%d-01-01' % y)
    with tmpdir() as d:
        w.write(d)
        p = w.params(d, time_step=1440, out_vars=['daylength', 'shortwave'])
        ds = run_ok(r, 'run=%d' % y, world.run, dict(p))
    if ds is None:
        return
    for i, l in enumerate(ls):
        s = ref.sun(l, 500., p['lapse_rate'])
        got = ds['daylength'].values[:, i]
        e = first_bad(got, s[1][:n], 1e-9, 1e-5)
        if e:
            r.fail('run=%d:daylength' % y, 'lat %r: %s' % (l, e))
        if (ds['shortwave'].values[:, i][got == 0] != 0).any():
            r.fail('run=%d:night' % y, 'lat %r: shortwave without day' % l)
        r.trans(n)
        r.trace()
        for k in range(n):
            r.state('run', y, l, k)
