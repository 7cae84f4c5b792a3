"""Reference models: what MetSim's documentation and the publications it cites
say the numbers are, written independently of its code, in plain numpy.

Units: C, mm, W m-2, Pa, seconds, minutes.  A day has 1440 minutes; index k of
a step of ts minutes covers minutes [k*ts, (k+1)*ts) of local time.
"""
import math

import numpy as np
import pandas as pd
from scipy.interpolate import PchipInterpolator

SIGMA, EPS, KELVIN = 5.669e-8, 0.62196351, 273.15
G, R_DRY, P0, T0 = 9.80665, 287.0, 101325.0, 288.15
R_GAS, M_AIR, CP = 8.3143, 28.9644e-3, 1010.0
OPTAM = [2.90, 3.05, 3.21, 3.39, 3.69, 3.82, 4.07, 4.37, 4.72, 5.12, 5.60,
         6.18, 6.88, 7.77, 8.90, 10.39, 12.44, 15.36, 19.79, 26.96, 30.00]
STEPS = 2880


def svp(t):
    """Saturation vapour pressure (Pa): Maidment 4.2.2 with the correction
    over ice below freezing."""
    t = np.asarray(t, float)
    s = 610.78 * np.exp(17.269 * t / (237.3 + t))
    return np.where(t < 0, s * (1 + .00972 * t + .000042 * t * t), s)


def pressure_ratio(elev, lr):
    return (1 - lr * elev / T0) ** (G / (lr * R_GAS / M_AIR))


# -- solar geometry ----------------------------------------------------------

def sun(lat, elev, lr):
    """(fraction of the day's potential radiation per 30 s, daylength,
    potential radiation averaged over daylight, daylight transmittance),
    one row for each of 366 days of the year."""
    trans = 0.870 ** pressure_ratio(elev, lr)
    phi = max(-math.pi / 2, min(math.pi / 2, lat * 0.01745329))
    frac = np.zeros((366, STEPS))
    dayl, pot, tt = np.zeros(366), np.zeros(366), np.zeros(366)
    dh = 30.0 / 13750.9871
    for i in range(365):
        decl = -0.4092797 * math.cos((i + 11.25) * 0.017214)
        cc, ss = math.cos(phi) * math.cos(decl), math.sin(phi) * math.sin(decl)
        hss = math.acos(min(max(-ss / cc, -1), 1))
        dayl[i] = min(2 * hss * 13750.9871, 86400)
        if not dayl[i]:
            continue
        top = (1368.0 + 45.5 * math.sin(2 * math.pi * i / 365.25 + 1.7)) * 30.
        h = np.arange(-hss, hss, dh)
        cza = cc * np.cos(h) + ss
        up = cza > 0
        flat = np.where(up, top * cza, 0.0)
        am = 1.0 / (np.where(up, cza, 1.0) + 1e-7)
        deg = (np.arccos(np.clip(cza, -1, 1)) / 0.01745329).astype(int) - 69
        am = np.where(am > 2.9, np.array(OPTAM)[np.clip(deg, 0, 20)], am)
        k = np.clip((43200 + h * 13750.9871) / 30., 0, STEPS - 1).astype(int)
        frac[i][k] = flat      # two instants in one step: the later counts
        total = flat.sum()
        if total > 0:
            frac[i] /= total
            tt[i] = (np.where(up, trans ** am, 0) * flat).sum() / total
        pot[i] = total / dayl[i]
    for a in (frac, dayl, pot, tt):
        a[365] = a[364]
    return frac, dayl, pot, tt


# -- daily estimation (MTCLIM 4.3 as published) -----------------------------

def rolling_mean(x, n):
    return pd.Series(x).rolling(n).mean().values


def daily(f, state, doy, lat, elev, sunny, p):
    """MTCLIM estimates for one cell.  ``f`` and ``state`` hold prec, t_min,
    t_max (state: the 90 days before); sunny = sun(lat, elev, lr)."""
    frac, dayl, pot, tt = sunny
    i = doy - 1
    dayl, pot, tt = dayl[i], pot[i], tt[i]
    tmin, tmax, prec = f['t_min'], f['t_max'], f['prec']
    dtr = tmax - tmin
    sdtr = rolling_mean(np.concatenate(
        [state['t_max'] - state['t_min'], dtr]), 30)[90:]
    seasonal = 365.25 * rolling_mean(np.concatenate(
        [state['prec'], prec]), 90)[90:]
    seasonal = np.maximum(seasonal, 80.0)
    tmean = (tmin + tmax) / 2
    tday = tmean + (tmax - tmean) * p['tday_coef']
    given = f if 'shortwave' in f and p['method'] == 'passthrough' else {}
    tday = given.get('t_day', tday)
    b = 0.031 + 0.201 * np.exp(-0.185 * sdtr)
    tfmax = 1 - 0.9 * np.exp(-b * dtr ** 1.5)
    tfmax = np.where(prec > p['sw_prec_thresh'],
                     tfmax * p['rain_scalar'], tfmax)
    tfmax = given.get('tfmax', tfmax)
    tskc = 1 - tfmax if p['lw_cloud'].upper() == 'CLOUD_DEARDORFF' \
        else np.sqrt(np.minimum((1 - tfmax) / 0.65, 1))

    def sw_of(vp):
        return pot * np.maximum(tt - 6.1e-5 * vp, 1e-4) * tfmax

    def pet_of(sw):
        lh = 2.5023e6 - 2430.54 * tday
        gamma = CP * P0 * pressure_ratio(elev, p['lapse_rate']) / (lh * EPS)
        s = (svp(tday + .2) - svp(tday - .2)) / 0.4
        return 1.26 * (s / (s + gamma)) * sw * 0.72 * dayl / lh

    def tdew_of(pet):
        r = pet / seasonal
        return ((tmin + KELVIN) * (-0.127 + 1.121 * (
            1.003 - 1.444 * r + 12.312 * r ** 2 - 32.766 * r ** 3)
            + 0.0006 * dtr) - KELVIN)

    if 'shortwave' in f:               # passthrough
        sw = f['shortwave']
        pet = f['pet'] if 'pet' in f else pet_of(sw)
        vp = f['vapor_pressure'] if 'vapor_pressure' in f \
            else svp(f['tdew'] if 'tdew' in f else tdew_of(pet))
        if 'tskc' in f:
            tskc = f['tskc']
    else:
        old = tmin
        tdew = tdew_of(pet_of(sw_of(svp(old))))
        for _ in range(200):
            if not np.sqrt(np.mean((tdew - old) ** 2)) > p['tdew_tol']:
                break
            old = tdew
            tdew = tdew_of(pet_of(sw_of(svp(old))))
        vp = svp(tdew)
        sw = sw_of(vp)
        pet = pet_of(sw)
    out = {'t_min': tmin, 't_max': tmax, 'prec': prec, 'pet': pet,
           'vapor_pressure': vp, 'tskc': tskc, 'shortwave': sw,
           'daylength': dayl, 'tfmax': tfmax, 't_day': tday,
           'seasonal': seasonal, 'dtr': dtr, 'smoothed_dtr': sdtr}
    if 'wind' in f:
        out['wind'] = f['wind']
    return out


# -- disaggregation -----------------------------------------------------------

def norm_lon(lon):
    return math.remainder(lon, 360)


def offset_minutes(lon):
    return int(norm_lon(lon) / 360 * 1440)


def shift(minute_series, off):
    """UTC minute t holds local minute t + off (wrapping at the ends)."""
    n = len(minute_series)
    return minute_series[(np.arange(n) + off) % n]


def triangle_day(P, tpk, dur):
    m = np.arange(1440)
    w = np.zeros(1440)
    up = m[(m <= tpk) & (m >= tpk - .5 * dur)]
    dn = m[(m >= tpk) & (m <= tpk + .5 * dur)]
    w[up] = np.linspace(0, 1., len(up))
    w[dn] = np.linspace(1., 0, len(dn))
    if not w.any():         # shorter than a minute
        w[int(tpk)] = 1.
    return P * w / w.sum()


def prec(daily_prec, tmin, months, tpk, dur, ts, p, lon):
    kind = p['prec_type'].upper()
    days = []
    for P, t, m in zip(daily_prec, tmin, months):
        if kind == 'UNIFORM' or (kind == 'MIX' and t < 0):
            days.append(np.full(1440, P / 1440.))
        else:
            days.append(triangle_day(P, tpk[m - 1], dur[m - 1]))
    x = np.concatenate(days)
    if p['utc_offset']:
        x = shift(x, offset_minutes(lon))
    return x.reshape(-1, ts).sum(axis=1)


def hold(daily_values, ts, p, lon):
    """Constant through each local day."""
    x = np.repeat(np.asarray(daily_values, float), 1440)
    if p['utc_offset']:
        x = shift(x, offset_minutes(lon))
    return x.reshape(-1, ts).mean(axis=1)


def extreme_times(frac, doy, n, ts, p, lon):
    """Minute at which each day's t_min and t_max are reached, as offsets on
    the grid of step starts (the value at a step is that at its end)."""
    rise, sett = np.full(366, 240.), np.full(366, 960.)
    for i in range(366):
        up = (frac[i] > 0).astype(int)
        d = np.diff(up)
        r, s = np.nonzero(d > 0)[0], np.nonzero(d < 0)[0]
        if len(r) and r[-1]:
            rise[i] = r[-1] * .5
        if len(s) and s[-1]:
            sett[i] = s[-1] * .5
    if p['utc_offset']:
        rise, sett = rise - offset_minutes(lon), sett - offset_minutes(lon)
    rise = rise[doy - 1] + 1440. * np.arange(n)
    sett = sett[doy - 1] + 1440. * np.arange(n)
    tmax_t = rise + p['tmax_daylength_fraction'] * (sett - rise)
    return rise - ts, tmax_t - ts


def temp(tmin, tmax, before, frac, doy, ts, p, lon):
    n = len(tmin)
    a, b = extreme_times(frac, doy, n, ts, p, lon)
    x = np.ravel(np.column_stack([a, b]))
    y = np.ravel(np.column_stack([tmin, tmax]))
    x = np.concatenate([x[:2] - 1440, x, x[-2:] + 1440])
    y = np.concatenate([before, y, y[-2:]])
    f = PchipInterpolator(x, y)
    return f(np.clip(ts * np.arange(n * 1440 // ts), x[0], x[-1])), a, b


def vapor_pressure(vp_daily, t_sub, t_tmin, ts):
    """kPa: linear between the times of the daily minima, constant beyond
    them, never above saturation."""
    x = ts * np.arange(len(t_sub))
    v = np.interp(x, t_tmin, np.asarray(vp_daily) / 1000.)
    inside = (x >= t_tmin[0]) & (x <= t_tmin[-1])
    sat = svp(t_sub) / 1000.
    if len(t_tmin) == 1:                       # nothing to interpolate
        inside[:] = True
    v = np.where(inside, np.minimum(v, sat), np.nan)
    v = pd.Series(v).ffill().bfill().values
    return np.minimum(v, sat)


def shortwave(sw, secs, frac, doy, ts, p, lon):
    """Average flux over each step; sw averaged over ``secs`` of the day."""
    n = len(sw)
    e = np.asarray(sw) * np.asarray(secs)
    off = int(norm_lon(lon) / 360 * STEPS) if p['utc_offset'] else 0
    flat = frac.ravel()
    out = []
    for d in range(n):
        k = np.arange(STEPS)
        w = flat[((doy[d] - 1) * STEPS + k + off) % len(flat)]
        day = ((d * STEPS + k + off) // STEPS) % n
        out.append((w * e[day]).reshape(-1, 2 * ts).sum(axis=1) / (60. * ts))
    return np.concatenate(out)


EMISSIVITY = {
    'default': lambda e, t: 0.74 + 0.0049 * e,
    'tva': lambda e, t: 0.74 + 0.0049 * e,
    'anderson': lambda e, t: 0.68 + 0.036 * np.sqrt(e),
    'brutsaert': lambda e, t: 1.24 * (e / t) ** 0.14285714,
    'satterlund': lambda e, t: 1.08 * (1 - np.exp(-e ** (t / 2016.))),
    'idso': lambda e, t: 0.7 + 5.95e-5 * e * np.exp(1500. / t),
    'prata': lambda e, t: 1 - (1 + 46.5 * e / t) * np.exp(
        -np.sqrt(1.2 + 3 * 46.5 * e / t))}


def local_days(series, ts, p, lon):
    """Means over the local days of the cell (wrapping at the ends)."""
    off = offset_minutes(lon) if p['utc_offset'] else 0
    return shift(np.repeat(series, ts), -off).reshape(-1, 1440).mean(axis=1)


def longwave(t, vp_kpa, tskc, p, daily_lw=None, ts=None, lon=0.):
    tk = np.asarray(t) + KELVIN
    e = EMISSIVITY[p['lw_type'].lower()](np.asarray(vp_kpa) * 10., tk)
    c = np.asarray(tskc)
    e = c + (1 - c) * e if p['lw_cloud'].lower() == 'cloud_deardorff' \
        else (1 + 0.17 * c ** 2) * e
    lw = e * SIGMA * tk ** 4
    if daily_lw is not None:
        lw = lw * hold(np.asarray(daily_lw) / local_days(lw, ts, p, lon),
                       ts, p, lon)
    return lw


def air_pressure(t, elev, lr):
    """kPa: hydrostatic, from the mean temperature of the column."""
    return P0 / 1000. * np.exp(-elev * G / (
        R_DRY * (KELVIN + np.asarray(t) - 0.5 * elev * lr)))


def spec_humid(vp_kpa, p_kpa):
    w = EPS * vp_kpa / (p_kpa - vp_kpa)
    return w / (1 + w)


def rel_humid(vp_kpa, t):
    return np.minimum(100., 100. * vp_kpa * 1000. / svp(t))


def run_cell(c, dates, p, frac_sun=None):
    """Everything MetSim writes for one cell, for the options in ``p``."""
    doy = np.asarray(dates.dayofyear)
    f, st = c['forcing'], c['state']
    s = frac_sun or sun(c['lat'], c['elev'], p['lapse_rate'])
    d = daily(f, st, doy, c['lat'], c['elev'], s, p)
    ts = int(p['time_step'])
    passthrough = p['method'] == 'passthrough' and \
        p.get('sw_averaging', '') != 'daylight'
    secs = np.full(len(doy), 86400.) if passthrough else d['daylength']
    if ts == 1440:
        d['shortwave'] = d['shortwave'] * secs / 86400.
        return d
    o = {}
    lon = c['lon']
    o['temp'], t_tmin, t_tmax = temp(
        f['t_min'], f['t_max'], [st['t_min'][-1], st['t_max'][-1]],
        s[0], doy, ts, p, lon)
    o['prec'] = prec(f['prec'], f['t_min'], dates.month, c['t_pk'], c['dur'],
                     ts, p, lon)
    o['vapor_pressure'] = vapor_pressure(d['vapor_pressure'], o['temp'],
                                         t_tmin, ts)
    o['shortwave'] = shortwave(d['shortwave'], secs, s[0], doy, ts, p, lon)
    o['tskc'] = hold(d['tskc'], ts, p, lon)
    o['longwave'] = longwave(o['temp'], o['vapor_pressure'], o['tskc'], p,
                             f.get('longwave'), ts, lon)
    o['air_pressure'] = air_pressure(o['temp'], c['elev'], p['lapse_rate'])
    o['spec_humid'] = spec_humid(o['vapor_pressure'], o['air_pressure'])
    o['rel_humid'] = rel_humid(o['vapor_pressure'], o['temp'])
    if 'wind' in f:
        o['wind'] = hold(f['wind'], ts, p, lon)
    return o
