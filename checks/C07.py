"""A configuration that cannot be honoured is refused before anything is
written; one that can is run."""
import os

import numpy as np

from mc import world
from mc.lib import DIVISORS, World, cell, tmpdir

LEVEL = 'model_checking'
RULE = ('state = (option, value), for every time step from -10 to 1500 '
        'minutes and every value of each enumerated option; accepted exactly '
        'if documented as valid, and nothing is written when refused')
ASSUMPTIONS = ['values are of the types a configuration file can give']
MINIMUM = {'quick': 600, 'thorough': 1500}
STEPS = DIVISORS + [1440]
CHOICES = {
    'lw_cloud': (['default', 'cloud_deardorff', 'DEFAULT', 'Cloud_Deardorff'],
                 ['', 'none', 'cloud', 'deardorff', 'prata', None, 1]),
    'lw_type': (['default', 'tva', 'anderson', 'brutsaert', 'satterlund',
                 'idso', 'prata', 'PRATA', 'Idso', 'TVA'],
                ['', 'none', 'cloud_deardorff', 'pratt', 'swinbank', None,
                 3]),
    'prec_type': (['uniform', 'triangle', 'mix', 'UNIFORM', 'Mix',
                   'TRIANGLE'],
                  ['', 'none', 'triangular', 'box', 'gaussian', None, 0]),
    'out_precision': (['f4', 'f8'], ['', 'f2', 'i4', 'f16', 'double', None]),
    'method': (['mtclim', 'passthrough'], ['', 'mt-clim', 'none', None]),
    'forcing_fmt': (['netcdf'], ['', 'nc', 'grib', 'csv', None]),
    'out_dir': ([], ['', None]),
    'forcing': ([], ['', [], None]),
    'forcing_vars': ([], [{}, None]),
    'out_vars': ([], [{}]),
    'domain': ([], ['', '/nonexistent/domain.nc']),
    'state': ([], ['', '/nonexistent/state.nc']),
}
SUB = ['temp', 'prec', 'shortwave', 'vapor_pressure', 'air_pressure',
       'rel_humid', 'spec_humid', 'longwave', 'tskc', 'wind']
DAY = ['t_min', 't_max', 'prec', 'vapor_pressure', 'shortwave', 'tskc',
       'pet', 'wind', 'daylength']
ALL = sorted(set(SUB + DAY)) + ['t_day', 'dtr', 'elev', 'lat', 'nope', '',
                                'Temp', '_global', 'time']


def items(tier):
    res = []
    steps = list(range(-10, 1501))
    if tier == 'quick':
        # every step up to six hours, and those beyond that divide a day or
        # lie next to one that does
        div = {d for d in range(1, 1441) if 1440 % d == 0}
        steps = [s for s in steps if s <= 380 or
                 any(s + k in div for k in (-1, 0, 1)) or s % 60 == 0
                 or s > 1490]
    for i in range(0, len(steps), 40):
        res.append(dict(k='step', steps=steps[i:i + 40]))
    for o in CHOICES:
        for ts in (60, 1440):
            res.append(dict(k='choice', o=o, ts=ts))
    for ts in (60, 1, 360, 1440):
        res.append(dict(k='outputs', ts=ts))
    res.append(dict(k='required'))
    return res


def attempt(r, w, d, tag, ok, late=False, **kw):
    """Run; accepted must equal ``ok``.  ``ok`` None: only that a refusal
    writes nothing and an acceptance writes a complete file.  ``late``: what is
    wrong is only found by whoever reads the inputs, after the output files
    were set up."""
    out = kw.get('out_dir')
    if 'out_dir' not in kw:
        out = kw['out_dir'] = d + '/o%d' % len(os.listdir(d))
    before = set(os.listdir(d))
    p = w.params(d)
    p.update(kw)
    mm = world.metsim_module()
    err = None
    with world.quiet():
        try:
            mm.MetSim(p).run()
        except Exception as e:
            err = '%s: %s' % (type(e).__name__, e)
    r.state(tag)
    r.trace()
    r.trans()
    r.outcome(tag, err is None)
    files = world.out_files(out) if out else []
    if err is None:
        if ok is False:
            r.fail(tag + ':accepted', 'an invalid configuration (%s) was run'
                   % tag)
        complete = len(files) == 1
        if complete:
            ds = world.concat(world.read_outputs(out))
            names = [v['out_name'] for v in p['out_vars'].values()]
            complete = set(names) <= set(ds.data_vars) and all(
                np.isfinite(ds[v]).all() for v in names)
        if not complete:
            r.fail(tag + ':incomplete', 'the run of %s ended without '
                   'complaint and without complete output' % tag)
    else:
        if ok is True:
            r.fail(tag + ':refused', 'a valid configuration (%s) was refused:'
                   ' %s' % (tag, err))
        if files and not late:
            r.fail(tag + ':leftover', 'refusing %s (%s) left %s' % (
                tag, err[:200], [os.path.basename(f) for f in files]))
        new = set(os.listdir(d)) - before - {os.path.basename(out or '')}
        if new:
            r.fail(tag + ':stray', 'refusing %s created %s' % (tag, new))


def evaluate(it, r):
    k = it['k']
    c = cell(2, seed=1)
    w = World([c])
    with tmpdir() as d:
        w.write(d)
        os.chdir(d)
        if k == 'step':
            for s in it['steps']:
                day = s == 1440
                kw = dict(time_step=s, out_vars=world.out_vars(['prec']))
                attempt(r, w, d, 'time_step=%d' % s, s in STEPS, **kw)
                if s in (60, 77, 1440, 0, 720) and not day:
                    kw['time_step'] = str(s)
                    attempt(r, w, d, "time_step='%d'" % s, s in STEPS, **kw)
        elif k == 'choice':
            good, bad = CHOICES[it['o']]
            ts = it['ts']
            for v, ok in [(x, True) for x in good] + \
                    [(x, False) for x in bad]:
                kw = {it['o']: v}
                kw.setdefault('out_vars', world.out_vars(['prec']))
                dv = ['lat', 'lon', 'mask', 'elev', 't_pk', 'dur']
                kw['domain_vars'] = {x: x for x in dv}
                if it['o'] == 'method' and v == 'passthrough':
                    c2 = cell(2, seed=1)
                    c2['forcing']['shortwave'] = np.array([100., 200.])
                    w2 = World([c2])
                    w2.write(d + '/pt')
                    kw.update(forcing=d + '/pt/forcing.nc',
                              forcing_vars={x: x for x in c2['forcing']})
                attempt(r, w, d, '%s=%r,ts=%d' % (it['o'], v, ts), ok,
                        late=it['o'] == 'state',
                        time_step=ts, **kw)
        elif k == 'outputs':
            good = DAY if it['ts'] == 1440 else SUB
            for v in ALL:
                ok = v in good
                if v == 't_day' and it['ts'] == 1440:
                    ok = None
                attempt(r, w, d, 'out=%s,ts=%d' % (v, it['ts']), ok,
                        time_step=it['ts'],
                        out_vars={v: {'out_name': v or 'x'}})
                # a bad one among good ones
                if ok is False:
                    attempt(r, w, d, 'out=prec+%s,ts=%d' % (v, it['ts']),
                            False, time_step=it['ts'],
                            out_vars={'prec': {'out_name': 'prec'},
                                      v: {'out_name': v or 'x'}})
        else:
            for v in ('prec', 't_min', 't_max'):
                fv = {x: x for x in ('prec', 't_min', 't_max') if x != v}
                for ts in (60, 1440):
                    attempt(r, w, d, 'without %s,ts=%d' % (v, ts), False,
                            forcing_vars=fv, time_step=ts,
                            out_vars=world.out_vars(['tskc']))
                attempt(r, w, d, 'state without %s' % v, False, True,
                        state_vars=fv, out_vars=world.out_vars(['tskc']))
            for v in ('lat', 'lon', 'mask', 'elev'):
                attempt(r, w, d, 'domain without %s' % v, False, True,
                        domain_vars={x: x for x in ('lat', 'lon', 'mask',
                                                    'elev') if x != v},
                        out_vars=world.out_vars(['tskc']))
            for v in ('t_pk', 'dur'):
                for t in ('triangle', 'MIX'):
                    attempt(r, w, d, '%s without %s' % (t, v), False,
                            True, prec_type=t, domain_vars={
                                x: x for x in ('lat', 'lon', 'mask', 'elev',
                                               't_pk', 'dur') if x != v},
                            out_vars=world.out_vars(['prec']))
            for ch, ok in (({'hru': 1}, True), ({'hru': 7}, True),
                           ({'hru': '1'}, True), ({}, True),
                           ({'hru': 0}, False), ({'hru': -1}, False),
                           ({'hru': 'x'}, False), ({'lat': 1}, False),
                           ({'hru': 1, 'y': 1}, False),
                           ({'time': 1}, False), ({'hru': None}, False)):
                for s in ('sync', 'threads'):
                    attempt(r, w, d, 'chunks=%s,%s' % (ch, s), ok, True,
                            chunks=ch, scheduler=s, num_workers=2,
                            out_vars=world.out_vars(['prec']))
            for nw in (1, 2, 5, 0, None):
                for s in ('sync', 'threads'):
                    attempt(r, w, d, 'num_workers=%s,%s' % (nw, s), True,
                            scheduler=s, num_workers=nw, chunks={'hru': 1},
                            out_vars=world.out_vars(['prec']))
            attempt(r, w, d, 'wind without wind', False, True,
                    forcing_vars={x: x for x in ('prec', 't_min', 't_max')},
                    out_vars=world.out_vars(['wind']))
        os.chdir('/')
    r.show(it)
