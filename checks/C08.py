"""The same configuration gives the same output however it is written down:
INI, YAML, a dictionary, or on the command line; and no option is ignored."""
import argparse
import itertools
import os
import shutil
import subprocess
import sys

import numpy as np

from mc import world
from mc.lib import World, cell, text, tmpdir

LEVEL = 'model_checking'
RULE = ('state = (notation, set of options that differ from the defaults); '
        'each is written in every notation, read by the program, run, and '
        'compared with the run of the dictionary; each single option must '
        'change the output of the default')
ASSUMPTIONS = ['values of global attributes keep the type of the notation and '
               'are not compared']
MINIMUM = {'quick': 130, 'thorough': 800}
OPTIONS = [('time_step', 180), ('time_step', 1440), ('prec_type', 'triangle'),
           ('prec_type', 'mix'), ('utc_offset', True),
           ('period_ending', True), ('out_freq', 'D'),
           ('out_precision', 'f8'), ('lw_type', 'tva'), ('lw_type', 'IDSO'),
           ('lw_cloud', 'default'), ('sw_prec_thresh', 3.0),
           ('tdew_tol', 1e-2), ('tmax_daylength_fraction', 0.45),
           ('rain_scalar', 0.4), ('tday_coef', 0.2), ('lapse_rate', 0.003),
           ('method', 'passthrough'), ('constant_vars', {'wind': 2.25}),
           ('chunks', {'lat': 1, 'lon': 2}), ('out_prefix', 'other'),
           ('start', '1950/01/02'), ('stop', '1950/01/03'),
           ('out_vars', {'temp': 'tas', 'prec': 'pr'}),
           ('out_vars', ['temp', 'tskc'])]
SILENT = {'chunks'}      # must not change the output
SECTIONS = ('chunks', 'forcing_vars', 'state_vars', 'domain_vars',
            'constant_vars')
NAMES = {'prec': 'Prec', 't_min': 'Tmin', 't_max': 'Tmax',
         'shortwave': 'swd', 'elev': 'height', 'mask': 'active', 't_pk': 'tp',
         'dur': 'du', 'lat': 'lat', 'lon': 'lon'}


def combos(tier):
    n = len(OPTIONS)
    res = [[]] + [[i] for i in range(n)]
    pairs = [[i, j] for i, j in itertools.combinations(range(n), 2)
             if OPTIONS[i][0] != OPTIONS[j][0]]
    if tier == 'quick':
        # every option with its cyclic successors
        pairs = [p for p in pairs if (p[1] - p[0]) in (3, 8)]
    return res + pairs


def items(tier):
    cs = combos(tier)
    return [dict(k='files', combos=cs[i:i + 4]) for i in range(0, len(cs), 4)
            ] + [dict(k='cli', fmt=f, args=a) for f in ('ini', 'yaml')
                 for a in (['-s', 'sync'], ['-s', 'threads', '-n', '2'],
                           ['--scheduler', 'single-threaded', '-v'])] + [
                dict(k='cli', fmt='ini', args=['-n', '2'])] + [
                dict(k='text', i=i) for i in range(len(TEXTS))] + [
                dict(k='flags', fmt=f, flag=x)
                for f in ('ini', 'yaml') for x in FLAGS] + [
                dict(k='paths', fmt=f, conf=x, keys=list(ks))
                for f in ('ini', 'yaml', 'dict') for x in WHERE
                if f != 'dict' or x == WHERE[0]
                for ks in (PATHS[:1], PATHS[1:2], PATHS[2:3], PATHS[3:],
                           PATHS)] + [
                dict(k='vic', vic=v, combo=c)
                for v in ('ascii', 'binary')
                for c in ([[], [0], [17]] if tier == 'quick' else
                          [[]] + [[i] for i in range(len(OPTIONS))])]


# how the columns of the files of cells are described (binary files by their
# scale and type, of which several columns may have the same)
VIC = {'prec': '40 unsigned', 't_max': '100 signed', 't_min': '100 signed',
       'shortwave': '20 unsigned'}
ORDERS = [('prec', 't_max', 't_min'), ('t_min', 'prec', 't_max'),
          ('t_max', 't_min', 'prec')]


def write_vic(w, d, vic, names):
    import struct
    res = []
    os.makedirs(d)
    for c in w.cells:
        res.append('%s/data_%s_%s' % (d, c['lat'], c['lon']))
        cols = []
        for v in names:
            k, t = VIC[v].split()
            cols.append([int(round(float(k) * x)) for x in c['forcing'][v]])
        with open(res[-1], 'wb') as f:
            for row in zip(*cols):
                if vic == 'ascii':
                    f.write((' '.join(repr(x / float(VIC[v].split()[0]))
                                      for v, x in zip(names, row)) +
                             '\n').encode())
                else:
                    for v, x in zip(names, row):
                        f.write(struct.pack(
                            'h' if 'unsigned' not in VIC[v] else 'H', x))
    return res


def make():
    # the state file goes on into the record, for a later start
    cs = [cell(4, seed=i, elev=200. + 300 * i,
               state=world.weather(92, i + 17)) for i in range(4)]
    for i, c in enumerate(cs):
        c['forcing'].pop('wind')
        c['forcing']['shortwave'] = 150. + 20 * i + 30 * np.arange(4)
    cs[2]['mask'] = 0.
    return World(cs, kind='grid', shape=(2, 2), lats=[40., 52.],
                 lons=[-100., 20.])


def write_inputs(w, d):
    w.domain().rename({k: v for k, v in NAMES.items() if k in w.domain()
                       and k != v}).to_netcdf(d + '/domain.nc')
    for f, ds in (('forcing', w.forcing()), ('state', w.state())):
        ds.rename({k: v for k, v in NAMES.items() if k in ds and k != v}
                  ).to_netcdf('%s/%s.nc' % (d, f))


def config(d, out, combo):
    o = dict(OPTIONS[i] for i in combo)
    c = {'start': '1950/01/01', 'stop': '1950/01/04', 'time_step': 360,
         'forcing': d + '/forcing.nc', 'domain': d + '/domain.nc',
         'state': d + '/state.nc', 'forcing_fmt': 'netcdf', 'out_dir': out,
         'out_prefix': 'forcing'}
    fv = ['prec', 't_min', 't_max']
    if o.get('method') == 'passthrough':
        fv.append('shortwave')
    c['forcing_vars'] = {v: NAMES[v] for v in fv}
    c['state_vars'] = {v: NAMES[v] for v in fv[:3]}
    c['domain_vars'] = {v: NAMES[v] for v in ('lat', 'lon', 'mask', 'elev',
                                              't_pk', 'dur')}
    c['chunks'] = {}
    c.update(o)
    ov = o.get('out_vars', ['prec'])
    daily = o.get('time_step') == 1440
    want = ov if isinstance(ov, dict) else {v: v for v in (
        ['tskc', 'shortwave', 'vapor_pressure', 'prec', 't_min', 'pet']
        if daily else world.SUB_VARS[:-1] if 'out_vars' not in o else ov)}
    if 'constant_vars' in o and isinstance(ov, list):
        want['wind'] = 'wind'
    if daily:
        want = {('t_min' if k == 'temp' else k): v for k, v in want.items()}
    c['out_vars'] = want
    return c


def as_dict(c):
    p = {k: v for k, v in c.items()}
    for s in ('forcing_vars', 'state_vars', 'domain_vars'):
        p[s] = {v: k for k, v in c[s].items()}
    p['out_vars'] = {k: {'out_name': v} for k, v in c['out_vars'].items()}
    p['scheduler'] = 'sync'
    return p


def as_ini(c, variant=0):
    t = '# comment\n[MetSim]\n'
    flat = {k: v for k, v in c.items() if k not in SECTIONS}
    ov = flat.pop('out_vars')
    same = all(k == v for k, v in ov.items())
    if same and variant == 0:
        flat['out_vars'] = str(list(ov))
    for k, v in flat.items():
        t += '%s = %s\n' % (k, v)
    for s in SECTIONS:
        if s in c:
            t += '\n[%s]\n' % s + ''.join('%s = %s\n' % x
                                          for x in c[s].items())
    if not same or variant:
        t += '\n[out_vars]\n' + ''.join('%s = %s\n' % x for x in ov.items())
    return t


def as_yaml(c, variant=0):
    import yaml
    flat = {k: v for k, v in c.items()
            if k not in SECTIONS and k != 'out_vars'}
    if variant:
        import datetime
        for k in ('start', 'stop'):
            flat[k] = datetime.date(*map(int, flat[k].split('/')))
    doc = {'MetSim': flat}
    for s in SECTIONS:
        if s in c:
            doc[s] = dict(c[s])
    doc['out_vars'] = {k: {'out_name': v} for k, v in c['out_vars'].items()}
    t = yaml.safe_dump(doc, sort_keys=False)
    assert t.startswith('MetSim:')
    return '# comment\n' + t


def read(path):
    from metsim import io
    return io.read_config(argparse.Namespace(
        config=path, scheduler='sync', num_workers=1, verbose=False))


def data(out):
    """Variables, types, dimensions and attributes; not the globals."""
    return {f: {k: v for k, v in s.items() if not k.startswith('attr:')}
            for f, s in world.snapshot(out).items()}


def run(p, out):
    p['out_dir'] = out
    world.run(p, read=False)
    return data(out)


# ways of writing the same file that must not matter: (what, transform of the
# INI text, transform of the YAML text)
TEXTS = [
    ('comments', lambda t: '# a\n# b\n\n' + t + '\n# c\n',
     lambda t: '# a\n\n# b\n' + t + '\n# c\n'),
    ('blank lines', lambda t: '\n\n' + t.replace('\n', '\n\n'),
     lambda t: '\n\n' + t),
    ('indented comment', lambda t: '   # x\n' + t, lambda t: '   # x\n' + t),
    ('inline comment on the section', lambda t: t,
     lambda t: t.replace('MetSim:\n', 'MetSim: # main\n', 1)),
    ('false flags', lambda t: t.replace('[MetSim]', '[MetSim]\n'
                                        'utc_offset = False\n'
                                        'period_ending = false'),
     lambda t: t.replace('MetSim:\n', 'MetSim:\n  utc_offset: false\n'
                         '  period_ending: False\n', 1)),
    ('no space around =', lambda t: t.replace(' = ', '='),
     lambda t: t),
    ('colon', lambda t: t.replace(' = ', ': '), lambda t: t),
    ('quoted', lambda t: t.replace("'", '"'),
     lambda t: t.replace('time_step: 360', 'time_step: "360"')),
    ('calendar', lambda t: t.replace('[MetSim]', '[MetSim]\n'
                                     'calendar = standard'),
     lambda t: t.replace('MetSim:\n', 'MetSim:\n  calendar: standard\n', 1)),
]


# relative paths are those of the directory that the program is started in,
# wherever the configuration lies
PATHS = ('forcing', 'domain', 'state', 'out_dir')
WHERE = ('here', 'here/sub', '', 'there')
FORMS = (lambda x: x, lambda x: './' + x, lambda x: '../here/' + x,
         lambda x: 'sub/../' + x)
FLAGS = ['utc_offset', 'period_ending']
# every usual way of writing a flag: in INI, where all values are text, and
# in YAML, where an unquoted one is a boolean
SPELLED = {'ini': [(True, x) for x in (
    'True', 'true', 'TRUE', ' True ', 'true  ')] + [(False, x) for x in (
        'False', 'false', 'FALSE', ' False ')],
    'yaml': [(True, x) for x in (
        'True', 'true', 'TRUE', 'yes', 'on')] + [
            (False, x) for x in ('False', 'false', 'FALSE', 'no', 'off')]}


def evaluate(it, r):
    w = make()
    with tmpdir() as d:
        write_inputs(w, d)
        n = itertools.count()
        fresh = lambda: '%s/o%d' % (d, next(n))

        def attempt(key, what, fn):
            try:
                x = fn()
            except Exception as e:
                r.fail(key + ':raised', '%s: %s: %s' % (
                    what, type(e).__name__, e))
                return None
            r.trace()
            return x

        def cmp(key, what, ref, got):
            r.trans()
            e = world.snap_diff(ref, got) if got is not None else None
            if e:
                r.fail(key + ':differs', '%s: %s' % (what, e))

        if it['k'] == 'files':
            base = run(as_dict(config(d, d + '/b', [])), d + '/b')
            for combo in it['combos']:
                opt = ','.join('%s=%s' % OPTIONS[i] for i in combo)
                key = opt or 'defaults'
                c = config(d, fresh(), combo)
                ref = attempt(key, 'dict', lambda: run(as_dict(c), fresh()))
                if ref is None:
                    continue
                r.outcome(key, sorted(ref))
                r.state('dict', key)
                for fmt, fn in (('ini', as_ini), ('yaml', as_yaml)):
                    for v in (0, 1):
                        path = '%s/conf.%s' % (d, fmt)
                        with open(path, 'w') as f:
                            f.write(fn(c, v))
                        r.state(fmt, v, key)
                        got = attempt('%s:%s' % (fmt, key), path,
                                      lambda: run(read(path), fresh()))
                        cmp('%s:%s' % (fmt, key), 'variant %d' % v, ref, got)
                if len(combo) == 1:
                    name = OPTIONS[combo[0]][0]
                    e = world.snap_diff(base, ref)
                    if name in SILENT and e:
                        r.fail(key + ':effect', e)
                    if name not in SILENT and not e:
                        r.fail(key + ':ignored', '%s changes nothing' % key)
        elif it['k'] == 'flags':
            fmt, flag = it['fmt'], it['flag']
            ref = {}
            for on in (True, False):
                c = config(d, fresh(), [])
                c[flag] = on
                ref[on] = run(as_dict(c), fresh())
            for on, word in SPELLED[fmt]:
                path = '%s/conf.%s' % (d, fmt)
                t = (as_ini if fmt == 'ini' else as_yaml)(
                    config(d, fresh(), []))
                t = t.replace('[MetSim]', '[MetSim]\n%s = %s' % (flag, word)
                              ) if fmt == 'ini' else t.replace(
                    'MetSim:\n', 'MetSim:\n  %s: %s\n' % (flag, word), 1)
                with open(path, 'w') as f:
                    f.write(t)
                key = '%s:%s=%s' % (fmt, flag, word)
                r.state(key)
                got = attempt(key, path, lambda: run(read(path), fresh()))
                cmp(key, 'spelling', ref[on], got)
                r.outcome(key)
        elif it['k'] == 'paths':
            c = config(d, fresh(), [])
            ref = run(as_dict(c), fresh())
            for s in ('here/sub', 'there'):
                os.makedirs('%s/%s' % (d, s))
            for s in PATHS[:3]:
                os.rename('%s/%s.nc' % (d, s), '%s/here/%s.nc' % (d, s))
            home = os.getcwd()
            os.chdir(d + '/here')
            try:
                for n, form in enumerate(FORMS):
                    out = 'out%d' % n
                    c = dict(c, out_dir=out, **{
                        s: s + '.nc' for s in PATHS[:3]})
                    c.update({k: form(c[k]) if k in it['keys'] else
                              '%s/here/%s' % (d, c[k]) for k in PATHS})
                    path = os.path.join(d, it['conf'], 'conf')
                    rel = os.path.relpath(path)
                    if it['fmt'] != 'dict':
                        with open(path, 'w') as f:
                            f.write((as_ini if it['fmt'] == 'ini'
                                     else as_yaml)(c))
                    for p in (path, rel)[:1 if it['fmt'] == 'dict' else 2]:
                        key = '%s:paths:%s:%s:%s' % (
                            it['fmt'], form('x'), '+'.join(it['keys']),
                            it['conf'] + (':rel' if p == rel else ''))
                        r.state(key)

                        def go():
                            q = as_dict(c) if it['fmt'] == 'dict' else \
                                read(p)
                            world.run(q, read=False)
                            return data('%s/here/%s' % (d, out))
                        got = attempt(key, key, go)
                        cmp(key, 'relative paths', ref, got)
                        r.outcome(key)
                        shutil.rmtree('%s/here/%s' % (d, out), True)
            finally:
                os.chdir(home)
        elif it['k'] == 'vic':
            for names in ORDERS:
                c = config(d, fresh(), it['combo'])
                if c.get('method') == 'passthrough':
                    names = names[:2] + ('shortwave',) + names[2:]
                vd = '%s/%s' % (d, '-'.join(names))
                files = write_vic(w, vd, it['vic'], names)
                c['forcing_fmt'] = it['vic']
                c['forcing_vars'] = {v: v if it['vic'] == 'ascii' else VIC[v]
                                     for v in names}
                key = 'vic:%s:%s:%s' % (it['vic'], '-'.join(names), ','.join(
                    '%s=%s' % OPTIONS[i] for i in it['combo']))
                p = as_dict(dict(c, forcing=files))
                p['forcing_vars'] = dict(c['forcing_vars'])
                ref = attempt(key, 'dict', lambda: run(p, fresh()))
                if ref is None:
                    continue
                r.state('dict', key)
                for fmt, fn in (('ini', as_ini), ('yaml', as_yaml)):
                    for src in (vd,):
                        path = '%s/conf.%s' % (d, fmt)
                        with open(path, 'w') as f:
                            f.write(fn(dict(c, forcing=src)))
                        what = '%s:%s:%s' % (
                            fmt, 'dir' if src == vd else 'list', key)
                        r.state(what)
                        got = attempt(what, path,
                                      lambda: run(read(path), fresh()))
                        cmp(what, 'files of cells', ref, got)
                        r.outcome(what)
        elif it['k'] == 'text':
            what, fi, fy = TEXTS[it['i']]
            c = config(d, fresh(), [])
            ref = run(as_dict(c), fresh())
            for fmt, fn, tr in (('ini', as_ini, fi), ('yaml', as_yaml, fy)):
                path = '%s/conf.%s' % (d, fmt)
                with open(path, 'w') as f:
                    f.write(tr(fn(c)))
                r.state('text', what, fmt)
                got = attempt('%s:%s' % (fmt, what), path,
                              lambda: run(read(path), fresh()))
                cmp('%s:%s' % (fmt, what), 'text', ref, got)
            r.outcome(what)
        else:
            c = config(d, fresh(), [2, 4])
            ref = run(as_dict(c), fresh())
            c['out_dir'] = fresh()
            c['chunks'] = {'lat': 1}
            path = d + '/conf'
            with open(path, 'w') as f:
                f.write((as_ini if it['fmt'] == 'ini' else as_yaml)(c))
            code = ('import sys; sys.path[:0] = %r; from mc import engine;'
                    'engine._install_loader()\n'
                    'if __name__ == "__main__":\n'
                    '    from metsim.cli.ms import main; main()\n'
                    % ([world.REPO, os.path.dirname(os.path.dirname(
                        os.path.abspath(__file__)))],))
            with open(d + '/cli.py', 'w') as f:
                f.write(code)
            key = 'cli:%s:%s' % (it['fmt'], ' '.join(it['args']))
            r.state(key)
            try:
                x = subprocess.run(
                    [sys.executable, d + '/cli.py', path] + it['args'],
                    cwd=d, stdin=subprocess.DEVNULL, capture_output=True,
                    timeout=240, text=True)
                rc, msg = x.returncode, x.stderr[-600:]
            except subprocess.TimeoutExpired:
                rc, msg = 'hang', ''
            r.trace()
            if rc:
                r.fail(key + ':raised', 'ms ended with %s: %s' % (rc, msg))
            else:
                cmp(key, 'ms', ref, data(c['out_dir']))
            r.outcome(key)
    r.show({'item': it, 'options': OPTIONS[:6]})
