"""Synthetic worlds: small domains, forcings and states, and the driver that
runs the real MetSim on them and reads back what it wrote.

Everything here goes through the public interface: input files on disk (or an
in-memory Dataset for forcing_fmt='data'), ``MetSim(params).run()`` and the
netCDF files it leaves in out_dir.
"""
import contextlib
import datetime
import gc
import glob
import io as _io
import os
import shutil
import sys
import tempfile
import traceback
import warnings
from collections import OrderedDict

import numpy as np
import pandas as pd
import xarray as xr

warnings.filterwarnings('ignore')

REPO = os.environ.get('MC_REPO', '/repo')
SUB_VARS = ['temp', 'prec', 'shortwave', 'longwave', 'vapor_pressure',
            'air_pressure', 'rel_humid', 'spec_humid', 'tskc', 'wind']
DAY_VARS = ['t_min', 't_max', 'prec', 'vapor_pressure', 'shortwave', 'tskc',
            'pet', 'wind', 'daylength']
START = pd.Timestamp('1950-01-01')


def metsim_module():
    import metsim.metsim as mm
    return mm


def scratch(prefix='mc'):
    return tempfile.mkdtemp(prefix=prefix + '_')


@contextlib.contextmanager
def tmpdir(prefix='mc'):
    d = scratch(prefix)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


# --------------------------------------------------------------------------
# cells
# --------------------------------------------------------------------------

def weather(n, seed=0, warm=8.0, span=9.0, wet=3.0):
    """A deterministic, non-repeating n-day weather record (closed form, no
    RNG).  t_max > t_min always; prec >= 0 with dry days."""
    i = np.arange(n) + 1.0
    a = np.sin(1.7 * i + 0.9 * seed)
    b = np.sin(0.83 * i * i + 2.1 * seed)
    c = np.cos(2.3 * i + 0.37 * i * i + 1.3 * seed)
    tmin = warm - 6.0 + 4.0 * a + 1.5 * b
    tmax = tmin + 2.0 + span * (0.5 + 0.5 * c)
    prec = np.maximum(0.0, wet * (b + 0.4 * a))
    wind = 2.0 + 1.5 * (0.5 + 0.5 * a)
    return {'prec': prec, 't_min': tmin, 't_max': tmax, 'wind': wind}


def cell(n=3, seed=0, lat=40.0, lon=-100.0, elev=300.0, mask=1.0,
         t_pk=None, dur=None, forcing=None, state=None, **kw):
    f = weather(n, seed, **kw) if forcing is None else forcing
    s = weather(90, seed + 17, **kw) if state is None else state
    m = np.arange(12)
    return {'lat': lat, 'lon': lon, 'elev': elev, 'mask': mask,
            't_pk': 700.0 + 25.0 * m if t_pk is None else np.asarray(t_pk, float),
            'dur': 300.0 + 20.0 * m if dur is None else np.asarray(dur, float),
            'forcing': {k: np.asarray(v, float) for k, v in f.items()},
            'state': {k: np.asarray(s[k], float)
                      for k in ('prec', 't_min', 't_max')}}


# --------------------------------------------------------------------------
# layouts: turn a list of cells into domain / forcing / state Datasets
# --------------------------------------------------------------------------

def _stack(cells, get, shape):
    return np.stack([np.asarray(get(c)) for c in cells], axis=-1).reshape(
        np.shape(get(cells[0])) + tuple(shape))


class World:
    """cells in row-major order over ``shape`` with spatial dims ``dims``.

    kind: 'grid'  regular lat/lon grid: 1-D lat, lon dimension coordinates
          'hru'   one spatial dim, with no coordinate variable
          'hruc'  one spatial dim with a coordinate variable
          'yx'    curvilinear: dims (y, x), 2-D lat and lon
    """

    def __init__(self, cells, kind='hru', shape=None, dims=None,
                 start=START, lats=None, lons=None, dtype='f8'):
        self.cells = list(cells)
        self.kind = kind
        n = len(self.cells)
        if kind in ('hru', 'hruc'):
            shape, dims = (n,), dims or ('hru',)
        elif kind == 'grid':
            dims = dims or ('lat', 'lon')
        else:
            dims = dims or ('y', 'x')
        assert int(np.prod(shape)) == n
        self.shape, self.dims, self.start = tuple(shape), tuple(dims), \
            pd.Timestamp(start)
        self.nd = len(self.cells[0]['forcing']['prec'])
        self.dtype = dtype
        if kind == 'grid':
            self.lats, self.lons = list(lats), list(lons)
            for i, c in enumerate(self.cells):
                ix = np.unravel_index(i, self.shape)
                c['lat'] = self.lats[ix[self.dims.index('lat')]]
                c['lon'] = self.lons[ix[self.dims.index('lon')]]

    @property
    def stop(self):
        return self.start + pd.Timedelta(days=self.nd - 1)

    def coords(self):
        if self.kind == 'grid':
            return {'lat': np.asarray(self.lats, float),
                    'lon': np.asarray(self.lons, float)}
        if self.kind == 'hruc':
            return {self.dims[0]: 100 + 7 * np.arange(self.shape[0])}
        if self.kind == 'yx':
            return {self.dims[0]: 10.0 * np.arange(self.shape[0]),
                    self.dims[1]: 5.0 * np.arange(self.shape[1]) + 1}
        return {}

    def domain(self):
        d = self.dims
        ds = xr.Dataset(coords=self.coords())
        for v in ('mask', 'elev'):
            ds[v] = (d, _stack(self.cells, lambda c: c[v], self.shape))
        if self.kind != 'grid':
            for v in ('lat', 'lon'):
                ds[v] = (d, _stack(self.cells, lambda c: c[v], self.shape))
        for v in ('t_pk', 'dur'):
            ds[v] = (('month',) + d,
                     _stack(self.cells, lambda c: c[v], self.shape))
        ds['month'] = ('month', np.arange(12, dtype='i4'))
        return ds

    def _series(self, which, times):
        ds = xr.Dataset(coords={'time': times, **self.coords()})
        for v in self.cells[0][which]:
            ds[v] = (('time',) + self.dims, _stack(
                self.cells, lambda c: c[which][v], self.shape).astype(
                    self.dtype))
        return ds

    def forcing(self):
        return self._series('forcing', pd.date_range(
            self.start, periods=self.nd))

    def state(self):
        return self._series('state', pd.date_range(
            self.start - pd.Timedelta(days=90),
            periods=len(self.cells[0]['state']['prec'])))

    # -- files -------------------------------------------------------------
    def write(self, d):
        os.makedirs(d, exist_ok=True)
        self.domain().to_netcdf(os.path.join(d, 'domain.nc'))
        self.forcing().to_netcdf(os.path.join(d, 'forcing.nc'))
        self.state().to_netcdf(os.path.join(d, 'state.nc'))
        return d

    def params(self, d, out=None, **kw):
        mm = metsim_module()
        fv = list(self.cells[0]['forcing'])
        dv = ['lat', 'lon', 'mask', 'elev']
        ptype = str(kw.get('prec_type', 'uniform')).upper()
        if ptype in ('TRIANGLE', 'MIX'):
            dv += ['t_pk', 'dur']
        daily = int(kw.get('time_step', 60)) == 1440
        ov = DAY_VARS if daily else SUB_VARS
        ov = [v for v in ov if v != 'wind' or 'wind' in fv]
        p = {'start': self.start.strftime('%Y/%m/%d'),
             'stop': self.stop.strftime('%Y/%m/%d'),
             'forcing': os.path.join(d, 'forcing.nc'),
             'domain': os.path.join(d, 'domain.nc'),
             'state': os.path.join(d, 'state.nc'),
             'forcing_fmt': 'netcdf',
             'out_dir': out or os.path.join(d, 'out'),
             'out_prefix': 'forcing',
             'method': 'mtclim', 'time_step': 60, 'scheduler': 'sync',
             'out_precision': 'f8',
             'forcing_vars': OrderedDict((v, v) for v in fv),
             'state_vars': OrderedDict((v, v) for v in
                                       ('prec', 't_min', 't_max')),
             'domain_vars': OrderedDict((v, v) for v in dv),
             'out_vars': out_vars(ov),
             # every option that has a default, spelled out, so that a run
             # is determined by this dictionary alone
             'calendar': 'standard', 'prec_type': 'uniform',
             'utc_offset': False, 'period_ending': False, 'out_freq': None,
             'chunks': {}, 'num_workers': 1, 'verbose': 0,
             'sw_prec_thresh': 0.0, 'lw_cloud': 'cloud_deardorff',
             'lw_type': 'prata', 'tdew_tol': 1e-6,
             'tmax_daylength_fraction': 0.67, 'rain_scalar': 0.75,
             'tday_coef': 0.45, 'lapse_rate': 0.0065,
             }
        ov = kw.pop('out_vars', None)
        p.update(kw)
        if ov is not None:
            p['out_vars'] = out_vars(ov) if isinstance(ov, (list, tuple)) \
                else ov
        return p


DEFAULT_UNITS = {
    'temp': 'C', 'prec': 'mm timestep-1', 'shortwave': 'W m-2',
    'longwave': 'W m-2', 'vapor_pressure': 'Pa', 'air_pressure': 'kPa',
    'rel_humid': '%', 'spec_humid': 'g g-1', 'tskc': 'fraction',
    'wind': 'm s-1', 't_min': 'C', 't_max': 'C', 'pet': 'mm timestep-1',
    'daylength': 's'}


def out_vars(names):
    return OrderedDict((n, {'out_name': n, 'units': DEFAULT_UNITS[n]})
                       for n in names)


class RunError(Exception):
    """MetSim raised."""


@contextlib.contextmanager
def quiet():
    """MetSim logs to the stdout of the moment its object is created."""
    old = sys.stdout
    sys.stdout = _io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old


STANDARD = ('standard', 'gregorian', 'proleptic_gregorian')


def out_files(out):
    return sorted(glob.glob(os.path.join(out, '*.nc')))


def read_outputs(out, prefix=None):
    """All output files of a directory, in time order, as loaded Datasets."""
    res = []
    for f in out_files(out):
        if prefix and not os.path.basename(f).startswith(prefix + '_'):
            continue
        name = os.path.basename(f)
        try:
            with xr.open_dataset(f) as ds:
                res.append((name, ds.load()))
        except Exception as e:
            raise RunError('%s, which cannot be read: %s: %s' % (
                name, type(e).__name__, e)) from None
        time = res[-1][1].get('time')
        if time is None:
            raise RunError('no error, but %s has no times' % name)
        if time.dtype == object and time.size and getattr(
                time.values[0], 'calendar', '') in STANDARD:
            # (what xarray makes of dates that no Timestamp can hold)
            raise RunError('no error, but %s has times such as %s' % (
                name, min(time.values)))
    res.sort(key=lambda x: (x[1]['time'].values[0] if x[1].sizes['time']
                            else np.datetime64('NaT')))
    return res


def concat(parts):
    ds = [p[1] for p in parts]
    return ds[0] if len(ds) == 1 else xr.concat(ds, dim='time')


@contextlib.contextmanager
def no_gc(on):
    """xarray closes the files of objects that are garbage without taking its
    locks, in whichever thread the collector happens to run."""
    global _frozen
    if not on or not gc.isenabled():
        yield
        return
    gc.collect()
    if not _frozen:
        gc.freeze()
        _frozen = True
    gc.disable()
    try:
        yield
    finally:
        gc.enable()


_frozen = False


def run(params, read=True, size=True):
    """Run the real MetSim in this process and return what it wrote."""
    mm = metsim_module()
    out = params['out_dir']
    os.makedirs(out, exist_ok=True)
    before = out_files(out)
    want = expected_size(params) if size else None
    names = [x['out_name'] for x in (params.get('out_vars') or {}).values()
             if 'out_name' in x]
    with quiet(), no_gc(params.get('scheduler') in ('threads', 'threading')):
        try:
            mm.MetSim(params).run()
        except Exception as e:
            err = '%s: %s' % (type(e).__name__, e)
            # let go of what the frames hold (open files among it) now, not
            # whenever the collector comes by in some thread
            while e is not None:
                traceback.clear_frames(e.__traceback__)
                e = e.__cause__ or e.__context__
            raise RunError(err) from None
    if not read:
        return None
    parts = read_outputs(out)
    if not before:
        # (so that nothing that reads on has to wonder)
        for n, ds in parts:
            for v in names:
                if v not in ds:
                    raise RunError('no error, but %s has no %s' % (n, v))
        n = sum(ds.sizes['time'] for _, ds in parts)
        if want not in (None, n):
            raise RunError('no error, but the output holds %d steps, not %d'
                           % (n, want))
    return concat(parts)


def expected_size(params):
    """The number of steps to be written, where that is easily told."""
    if params.get('calendar', 'standard') not in STANDARD:
        return None
    try:
        a, b = [datetime.datetime.strptime(params[k], '%Y/%m/%d')
                for k in ('start', 'stop')]
        return ((b - a).days + 1) * 1440 // int(params['time_step'])
    except (KeyError, TypeError, ValueError):
        return None


def run_world(w, keep=None, **kw):
    with tmpdir() as d:
        w.write(d)
        return run(w.params(d, **kw))


def run_cells(cells, start=START, **kw):
    """Run independent cells (as HRUs) and return {var: array[time, cell]}."""
    ds = run_world(World(cells, kind='hru', start=start), **kw)
    return ds


def equal(a, b):
    """Where two arrays hold the same values, missing ones included.  The last
    few bits may differ, as they may when the same sums are done over arrays
    of another size or in another order."""
    both = a == b
    if a.dtype.kind == 'f' and b.dtype.kind == 'f':
        rtol = 1e-11 if min(a.dtype.itemsize, b.dtype.itemsize) > 4 else 1.3e-7
        with np.errstate(invalid='ignore', over='ignore'):
            both |= np.abs(a - b) <= rtol * np.maximum(
                np.abs(a), np.abs(b)) + 1e-14
            both &= np.isinf(a) == np.isinf(b)
        both |= np.isnan(a) & np.isnan(b)
    return both


def same(a, b):
    """The same shape and values."""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(equal(a, b)))


def same_ds(a, b, names=None):
    names = names or [v for v in a.data_vars]
    for v in names:
        if v not in b:
            return 'variable %s missing' % v
        if a[v].dims != b[v].dims:
            return '%s dims %s != %s' % (v, a[v].dims, b[v].dims)
        x, y = a[v].values, b[v].values
        if not same(x, y):
            if x.shape != y.shape:
                return '%s shape %s != %s' % (v, x.shape, y.shape)
            d = np.argwhere(~equal(x, y))
            i = tuple(d[0])
            return '%s differs at %s: %r != %r (%d values differ)' % (
                v, i, x[i], y[i], len(d))
    if not np.array_equal(a['time'].values, b['time'].values):
        return 'time axis differs'
    return None


def sub_run(runs, d, timeout=200, env=None, order=None):
    """Run params in a process of their own; [error or None, ...].  Ends the
    process group when it does not finish: ['hang', ...]."""
    import json
    import signal
    import subprocess
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    job, res = os.path.join(d, 'job.json'), os.path.join(d, 'result.json')
    with open(job, 'w') as f:
        json.dump({'runs': runs, 'result': res, 'order': order}, f)
    with open(os.path.join(d, 'log'), 'w') as log:
        p = subprocess.Popen(
            [sys.executable, os.path.join(here, 'mc', 'sub.py'), job],
            stdout=log, stderr=log, stdin=subprocess.DEVNULL, cwd=d,
            start_new_session=True, env={**os.environ, **(env or {})})
        try:
            p.wait(timeout)
            state = 'died (exit code %s)' % p.returncode
        except subprocess.TimeoutExpired:
            state = 'hang: no result within %d s' % timeout
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    try:
        with open(res) as f:
            return [x[0] for x in json.load(f)]
    except (OSError, ValueError):
        return [state] * len(order or runs)


def snapshot(out, skip=('history',)):
    """Everything in the output files of a directory: {file: {what: value}}
    of raw values, types, dimensions and attributes."""
    import netCDF4
    res = {}
    for f in out_files(out):
        s = res[os.path.basename(f)] = {}
        with netCDF4.Dataset(f) as nc:
            nc.set_auto_maskandscale(False)
            s['dims'] = {k: (len(v), v.isunlimited())
                         for k, v in nc.dimensions.items()}
            for a in nc.ncattrs():
                if a not in skip:
                    s['attr:' + a] = repr(nc.getncattr(a))
            for k, v in nc.variables.items():
                s['var:' + k] = (str(v.dtype), v.dimensions,
                                 v[:].tobytes(),
                                 {a: repr(v.getncattr(a))
                                  for a in v.ncattrs()})
    return res


def snap_diff(a, b, skip=()):
    """The first difference between two snapshots, or None."""
    if sorted(a) != sorted(b):
        return 'files %s, expected %s' % (sorted(b), sorted(a))
    for f in a:
        for k in sorted(set(a[f]) | set(b[f])):
            if k in skip:
                continue
            x, y = a[f].get(k), b[f].get(k)
            if x == y:
                continue
            if x is None or y is None:
                return '%s: %s only in one' % (f, k)
            if k.startswith('var:'):
                for n, i in (('type', 0), ('dimensions', 1), ('values', 2),
                             ('attributes', 3)):
                    if x[i] != y[i]:
                        if i == 2:
                            p = np.frombuffer(x[2], x[0]), \
                                np.frombuffer(y[2], y[0])
                            if len(p[0]) == len(p[1]):
                                d = np.nonzero(~((p[0] == p[1]) | (
                                    (p[0] != p[0]) & (p[1] != p[1]))))[0]
                                if not len(d):
                                    continue
                                return '%s: %s: %r != %r at %d (%d values)' \
                                    % (f, k, p[1][d[0]], p[0][d[0]], d[0],
                                       len(d))
                            return '%s: %s: %d values, expected %d' % (
                                f, k, len(p[1]), len(p[0]))
                        return '%s: %s: %s %r != %r' % (f, k, n, y[i], x[i])
                continue
            return '%s: %s: %r != %r' % (f, k, y, x)
    return None


def forked(fn, timeout=300):
    """fn() in a forked child; (value, None) or (None, error text)."""
    import multiprocessing as mp
    import traceback
    ctx = mp.get_context('fork')
    a, b = ctx.Pipe(duplex=False)

    def body():
        try:
            b.send((fn(), None))
        except BaseException:
            b.send((None, traceback.format_exc()))
        b.close()
        os._exit(0)
    p = ctx.Process(target=body)
    p.start()
    b.close()
    try:
        res = a.recv() if a.poll(timeout) else (None, 'hang')
    except EOFError:
        res = None, 'died'
    p.kill()
    p.join()
    return res
