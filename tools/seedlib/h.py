"""A small world to run MetSim on, in a scratch directory of its own."""
import atexit
import copy
import logging
import os
import shutil
import sys
import tempfile
import warnings

warnings.simplefilter('ignore')
os.environ.setdefault('HDF5_USE_FILE_LOCKING', 'FALSE')
REPO = os.getcwd()
sys.path.insert(0, REPO)
D = tempfile.mkdtemp(prefix='demo_')
atexit.register(shutil.rmtree, D, True)

import numpy as np
import pandas as pd
import xarray as xr


def weather(n, i):
    k = np.arange(n)
    t = 8 + 6 * np.sin(k / 3. + i) - 2 * i
    r = 6 + 4 * np.cos(k * 1.7 + i)
    return {'prec': np.where((k + i) % 3 == 1, 3.25 + k % 5 + i, 0.),
            't_min': t - r / 2, 't_max': t + r / 2,
            'wind': 1.5 + i + k % 4}


class W:
    """lats x lons cells (or whatever ``dims`` says) from ``start`` on."""

    def __init__(self, lats=(40., 52.), lons=(-100., 30.), nd=3,
                 start='1951-12-30', extra=()):
        self.start = pd.Timestamp(start)
        self.stop = self.start + pd.Timedelta(days=nd - 1)
        self.lats, self.lons, self.nd = list(lats), list(lons), nd
        sh = (len(self.lats), len(self.lons))

        def ds(n, first, names):
            a = {v: np.zeros((n,) + sh) for v in names}
            for j, (y, x) in enumerate(np.ndindex(*sh)):
                w = weather(n, j + (7 if n == 90 else 0))
                w['shortwave'] = 120. + 15 * j + 20 * np.arange(n)
                for v in names:
                    a[v][:, y, x] = w[v]
            return xr.Dataset(
                {v: (('time', 'lat', 'lon'), x) for v, x in a.items()},
                {'time': pd.date_range(first, periods=n), 'lat': self.lats,
                 'lon': self.lons})
        names = ['prec', 't_min', 't_max'] + list(extra)
        self.forcing = ds(nd, self.start, names)
        self.state = ds(90, self.start - pd.Timedelta(days=90),
                        ['prec', 't_min', 't_max'])
        k = np.arange(sh[0] * sh[1]).reshape(sh)
        m = np.arange(12)[:, None, None]
        self.domain = xr.Dataset(
            {'mask': (('lat', 'lon'), np.ones(sh)),
             'elev': (('lat', 'lon'), 100. + 450 * k),
             't_pk': (('month', 'lat', 'lon'), 600. + 15 * k + 20 * m),
             'dur': (('month', 'lat', 'lon'), 200. + 11 * k + 30 * m)},
            {'lat': self.lats, 'lon': self.lons, 'month': np.arange(12)})

    def write(self, name='in'):
        d = os.path.join(D, name)
        os.makedirs(d, exist_ok=True)
        for v in ('forcing', 'state', 'domain'):
            getattr(self, v).to_netcdf(os.path.join(d, v + '.nc'))
        return d

    def params(self, d, out='out', **kw):
        vs = {v: v for v in self.forcing.data_vars}
        p = dict(forcing=os.path.join(d, 'forcing.nc'),
                 state=os.path.join(d, 'state.nc'),
                 domain=os.path.join(d, 'domain.nc'), forcing_fmt='netcdf',
                 start=self.start.strftime('%Y/%m/%d'),
                 stop=self.stop.strftime('%Y/%m/%d'),
                 out_dir=os.path.join(D, out), time_step=180,
                 scheduler='sync', out_precision='f8', num_workers=1,
                 verbose=logging.ERROR, forcing_vars=vs,
                 state_vars={v: v for v in ('prec', 't_min', 't_max')},
                 domain_vars={v: v for v in ('lat', 'lon', 'mask', 'elev',
                                             't_pk', 'dur')},
                 chunks={}, out_vars=['temp', 'prec', 'shortwave',
                                      'longwave', 'vapor_pressure',
                                      'rel_humid'])
        p.update(kw)
        if isinstance(p['out_vars'], list):
            p['out_vars'] = {v: {'out_name': v} for v in p['out_vars']}
        return p

    def run(self, out='out', name='in', **kw):
        """Run it into a directory and return the output, all in memory."""
        return go(self.params(self.write(name), out, **kw))


def go(p):
    from metsim.metsim import MetSim
    ms = MetSim(copy.deepcopy(p))
    ms.run()
    return read(p['out_dir'])


def files(d):
    return sorted(os.path.join(d, f) for f in os.listdir(d)
                  if f.endswith('.nc'))


def read(d):
    parts = []
    for f in files(d):
        with xr.open_dataset(f) as ds:
            parts.append(unfill(ds.load()))
    return parts[0] if len(parts) == 1 else xr.concat(
        parts, dim='time').sortby('time')


def unfill(ds):
    """Mark the values that were never written as missing."""
    for v in ds.data_vars:
        x = ds[v].values
        if x.dtype.kind == 'f':
            ds[v] = ds[v].dims, np.where(np.abs(x) > 9e35, np.nan, x), ds[v].attrs
    return ds


def same(a, b, what='outputs'):
    assert sorted(a.data_vars) == sorted(b.data_vars), what
    assert a.sizes == b.sizes, (what, a.sizes, b.sizes)
    for v in a.data_vars:
        x, y = a[v], b[v].transpose(*a[v].dims)
        if not np.array_equal(x.values, y.values, equal_nan=True):
            raise AssertionError('%s differ in %s' % (what, v))


def refused(p):
    """The run raises and leaves no values behind."""
    try:
        ds = go(p)
    except Exception:
        if os.path.isdir(p['out_dir']):
            for f in files(p['out_dir']):
                with xr.open_dataset(f) as ds:
                    unfill(ds.load())
                    for v in ds.data_vars:
                        assert not np.isfinite(ds[v].values).any(), v
        return
    raise AssertionError('the run was not refused')
