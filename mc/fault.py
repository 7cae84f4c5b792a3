"""A fault injector for the real program.

Two kinds of points can be made to fail:

  * library calls: opening, creating, defining, reading, writing and closing
    netCDF files (whoever makes them, MetSim or xarray), reading text files;
  * lines: every line of MetSim's own source, each time it is executed.

A plan says which points fail and how; without one, the points are counted.
"""
import os
import signal
import sys
import threading
import types

PLAN = None
_installed = False
TOOL = 4


class Injected(Exception):
    """Not a subclass of anything the program could mean to handle."""


class Plan:
    """Counts points; ``hit(label, n)`` decides what happens at the n-th
    point with that label (n from 1)."""

    def __init__(self, hit=None, lines=False):
        self.hit, self.lines = hit, lines
        self.seen = {}
        self.order = []
        self.fired = 0
        self.mutex = threading.Lock()

    def point(self, label):
        with self.mutex:
            n = self.seen[label] = self.seen.get(label, 0) + 1
            self.order.append((label, n))
            e = self.hit(label, n, len(self.order)) if self.hit else None
            if e is not None:
                self.fired += 1
        return e


def lib(label):
    p = PLAN
    if p is not None and not p.lines:
        e = p.point(label)
        if e is not None:
            return e
    return None


def _before(label):
    e = lib(label)
    if e is not None and not isinstance(e, str):
        raise e
    return e


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import netCDF4
    import numpy as np
    import pandas as pd
    import xarray.backends.netCDF4_ as xn
    real = netCDF4.Dataset

    class Faulty(real):
        def __init__(self, filename, mode='r', **kw):
            _before('%s %s' % ({'r': 'open', 'w': 'create'}.get(
                mode, 'reopen'), os.path.basename(str(filename))
                if mode == 'r' else 'output'))
            super().__init__(filename, mode=mode, **kw)
            MODE[id(self)] = mode

        def createDimension(self, *a, **kw):
            _before('createDimension')
            return super().createDimension(*a, **kw)

        def createVariable(self, *a, **kw):
            _before('createVariable')
            IN.append(1)
            try:
                return Var(super().createVariable(*a, **kw))
            finally:
                IN.pop()

        def __getitem__(self, k):
            return self._wrap(super().__getitem__(k))

        @staticmethod
        def _wrap(v):
            return Var(v) if isinstance(v, netCDF4.Variable) else v

        @property
        def variables(self):
            v = real.variables.__get__(self)
            if IN or MODE.get(id(self), 'r') == 'r':
                return v
            return {a: Var(b) for a, b in v.items()}

        def close(self):
            m = MODE.pop(id(self), 'r')
            # the file is closed, but what it held back is lost or late
            try:
                super().close()
            finally:
                if m != 'r':
                    _before('close output')

        def sync(self):
            super().sync()
            _before('sync')

        def __exit__(self, *a):
            self.close()

    MODE, IN = {}, []

    class Var:
        def __init__(self, v):
            object.__setattr__(self, '_v', v)

        def __getattr__(self, k):
            return getattr(self._v, k)

        def __setattr__(self, k, val):
            _before('attribute')
            setattr(self._v, k, val)

        def __getitem__(self, k):
            _before('read')
            return self._v[k]

        def __setitem__(self, k, val):
            e = _before('write')
            if e == 'half':
                # part of the values gets there
                val = np.array(val)
                self._v[k] = val
                part = val[..., :max(1, val.shape[-1] // 2)] if val.ndim \
                    else val
                val[...] = -7777
                val[..., :part.shape[-1]] = part if val.ndim else part
                self._v[k] = val
                raise OSError(28, 'No space left on device')
            self._v[k] = val

        def __len__(self):
            return len(self._v)

        def __array__(self, *a, **kw):
            return np.asarray(self._v[...], *a, **kw)

    netCDF4.Dataset = Faulty
    for m in [m for k, m in list(sys.modules.items())
              if k == 'metsim' or k.startswith('metsim.')]:
        for k, v in list(vars(m).items()):
            if v is real:
                setattr(m, k, Faulty)

    class Proxy:
        def __init__(self, v):
            self._v = v

        def __getattr__(self, k):
            return getattr(self._v, k)

        def __getitem__(self, k):
            _before('read')
            return self._v[k]

        def __setitem__(self, k, val):
            _before('write')
            self._v[k] = val
    real_array = xn.NetCDF4ArrayWrapper.get_array
    xn.NetCDF4ArrayWrapper.get_array = \
        lambda self, needs_lock=True: Proxy(real_array(self, needs_lock))
    read_csv = pd.read_csv

    def csv(*a, **kw):
        _before('read_csv')
        return read_csv(*a, **kw)
    pd.read_csv = csv
    for name in ('fromfile', 'memmap'):
        f = getattr(np, name)
        if isinstance(f, type):
            continue

        def wrapped(*a, _f=f, _n=name, **kw):
            _before(_n)
            return _f(*a, **kw)
        setattr(np, name, wrapped)


_codes = None


def lines(src, on):
    """Line events for the source of MetSim only."""
    global _codes
    import gc
    m = sys.monitoring
    if _codes is None:
        if not on:
            return
        seen = {}

        def walk(c):
            if c.co_filename.startswith(src) and c not in seen:
                seen[c] = 1
                for k in c.co_consts:
                    if isinstance(k, types.CodeType):
                        walk(k)
        gc.unfreeze()
        for o in gc.get_objects():
            if isinstance(o, types.FunctionType):
                walk(o.__code__)
        _codes = list(seen)
        m.use_tool_id(TOOL, 'mcf')
        m.register_callback(TOOL, m.events.LINE, _line)
    for c in _codes:
        m.set_local_events(TOOL, c, m.events.LINE if on else 0)


def _line(code, line):
    p = PLAN
    if p is not None and p.lines:
        e = p.point('%s:%s:%d' % (os.path.basename(code.co_filename),
                                  code.co_name, line))
        if e is not None:
            raise e


def busy(src):
    """What other threads are doing in MetSim's source."""
    me = threading.get_ident()
    res = []
    for i, f in list(sys._current_frames().items()):
        while i != me and f is not None:
            if f.f_code.co_filename.startswith(src):
                res.append('%s:%d' % (f.f_code.co_name, f.f_lineno))
                break
            f = f.f_back
    return res


def held():
    import dask.utils
    return [str(k) for k, v in
            list(dask.utils.SerializableLock._locks.items()) if v.locked()]


def release():
    import dask.utils
    for v in list(dask.utils.SerializableLock._locks.values()):
        if v.locked():
            v.lock.release()


def once(mark):
    try:
        os.close(os.open(mark, os.O_CREAT | os.O_EXCL))
        return True
    except FileExistsError:
        return False


def from_env():
    """In a worker process: MC_FAULT = mark|label|n|how; it happens in one
    worker only, once."""
    global PLAN
    spec = os.environ.get('MC_FAULT')
    if not spec:
        return
    mark, label, n, how = spec.split('|')
    install()

    def hit(lab, k, total):
        if lab == label and k == int(n) and once(mark):
            if how == 'kill':
                os.kill(os.getpid(), signal.SIGKILL)
            return OSError(5, 'Input/output error')
    PLAN = Plan(hit)
