"""A controlled scheduler for the real program.

MetSim runs with scheduler='threads'; the pool that dask uses is replaced by
one whose worker threads run one at a time, and which thread goes on is decided
here at every scheduling point:

  * acquiring and releasing a lock (xarray's and MetSim's own);
  * entering and leaving the netCDF library;
  * (granularity 'line') every line of MetSim's own source;

each of them the first ``repeat`` times that a worker comes by.

An execution is determined by its list of choices, so it can be run again, and
the space of executions can be enumerated up to a number of preemptions.
"""
import concurrent.futures
import gc
import os
import sys
import threading
import types

_real_lock = threading.Lock


class Abort(BaseException):
    pass


class Diverged(Exception):
    """The same choices led elsewhere: the harness does not own everything."""


class Task:
    def __init__(self, n, fn, args, fut):
        self.n, self.fn, self.args, self.fut = n, fn, args, fut
        self.go = threading.Semaphore(0)
        self.wait_for = None          # the lock it is blocked on
        self.done = False
        self.label = 'start'
        self.thread = None
        self.region = None
        self.seen = {}


class Scheduler:
    def __init__(self, choices=(), expect=(), lines=False, src='',
                 repeat=3):
        self.choices, self.expect = list(choices), list(expect)
        self.lines, self.src = lines, src
        self.repeat = repeat
        self.tasks = []
        self.by_id = {}
        self.main = threading.Semaphore(0)
        self.points = []     # (label, enabled, running still enabled, chosen)
        self.current = None
        self.problems = []
        self.abort = False
        self.free = False
        self.steps = 0
        self.states = set()

    # -- the pool --------------------------------------------------------
    def submit(self, fn, *args, **kw):
        fut = concurrent.futures.Future()
        t = Task(len(self.tasks), lambda *a: fn(*a, **kw), args, fut)
        self.tasks.append(t)
        t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
        t.thread.start()
        return fut

    def _body(self, t):
        t.go.acquire()
        self.by_id[threading.get_ident()] = t
        try:
            t.fut.set_running_or_notify_cancel()
            try:
                res = t.fn(*t.args)
            except BaseException as e:
                t.fut.set_exception(e if isinstance(e, Exception)
                                    else RuntimeError(repr(e)))
            else:
                t.fut.set_result(res)
        finally:
            t.done = True
            self.current = None
            self.main.release()

    # -- scheduling --------------------------------------------------------
    def enabled(self):
        return [t for t in self.tasks if not t.done and (
            t.wait_for is None or t.wait_for.holder is None)]

    def choose(self, label, running):
        """The next task to run, or None if there is none."""
        en = self.enabled()
        if not en:
            return None
        still = running is not None and running in en
        if still:
            en.remove(running)
            en.insert(0, running)
        self.steps += 1
        if self.free or len(en) == 1:
            return en[0]
        self.states.add(tuple((t.label, t.done) for t in self.tasks))
        i = len(self.points)
        key = '%s@%s' % (label, ','.join(str(t.n) for t in en))
        if i < len(self.expect) and self.expect[i] != key:
            self.problems.append(('diverged', 'point %d: %s, expected %s' % (
                i, key, self.expect[i])))
            self.free = True
            return en[0]
        c = self.choices[i] if i < len(self.choices) else 0
        if c >= len(en):
            self.problems.append(('diverged', 'point %d: choice %d of %d' % (
                i, c, len(en))))
            c = 0
        self.points.append((key, len(en), still, c))
        return en[c]

    def point(self, label):
        t = self.by_id.get(threading.get_ident())
        if t is None:
            return
        if self.abort:
            raise Abort()
        t.label = label
        k = t.seen[label] = t.seen.get(label, 0) + 1
        if k > self.repeat:
            return
        nxt = self.choose(label, t)
        if nxt is not t:
            self._switch(t, nxt)

    def _switch(self, t, nxt):
        if nxt is None:
            # everyone waits: a deadlock
            self.problems.append(('deadlock', '; '.join(
                'task %d waits for %s' % (
                    x.n, x.wait_for.name if x.wait_for else 'nothing')
                for x in self.tasks if not x.done)))
            self.abort = True
            t.wait_for = None
            raise Abort()
        self.current = nxt
        nxt.go.release()
        t.go.acquire()
        if self.abort:
            t.wait_for = None
            raise Abort()

    def pump(self, until):
        """Called by the main thread when it has nothing else to do."""
        while not until():
            nxt = self.choose('main', None)
            if nxt is None:
                live = [x for x in self.tasks if not x.done]
                if not live:
                    return False
                if not self.abort:
                    self.problems.append(('deadlock', 'no task can go on'))
                    self.abort = True
                nxt = live[0]
            self.current = nxt
            nxt.go.release()
            self.main.acquire()
        return True

    def drain(self):
        self.free = True
        while any(not t.done for t in self.tasks):
            n = sum(t.done for t in self.tasks)
            self.pump(lambda: sum(t.done for t in self.tasks) > n)
        for t in self.tasks:
            t.thread.join()

    # -- the netCDF library -------------------------------------------------
    def enter(self, what):
        t = self.by_id.get(threading.get_ident())
        if t is None:
            return None
        for x in self.tasks:
            if x is not t and x.region:
                self.problems.append((
                    'overlap', 'task %d enters the netCDF library (%s) while '
                    'task %d is in it (%s)' % (t.n, what, x.n, x.region[-1])))
        t.region = (t.region or ()) + (what,)
        self.point('in ' + what)
        return t

    def leave(self, t):
        if t is None:
            return
        t.region = t.region[:-1] or None
        if not self.abort:
            self.point('out')


ACTIVE = None


class CoopLock:
    """threading.Lock, under the control of the active scheduler."""
    interesting = True

    def __init__(self, name='lock', interesting=True):
        self.holder = None
        self.real = _real_lock()
        self.name, self.interesting = name, interesting

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        me = threading.get_ident()
        if s is None:
            if not self.real.acquire(blocking, timeout):
                return False
            self.holder = 'real'
            return True
        t = s.by_id.get(me) if s else None
        if t is None:
            if self.holder is not None:
                if not blocking:
                    return False
                if not s.pump(lambda: self.holder is None):
                    raise RuntimeError('lock %s held for ever' % self.name)
            self.holder = me
            return True
        if self.interesting and not s.free:
            s.point('acquire ' + self.name)
        while self.holder is not None:
            if not blocking:
                return False
            if s.abort:
                raise Abort()
            t.wait_for = self
            t.label = 'waits for ' + self.name
            nxt = s.choose('blocked ' + self.name, t)
            if nxt is t:
                break
            s._switch(t, nxt)
        t.wait_for = None
        self.holder = me
        return True

    def release(self):
        if self.holder is None:
            raise RuntimeError('release unlocked lock')
        h, self.holder = self.holder, None
        if h == 'real':
            self.real.release()
            return
        s = ACTIVE
        if s and self.interesting and not s.free and not s.abort and \
                threading.get_ident() in s.by_id:
            s.point('release ' + self.name)

    def locked(self):
        return self.holder is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


def _new_lock():
    f = sys._getframe(1)
    mod = f.f_globals.get('__name__', '')
    ours = mod.startswith('metsim') or mod in ('xarray.backends.locks',
                                               'dask.utils')
    if ours or mod.startswith('xarray'):
        return CoopLock('%s:%d' % (mod, f.f_lineno), ours)
    return _real_lock()


class Pool(concurrent.futures.Executor):
    def __init__(self, s, n):
        self.s, self._max_workers = s, n

    def submit(self, fn, *a, **kw):
        return self.s.submit(fn, *a, **kw)


_installed = False
_executions = 0


def install():
    """Put the hooks in place (once per process)."""
    global _installed
    if _installed:
        return
    _installed = True
    import dask
    import dask.local
    import dask.utils
    import netCDF4
    import xarray.backends.locks as xl
    import xarray.backends.netCDF4_ as xn
    import metsim.metsim as mm

    threading.Lock = _new_lock
    dask.utils.Lock = _new_lock
    # the locks that already exist
    named = {'NETCDFC_LOCK': xl.NETCDFC_LOCK, 'HDF5_LOCK': xl.HDF5_LOCK}
    for mod in [m for k, m in sys.modules.items()
                if k == 'metsim' or k.startswith('metsim.')]:
        for k, v in list(vars(mod).items()):
            if isinstance(v, dask.utils.SerializableLock):
                named.setdefault(k, v)
            elif isinstance(v, type(_real_lock())):
                setattr(mod, k, CoopLock(k))
    for k, v in named.items():
        v.lock = CoopLock(k)
        dask.utils.SerializableLock._locks[v.token] = v.lock

    real_get = dask.local.queue_get

    def queue_get(q):
        s = ACTIVE
        if s is not None and threading.get_ident() not in s.by_id:
            s.pump(lambda: not q.empty())
        return real_get(q)
    dask.local.queue_get = queue_get

    real = netCDF4.Dataset

    class Traced(real):
        def __init__(self, filename, mode='r', **kw):
            s = ACTIVE
            t = s.enter('open %s %s' % (
                os.path.basename(str(filename)), mode)) if s else None
            try:
                super().__init__(filename, mode=mode, **kw)
            except BaseException:
                if t:
                    s.leave(t)
                raise
            if t:
                if mode == 'r':
                    s.leave(t)
                else:
                    OPEN[id(self)] = (s, t)

        def close(self):
            s, t = OPEN.pop(id(self), (ACTIVE, None))
            if t is None and s:
                t = s.enter('close')
            try:
                super().close()
            finally:
                if t:
                    s.leave(t)

        def __exit__(self, *a):
            self.close()

    OPEN = {}
    netCDF4.Dataset = Traced
    if getattr(mm, 'Dataset', None) is real:
        mm.Dataset = Traced
    import metsim.io as mio
    if getattr(mio, 'Dataset', None) is real:
        mio.Dataset = Traced

    class Proxy:
        def __init__(self, v):
            self._v = v

        def __getattr__(self, k):
            return getattr(self._v, k)

        def __getitem__(self, key):
            s = ACTIVE
            t = s.enter('read') if s else None
            try:
                return self._v[key]
            finally:
                if t:
                    s.leave(t)

        def __setitem__(self, key, value):
            s = ACTIVE
            t = s.enter('write') if s else None
            try:
                self._v[key] = value
            finally:
                if t:
                    s.leave(t)

    real_array = xn.NetCDF4ArrayWrapper.get_array

    def get_array(self, needs_lock=True):
        return Proxy(real_array(self, needs_lock))
    xn.NetCDF4ArrayWrapper.get_array = get_array


class Result:
    pass


def _codes(src):
    seen = {}

    def walk(c):
        if c.co_filename.startswith(src) and c not in seen:
            seen[c] = 1
            for k in c.co_consts:
                if isinstance(k, types.CodeType):
                    walk(k)
    gc.unfreeze()
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            walk(o.__code__)
    return list(seen)


_monitored = None
TOOL = 3


def _line_event(code, line):
    s = ACTIVE
    if s is not None and s.lines and not s.free:
        if threading.get_ident() in s.by_id:
            s.point('%s:%d' % (os.path.basename(code.co_filename), line))


def monitor(src, on):
    """Line events for the source of MetSim only."""
    global _monitored
    m = sys.monitoring
    if _monitored is None:
        if not on:
            return
        _monitored = _codes(src)
        m.use_tool_id(TOOL, 'mc')
        m.register_callback(TOOL, m.events.LINE, _line_event)
    for c in _monitored:
        m.set_local_events(TOOL, c, m.events.LINE if on else 0)


def execute(body, workers, choices=(), expect=(), lines=False, repeat=3):
    """One execution of ``body()`` under the given choices."""
    global ACTIVE, _executions
    import dask
    import metsim
    install()
    src = os.path.dirname(os.path.abspath(metsim.__file__)) + os.sep
    s = Scheduler(choices, expect, lines, src, repeat)
    r = Result()
    monitor(src, lines)
    _executions += 1
    if _executions == 2:
        gc.collect()
        gc.freeze()
    elif _executions % 4 == 0:
        gc.collect()
    gc.disable()
    ACTIVE = s
    try:
        with dask.config.set(pool=Pool(s, workers)):
            try:
                r.value, r.error = body(), None
            except Exception as e:
                r.value, r.error = None, e
            s.drain()
    finally:
        ACTIVE = None
        gc.enable()
    r.points, r.problems, r.steps = s.points, s.problems, s.steps
    r.states, r.tasks = s.states, len(s.tasks)
    r.expect = [p[0] for p in s.points]
    r.choices = [p[3] for p in s.points]
    return r


def alternatives(res, start, bound, free=True):
    """The choice lists that deviate from ``res`` at a point >= start.  With
    ``free``, choosing among the others when the running worker cannot go on
    costs nothing (preemption bounding); otherwise every departure from the
    default order counts (delay bounding)."""
    cost = 0
    for i, (key, n, still, c) in enumerate(res.points):
        if i >= start:
            for alt in range(n):
                if alt == c:
                    continue
                extra = 1 if alt and (still or not free) else 0
                if cost + extra <= bound:
                    yield (i, res.choices[:i] + [alt], res.expect[:i + 1])
        if c and (still or not free):
            cost += 1
