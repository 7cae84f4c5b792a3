"""Runs MetSim in a process of its own: sub.py JOB.json

The job holds the params of one or more runs.  Workers that dask starts import
this file as their main module, so the loader (and the hold, see C02) is
installed in them as well.
"""
import json
import os
import shutil
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import engine                                           # noqa: E402
engine._install_loader()

HOLD = os.environ.get('MC_HOLD')


def install_hold(d, secs):
    """Every writer leaves a note of when it had an output file open for
    writing, and keeps it open for a while."""
    import netCDF4
    import metsim.metsim as mm
    real = netCDF4.Dataset

    class Held(real):
        def __init__(self, filename, mode='r', **kw):
            if mode != 'r+':
                super().__init__(filename, mode=mode, **kw)
                return
            note = os.path.join(d, '%d_%d' % (os.getpid(),
                                              time.monotonic_ns()))
            with open(note, 'w') as f:
                f.write(json.dumps([str(filename), time.monotonic_ns()]))
            NOTES[id(self)] = note
            super().__init__(filename, mode=mode, **kw)
            time.sleep(secs)

        def _done(self):
            note = NOTES.pop(id(self), None)
            if note:
                with open(note, 'a') as f:
                    f.write('\n%d' % time.monotonic_ns())

        def close(self):
            super().close()
            self._done()

        def __exit__(self, *a):
            super().__exit__(*a)
            self._done()

    netCDF4.Dataset = Held
    mm.Dataset = Held


NOTES = {}
if HOLD:
    install_hold(HOLD.rsplit(':', 1)[0], float(HOLD.rsplit(':', 1)[1]))

if __name__ != '__main__' and os.environ.get('MC_FAULT'):
    from mc import fault
    fault.from_env()


def together(world, job):
    """All objects are made first, then run in the given order."""
    from mc.world import quiet
    import metsim.metsim as mm
    res = []
    objs = []
    with quiet():
        for p in job['runs']:
            os.makedirs(p['out_dir'], exist_ok=True)
            objs.append(mm.MetSim(p))
        for i in job['order']:
            try:
                objs[i].run()
                res.append([None, 0])
            except Exception as e:
                res.append(['%s: %s' % (type(e).__name__, e), 0])
    return res


def steps(job):
    """One object: parameters are set, or it is run and its output kept."""
    from mc.world import quiet
    import metsim.metsim as mm
    p = job['runs'][0]
    os.makedirs(p['out_dir'], exist_ok=True)
    res = []
    with quiet():
        ms = mm.MetSim(p)
        for x in job['order']:
            if x != 'run':
                ms.params.update(x)
                continue
            try:
                ms.run()
                res.append([None, 0])
            except Exception as e:
                res.append(['%s: %s' % (type(e).__name__, e), 0])
            os.rename(p['out_dir'], '%s.%d' % (p['out_dir'], len(res) - 1))
            os.makedirs(p['out_dir'])
    return res


def cluster(p):
    """A cluster that runs already, named by its address or in a file."""
    from distributed import LocalCluster
    by, procs, threads, path = p.pop('_cluster')
    c = LocalCluster(n_workers=procs, threads_per_worker=threads,
                     dashboard_address=None)
    p['scheduler'] = c.scheduler_address
    if by == 'file':
        with open(path, 'w') as f:
            json.dump({'type': 'Scheduler', 'address': c.scheduler_address},
                      f)
        p['scheduler'] = path
    return c


def main(job):
    from mc import world
    res = []
    if job.get('order') and not isinstance(job['order'][0], int):
        res = steps(job)
        job['runs'] = []
    elif job.get('order'):
        res = together(world, job)
        job['runs'] = []
    for p in job['runs']:
        keep = p.pop('_keep', None)
        c = cluster(p) if '_cluster' in p else None
        t = time.time()
        try:
            world.run(p, read=False)
            res.append([None, time.time() - t])
        except world.RunError as e:
            res.append([str(e), time.time() - t])
        if c:
            c.close()
        if keep:
            shutil.copytree(p['out_dir'], keep)
    with open(job['result'], 'w') as f:
        json.dump(res, f)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main(json.load(open(sys.argv[1])))
