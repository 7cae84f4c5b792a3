"""The explorer: runs one check's bounded space exhaustively, in parallel, and
reports what it covered.

A check is a module in ``checks/`` with

    LEVEL, TECHNIQUE, RULE, ASSUMPTIONS          texts for the evidence
    items(tier)   -> list of JSON-able work items (the whole bounded space,
                     cut into pieces that can be run one by one)
    evaluate(item, r) -> explores one piece on the real code, recording in
                     ``r`` (a Recorder) the states, transitions and traces it
                     covered and every violation it found

Every item is explored on every run; nothing is sampled.  A violation is
written to replays/<id>-<n>.json, which ``run.sh <id> --replay FILE`` runs
again on its own.
"""
import argparse
import contextlib
import faulthandler
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')


# -- always run the source of /repo, never a cached compilation of it --------

def _install_loader():
    import importlib.machinery as m

    class Loader(m.SourceFileLoader):
        def path_stats(self, path):
            raise OSError('no bytecode cache')

    class Finder:
        @staticmethod
        def find_spec(name, path=None, target=None):
            if name != 'metsim' and not name.startswith('metsim.'):
                return None
            spec = m.PathFinder.find_spec(
                name, [REPO] if path is None else path, target)
            if spec is not None and isinstance(spec.loader,
                                               m.SourceFileLoader):
                spec.loader = Loader(spec.loader.name, spec.loader.path)
            return spec

    sys.meta_path.insert(0, Finder)


class Recorder:
    """What one piece of the space contributed."""

    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.fails = []
        self.sample = None
        self.extra = {}

    def state(self, *key):
        """A distinct state (configuration, history, day window...)."""
        self.states.add(_h(key))

    def trans(self, n=1):
        """A step whose relation was checked."""
        self.transitions += n

    def trace(self, n=1):
        """An execution of the real code compared with the oracle."""
        self.traces += n

    def outcome(self, *key):
        self.outcomes.add(_h(key))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def fail(self, key, msg):
        """A violation.  ``key`` names the failing input or history."""
        self.fails.append((str(key), str(msg)[:2000]))

    def show(self, sample):
        if self.sample is None:
            self.sample = sample


def _h(key):
    return hashlib.blake2b(repr(key).encode(), digest_size=8).digest()


# -- worker processes ---------------------------------------------------------

def _worker(conn, mod, todo, lock, nxt):
    faulthandler.disable()
    # what the program prints is not ours to show
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        with lock:
            i = nxt.value
            nxt.value += 1
        if i >= len(todo):
            conn.send(('done',))
            return
        conn.send(('start', i))
        r = Recorder()
        try:
            mod.evaluate(todo[i], r)
            conn.send(('ok', i, r))
        except BaseException as e:
            if _programs_fault(e):
                # the program failed where the check has no place for it
                r.fail('raised:%d' % i, 'a valid use raised %s: %s at %s' % (
                    type(e).__name__, e, traceback.format_exc()[-700:]))
                conn.send(('ok', i, r))
            else:
                conn.send(('err', i, traceback.format_exc()))


def _programs_fault(e):
    if type(e).__name__ == 'RunError':
        return True
    src = os.path.join(os.path.realpath(REPO), 'metsim') + os.sep
    return any(os.path.realpath(f.filename).startswith(src)
               for f in traceback.extract_tb(e.__traceback__))


class Explorer:
    def __init__(self, pid, mod, tier, seed, jobs):
        self.pid, self.mod, self.tier = pid, mod, tier
        self.seed, self.jobs = seed, jobs
        self.item_timeout = getattr(mod, 'ITEM_TIMEOUT', 400)
        self.enough = 240 if tier == 'quick' else 3600

    def explore(self, items):
        ctx = mp.get_context('fork')
        lock, nxt = ctx.Lock(), ctx.Value('l', 0, lock=False)
        total = Recorder()
        fails, errors, samples, done = [], [], [], 0
        live, begun, known = {}, time.time(), known_findings(self.pid)

        def spawn():
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_worker,
                            args=(b, self.mod, items, lock, nxt))
            p.daemon = False
            p.start()
            b.close()
            live[a] = [p, None, time.time()]

        for _ in range(min(self.jobs, max(1, len(items)))):
            spawn()
        while live:
            ready = mp.connection.wait(list(live), timeout=1.0)
            for c in ready:
                p, cur, t0 = live[c]
                try:
                    m = c.recv()
                except EOFError:
                    p.join()
                    del live[c]
                    if cur is not None:
                        fails.append((cur, 'died', 'the process running the '
                                      'program died (exit code %s)'
                                      % p.exitcode))
                        spawn()
                    continue
                if m[0] == 'start':
                    live[c][1], live[c][2] = m[1], time.time()
                elif m[0] == 'done':
                    p.join()
                    c.close()
                    del live[c]
                else:
                    live[c][1] = None
                    done += 1
                    if os.environ.get('MC_TIMES'):
                        print('%7.1f s  %s' % (time.time() - t0, json.dumps(
                            items[m[1]])[:200]))
                    if m[0] == 'err':
                        errors.append((m[1], m[2]))
                        continue
                    r = m[2]
                    total.states |= r.states
                    total.outcomes |= r.outcomes
                    total.transitions += r.transitions
                    total.traces += r.traces
                    for k, v in r.extra.items():
                        total.extra[k] = total.extra.get(k, 0) + v
                    if r.sample is not None and len(samples) < 4:
                        samples.append(r.sample)
                    fails += [(m[1], k, t) for k, t in r.fails]
            for c, (p, cur, t0) in list(live.items()):
                if cur is not None and time.time() - t0 > self.item_timeout:
                    p.kill()
                    p.join()
                    del live[c]
                    fails.append((cur, 'hang', 'no result within %d s'
                                  % self.item_timeout))
                    spawn()
            if fails and time.time() - begun > self.enough:
                # the verdict is known; what is left could only add to it
                if any(k not in known for _, k, _ in fails):
                    for p, _, _ in live.values():
                        p.kill()
                        p.join()
                    break
        return total, fails, errors, samples, done


def known_findings(pid):
    path = os.path.join(HERE, 'known_findings.txt')
    res = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, _, what = rest.partition(' ')
                assert key.startswith('key='), line
                res[key[4:]] = what
    return res


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int,
                    default=int(os.environ.get('MC_JOBS', '8')))
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and \
        shutil.disk_usage('/dev/shm').free > (1 << 30) else None
    scratch = tempfile.mkdtemp(prefix='mc_%s_' % a.property, dir=base)
    os.environ['TMPDIR'] = scratch
    tempfile.tempdir = scratch
    home = os.getcwd()
    try:
        return _main(a, tier, seed, t0)
    finally:
        os.chdir(home)
        shutil.rmtree(scratch, ignore_errors=True)


def _main(a, tier, seed, t0):
    pid = a.property
    _install_loader()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    mod = importlib.import_module('checks.' + pid)
    # import the code under test: a failure here is a failure of the tree
    import metsim.metsim
    assert os.path.realpath(metsim.metsim.__file__).startswith(
        os.path.realpath(REPO) + os.sep), metsim.metsim.__file__
    if getattr(mod, 'WARM', True):
        from metsim.physics import solar_geom
        solar_geom(10.0, 45.0, 0.0065)
    for old in os.listdir(os.path.join(HERE, 'replays')):
        if old.startswith(pid + '-') and not a.replay:
            os.remove(os.path.join(HERE, 'replays', old))
    if a.replay:
        items = [json.load(open(a.replay))['item']]
    else:
        items = mod.items(tier)
    if not items:
        print('ERROR: the space of %s is empty' % pid)
        return 2
    ex = Explorer(pid, mod, tier, seed, a.jobs)
    total, fails, errors, samples, done = ex.explore(items)
    if hasattr(mod, 'finish'):
        for k, t in mod.finish(total, tier) if not a.replay else ():
            fails.append((0, k, t))
    for i, tb in errors[:3]:
        print('ERROR in the check itself, item %s\n%s' % (
            json.dumps(items[i])[:500], tb))
    known = known_findings(pid)
    new, seen_known = [], {}
    for i, k, t in fails:
        if k in known:
            seen_known[k] = t
        else:
            new.append((i, k, t))
    for k in sorted(known):
        # every listed finding is announced; one that no longer shows up is
        # announced as such (it should then be removed from the file)
        state = 'fails: %s' % known[k] if k in seen_known else \
            'not reproduced in this run: %s' % known[k]
        print('KNOWN-FINDING: property=%s %s %s' % (pid, k, state))
    wall = time.time() - t0
    cov = {'states': len(total.states), 'transitions': total.transitions,
           'traces_validated_against_impl': total.traces,
           'distinct_outcomes': len(total.outcomes),
           'work_items': len(items), 'work_items_completed': done,
           'exhaustive': done == len(items) and not errors,
           'rule': getattr(mod, 'RULE', ''),
           'bounds': mod.bounds(tier) if hasattr(mod, 'bounds') else tier,
           'samples': samples or [items[0]]}
    if mod.LEVEL in ('exploration', 'fault_enumeration'):
        cov['evaluations'] = cov.pop('traces_validated_against_impl')
        cov['distinct_nontrivial'] = cov.pop('states')
        cov['relations_checked'] = cov.pop('transitions')
    cov.update(total.extra)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
          'coverage': cov, 'assumptions': list(mod.ASSUMPTIONS),
          'wall_s': round(wall, 3), 'violations': len(new)}
    if not a.replay:
        tmp = os.path.join(HERE, 'evidence', pid + '.json')
        with open(tmp + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp + '.tmp', tmp)
    print('%s %s: %d states, %d transitions, %d executions, %d outcomes, '
          '%d/%d items, %.1f s' % (pid, tier, len(total.states),
                                   total.transitions, total.traces,
                                   len(total.outcomes), done, len(items),
                                   wall))
    if new:
        shown = set()
        for n, (i, k, t) in enumerate(new):
            if k in shown or len(shown) >= 5:
                continue
            shown.add(k)
            path = a.replay or os.path.join(
                HERE, 'replays', '%s-%d.json' % (pid, len(shown)))
            if not a.replay:
                with open(path, 'w') as f:
                    json.dump({'property': pid, 'item': items[i], 'key': k,
                               'what': t, 'run': './run.sh %s --replay %s'
                               % (pid, path)}, f, indent=1)
            print('  %s: %s' % (k, t))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        return 2
    if not a.replay:
        low = getattr(mod, 'MINIMUM', {}).get(tier, 1)
        if len(total.states) < low:
            print('ERROR: only %d states explored, expected at least %d'
                  % (len(total.states), low))
            return 2
    return 0


if __name__ == '__main__':
    # run as checks see it: one module object, not __main__ plus mc.engine
    from mc import engine
    rc = engine.main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
