"""Stateless model checker for the real code.

A harness is a function h(ch) that builds an initial state, and repeatedly asks
ch.choose(label, options) which environment action / input comes next.  The
explorer enumerates EVERY sequence of choices (depth first, odometer order), so
that the set of executions within the harness's bounds is covered completely;
nothing is sampled, and no choice depends on VERIF_SEED.

The tree is cut at a small depth into prefixes, which forked workers take from a
shared counter.  Each execution drives the implementation in /repo and compares
it, step by step, with the reference model (refmodel.py): a complete execution
without disagreement is one trace validated against the implementation.
"""
import hashlib
import json
import multiprocessing
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

import boot

EXEC_TIMEOUT = 150          # seconds for one execution; none takes more than a few
MAX_RSS = 2200              # MB per worker, checked between jobs
MAX_VIOLATIONS = 6          # per worker, then it stops early


class Violation(Exception):
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class Cut(Exception):
    pass


class Prune(Exception):
    """The harness found that this branch is not part of its space."""


class HarnessError(Exception):
    """The machinery itself is at fault: exit 2, never a verdict."""


class Hang(Exception):
    pass


class Ch(object):
    def __init__(self, harness, tier, prefix=(), cut=None, sink=None, scratch=None):
        self.harness = harness
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.prefix = list(prefix)
        self.trail = []            # (label, n, index, repr)
        self.cut = cut
        self.states = set() if sink is None else sink
        self.transitions = 0
        self.scratch = scratch
        self._n = 0

    def choose(self, label, options):
        options = list(options) if not isinstance(options, (list, tuple)) else options
        if not options:
            raise HarnessError('no options for %s' % label)
        pos = len(self.trail)
        if pos < len(self.prefix):
            i = self.prefix[pos]
            if i >= len(options):
                raise HarnessError('non-deterministic harness at %s' % label)
        else:
            i = 0
        self.trail.append((label, len(options), i, options[i]))
        if self.cut is not None and pos + 1 >= self.cut:
            raise Cut()
        return options[i]

    def flag(self, label):
        return self.choose(label, (False, True))

    def state(self, *key):
        """Record a model state (hashed)."""
        k = hashlib.blake2b(repr((self.harness,) + key).encode('utf-8', 'replace'), digest_size=8).digest()
        self.states.add(k)

    def step(self, n=1):
        """n transitions of the implementation were executed and compared."""
        self.transitions += n

    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def check(self, cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)

    def equal(self, got, want, what):
        if got != want:
            raise Violation('%s: got %r, expected %r' % (what, got, want))

    def path(self, name='f'):
        """A fresh path in this worker's scratch directory."""
        self._n += 1
        d = os.path.join(self.scratch, '%d' % self._n)
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, name)

    def describe(self):
        return [[l, _short(v)] for (l, n, i, v) in self.trail]


def _short(v):
    r = repr(v)
    return r if len(r) <= 300 else r[:300] + '...(%d chars)' % len(r)


def _next(trail, depth):
    """The next prefix in odometer order, keeping the first `depth` choices fixed."""
    t = [(n, i) for (_, n, i, _) in trail]
    while len(t) > depth:
        n, i = t.pop()
        if i + 1 < n:
            return [x[1] for x in t] + [i + 1]
    return None


def _alarm(*a):
    raise Hang('the execution did not finish within %d s' % EXEC_TIMEOUT)


def run_one(fn, ch):
    """One execution. Returns None or a dict describing a violation."""
    boot.features('All')
    if ch.scratch:
        for n in os.listdir(ch.scratch):
            shutil.rmtree(os.path.join(ch.scratch, n), ignore_errors=True)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(EXEC_TIMEOUT)
    try:
        fn(ch)
        return None
    except (Cut, Prune, HarnessError, MemoryError, KeyboardInterrupt):
        raise
    except Violation as e:
        return {'message': str(e), 'key': e.key, 'trace': ''.join(traceback.format_exc()[-3000:])}
    except BaseException as e:            # SystemExit from a CLI main included
        return {'message': 'unexpected %s: %s' % (type(e).__name__, e), 'key': None,
                'trace': traceback.format_exc()[-6000:]}
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _prefixes(fn, name, tier, want, tmp):
    """Split the choice tree into about `want` prefixes that cover it.  Runs in a child,
    for a few seconds at most; each finished depth is a complete cover."""
    out = os.path.join(tmp, 'cover')
    pid = os.fork()
    if pid == 0:
        try:
            boot.quiet()
            scratch = os.path.join(tmp, 'pre')
            os.mkdir(scratch)
            depth = 1
            while depth <= 10:
                cover, prefix, full = [], [], True
                while prefix is not None:
                    ch = Ch(name, tier, prefix, cut=depth, scratch=scratch)
                    try:
                        run_one_cut(fn, ch)
                    except Cut:
                        full = False
                    except Prune:
                        pass
                    cover.append([t[2] for t in ch.trail])
                    prefix = _next(ch.trail, 0)
                with open(out + '.new', 'wb') as f:
                    pickle.dump(cover, f)
                os.rename(out + '.new', out)
                if full or len(cover) >= want:
                    break
                depth += 1
        finally:
            os._exit(0)
    t0 = time.time()
    while True:
        p, _ = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() - t0 > 2.5:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            break
        time.sleep(0.01)
    if not os.path.exists(out):
        return [[]]
    with open(out, 'rb') as f:
        return pickle.load(f)


def run_one_cut(fn, ch):
    boot.features('All')
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(EXEC_TIMEOUT)
    try:
        fn(ch)
    except (Cut, Prune, HarnessError, MemoryError):
        raise
    except BaseException:
        # it will be met again, and reported, by the worker that owns the prefix
        pass
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _rss():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * 4096 / 1e6


def _worker(fn, name, tier, jobs, counter, stop, known, outpath, budget_end):
    boot.quiet()
    rss0 = _rss()
    scratch = tempfile.mkdtemp(prefix='clfmc.')
    sink = set()
    res = {'executions': 0, 'pruned': 0, 'transitions': 0, 'maxdepth': 0,
           'violations': [], 'known': {}, 'samples': [], 'complete': True, 'error': None}
    try:
        while not stop.value:
            if _rss() - rss0 > MAX_RSS:
                # PyPy's C-API emulation leaks; the parent starts a fresh worker
                res['respawn'] = True
                break
            with counter.get_lock():
                j = counter.value
                counter.value += 1
            if j >= len(jobs):
                break
            fixed = len(jobs[j])
            prefix = jobs[j]
            while prefix is not None:
                if time.time() > budget_end:
                    res['complete'] = False
                    stop.value = 1
                    break
                ch = Ch(name, tier, prefix, sink=sink, scratch=scratch)
                try:
                    v = run_one(fn, ch)
                    res['executions'] += 1
                    res['transitions'] += ch.transitions
                    res['maxdepth'] = max(res['maxdepth'], len(ch.trail))
                    if v is not None:
                        if v['key'] and v['key'] in known:
                            res['known'][v['key']] = res['known'].get(v['key'], 0) + 1
                        else:
                            v['choices'] = [t[2] for t in ch.trail]
                            v['described'] = ch.describe()
                            v['harness'] = name
                            v['order'] = j
                            res['violations'].append(v)
                            if len(res['violations']) >= MAX_VIOLATIONS:
                                stop.value = 1
                    elif len(res['samples']) < 1:
                        res['samples'].append({'harness': name, 'choices': ch.describe()[:12]})
                except Prune:
                    res['pruned'] += 1
                prefix = _next(ch.trail, fixed)
                if stop.value:
                    break
    except BaseException as e:
        res['error'] = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:])
        stop.value = 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if stop.value:
        res['complete'] = False
    res.setdefault('respawn', False)
    res['states'] = sink
    with open(outpath, 'wb') as f:
        pickle.dump(res, f)


def _spawn(fn, name, tier, jobs, counter, stop, known, outpath, budget_end):
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            _worker(fn, name, tier, jobs, counter, stop, known, outpath, budget_end)
            code = 0
        finally:
            os._exit(code)
    return pid


def explore(fn, name, tier, known=(), workers=None, budget=700):
    """Explore the harness completely. Returns the merged result."""
    workers = workers or int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    tmp = tempfile.mkdtemp(prefix='clfmcx.')
    t0 = time.time()
    try:
        jobs = _prefixes(fn, name, tier, 16 * workers, tmp)
        counter = multiprocessing.Value('i', 0)
        stop = multiprocessing.Value('i', 0)
        workers = min(workers, len(jobs))
        merged = {'harness': name, 'executions': 0, 'pruned': 0, 'transitions': 0, 'maxdepth': 0,
                  'violations': [], 'known': {}, 'samples': [], 'complete': True, 'error': None}
        states = set()
        pids, spawned = {}, 0
        while True:
            while len(pids) < workers and spawned < workers:
                pids[_spawn(fn, name, tier, jobs, counter, stop, known, os.path.join(tmp, 'w%d' % spawned), t0 + budget)] = spawned
                spawned += 1
            if not pids:
                break
            pid, _ = os.waitpid(-1, 0)
            if pid not in pids:
                continue
            p = os.path.join(tmp, 'w%d' % pids.pop(pid))
            if not os.path.exists(p):
                # the worker died: the code under test killed it (crash), or the box did
                merged['error'] = merged['error'] or 'a worker process died'
                merged['complete'] = False
                stop.value = 1
                continue
            with open(p, 'rb') as f:
                r = pickle.load(f)
            os.unlink(p)
            if r['respawn'] and not stop.value:
                workers += 1          # one more in place of this one
            for k in ('executions', 'pruned', 'transitions'):
                merged[k] += r[k]
            merged['maxdepth'] = max(merged['maxdepth'], r['maxdepth'])
            merged['violations'] += r['violations']
            merged['samples'] += r['samples']
            for k, n in r['known'].items():
                merged['known'][k] = merged['known'].get(k, 0) + n
            merged['complete'] = merged['complete'] and r['complete']
            merged['error'] = merged['error'] or r['error']
            states |= r['states']
            del r
        merged['violations'].sort(key=lambda v: (v['choices'], v['message']))
        merged['states'] = len(states)
        merged['wall_s'] = round(time.time() - t0, 2)
        return merged
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(fn, name, tier, choices):
    """Re-execute one choice sequence in a fresh forked child (clean interpreter state)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 1
        scratch = tempfile.mkdtemp(prefix='clfmc.')
        try:
            boot.quiet()
            ch = Ch(name, tier, choices, scratch=scratch)
            try:
                v = run_one(fn, ch)
            except Prune:
                v = None
            data = json.dumps({'violation': v, 'described': ch.describe()}).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data.decode()) if data else {'violation': {'message': 'the process died', 'key': None, 'trace': ''}, 'described': []}
