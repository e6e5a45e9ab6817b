"""Shared machinery of the checks: containment, controlled randomness, bounded
exhaustive exploration, reporting.

Everything a check explores is *enumerated* (no sampling, no use of VERIF_SEED):
the same tree gives the same states and the same verdict on every run.
"""
import collections
import contextlib
import hashlib
import json
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REMAPPER_REPO', '/repo')
KNOWN_FILE = os.path.join(VERIF, 'known_findings.txt')


# --------------------------------------------------------------------------
# Known findings
# --------------------------------------------------------------------------

def load_known():
    """known: property=<id> key=<key> :: <what fails>     (one per line)
       fixed: property=<id> <commit> <what failed>        (suppresses nothing)"""
    known = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if line.startswith('known: '):
                head, what = line[len('known: '):].split(' :: ', 1)
                prop, key = head.split(' ', 1)
                assert prop.startswith('property=') and key.startswith('key=')
                known[(prop[len('property='):], key[len('key='):])] = what
    return known


# --------------------------------------------------------------------------
# Containment: code under test may only write inside the scratch directory.
# --------------------------------------------------------------------------

class Escape(Exception):
    """The code under test tried to modify something outside the scratch dir."""


class Containment:
    WRITE_EVENTS = {
        'os.remove': (0,), 'os.rename': (0, 1), 'os.mkdir': (0,), 'os.rmdir': (0,),
        'os.link': (1,), 'os.symlink': (1,), 'os.truncate': (0,), 'os.chmod': (0,),
        'os.chown': (0,), 'os.utime': (0,), 'shutil.rmtree': (0,),
        'shutil.move': (0, 1), 'shutil.copyfile': (1,), 'shutil.copymode': (1,),
        'shutil.copystat': (1,), 'shutil.copytree': (1,),
    }
    KILLERS = ('os.system', 'os.exec', 'os.posix_spawn', 'os.spawn', 'subprocess.Popen',
               'os.kill', 'os.killpg', 'socket.connect', 'shutil.chown')

    def __init__(self, allowed):
        self.allowed = [os.path.realpath(a) + os.sep for a in allowed]
        self.enabled = False
        self.trust = 0
        sys.addaudithook(self.hook)

    def ok(self, path):
        if isinstance(path, int) or path is None:
            return True
        try:
            path = os.fsdecode(path)
        except TypeError:
            return True
        p = os.path.realpath(path)
        if p in ('/dev/null', '/dev/tty'):
            return True
        return any((p + os.sep).startswith(a) for a in self.allowed)

    def hook(self, event, args):
        if not self.enabled or self.trust:
            return
        if event == 'open':
            path, mode, flags = args
            writing = (isinstance(mode, str) and any(ch in mode for ch in 'wax+')) or \
                (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
            if writing:
                self.trust += 1
                try:
                    good = self.ok(path)
                finally:
                    self.trust -= 1
                if not good:
                    raise Escape('write-open of %r outside the scratch directory' % (path,))
        elif event in self.WRITE_EVENTS:
            self.trust += 1
            try:
                bad = [args[i] for i in self.WRITE_EVENTS[event] if i < len(args) and not self.ok(args[i])]
            finally:
                self.trust -= 1
            if bad:
                raise Escape('%s on %r outside the scratch directory' % (event, bad))
        elif event in self.KILLERS:
            raise Escape('%s%r not permitted in a check' % (event, args[:1]))

    @contextlib.contextmanager
    def trusted(self):
        self.trust += 1
        try:
            yield
        finally:
            self.trust -= 1


# --------------------------------------------------------------------------
# Controlled randomness
# --------------------------------------------------------------------------

class Divergence(Exception):
    pass


_ORIG = {}
_CTL = []          # stack of active controllers
_NAMES = ('random', 'uniform', 'randint', 'randrange', 'choice', 'choices', 'sample',
          'shuffle', 'getrandbits', 'gauss', 'triangular', 'betavariate', 'normalvariate', 'expovariate')


def install_random():
    """Replace the module-level functions of `random` by trampolines, before the
    code under test is imported, so that `from random import choice` is owned too."""
    if _ORIG:
        return
    for name in _NAMES:
        orig = getattr(random, name)
        _ORIG[name] = orig

        def tramp(*a, __name=name, __orig=orig, **k):
            if _CTL:
                return getattr(_CTL[-1], 'r_' + __name)(*a, **k)
            return __orig(*a, **k)
        tramp.__name__ = name
        setattr(random, name, tramp)


@contextlib.contextmanager
def controlled(ctl):
    install_random()
    _CTL.append(ctl)
    try:
        yield ctl
    finally:
        _CTL.pop()


class ScalarController:
    """Every random primitive is answered from one sequence of scalars u in [0,1]
    supplied by `source()`: an implementation may draw with random(), uniform(),
    choices() ... and the harness still knows what it was told."""

    def __init__(self, source):
        self.source = source
        self.draws = 0

    def u(self):
        self.draws += 1
        return self.source()

    def r_random(self):
        return min(self.u(), 1 - 2 ** -53)

    def r_uniform(self, a, b):
        return a + (b - a) * self.u()

    def r_triangular(self, low=0.0, high=1.0, mode=None):
        return low + (high - low) * self.u()

    def r_randint(self, a, b):
        return self.r_randrange(a, b + 1)

    def r_randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        rng = range(start, stop, step)      # like the real one: no floats
        n = len(rng)
        if n <= 0:
            raise ValueError('empty range')
        return rng[min(n - 1, int(self.u() * n))]

    def r_choice(self, seq):
        if not len(seq):
            raise IndexError('Cannot choose from an empty sequence')
        return seq[min(len(seq) - 1, int(self.u() * len(seq)))]

    def r_choices(self, population, weights=None, *, cum_weights=None, k=1):
        population = list(population)
        if cum_weights is None:
            weights = [1] * len(population) if weights is None else list(weights)
            cum_weights, t = [], 0
            for w in weights:
                t += w
                cum_weights.append(t)
        if len(cum_weights) != len(population):
            raise ValueError('The number of weights does not match the population')
        total = cum_weights[-1]
        if total <= 0:
            raise ValueError('Total of weights must be greater than zero')
        out = []
        for _ in range(k):
            r = self.u() * total
            for p, c in zip(population, cum_weights):
                if r < c:
                    out.append(p)
                    break
            else:
                out.append(population[-1])
        return out

    def r_shuffle(self, x):
        for i in reversed(range(1, len(x))):
            j = self.r_randrange(i + 1)
            x[i], x[j] = x[j], x[i]

    def r_sample(self, population, k, *, counts=None):
        pool = list(population)
        if counts is not None:
            pool = [p for p, c in zip(pool, counts) for _ in range(c)]
        if not 0 <= k <= len(pool):
            raise ValueError('Sample larger than population or is negative')
        out = []
        for _ in range(k):
            out.append(pool.pop(self.r_randrange(len(pool))))
        return out

    def r_getrandbits(self, k):
        return min((1 << k) - 1, int(self.u() * (1 << k)))

    def r_gauss(self, mu=0.0, sigma=1.0):
        return mu + sigma * (self.u() * 6 - 3)

    r_normalvariate = r_gauss

    def r_betavariate(self, a, b):
        return self.u()

    def r_expovariate(self, lambd=1.0):
        return self.u() * 5 / lambd


class ChoiceController(ScalarController):
    """Random primitives as nondeterministic choice points for a deviation-bounded
    depth-first explorer. Choice 0 is the default answer at every point."""

    SCALARS = (0.5, 0.0, 0.9999999, 0.25, 0.75)

    def __init__(self, prefix=(), perms=4, menu=None):
        self.prefix = list(prefix)
        self.points = []          # number of options at each point
        self.taken = []
        self.max_perms = perms
        self.menu = menu          # optional cap on options per point
        self.draws = 0

    def pick(self, n):
        if n <= 1:
            return 0
        if self.menu:
            # cap, keeping first/last/spread
            eff = min(n, self.menu)
        else:
            eff = n
        i = len(self.points)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= eff:
            raise Divergence('choice %d of %d at point %d' % (c, eff, i))
        self.points.append(eff)
        self.taken.append(c)
        if eff == n:
            return c
        return 0 if c == 0 else 1 + (c - 1) * (n - 2) // max(1, eff - 2) if eff > 2 else (n - 1 if c else 0)

    def u(self):
        self.draws += 1
        return self.SCALARS[self.pick(len(self.SCALARS))]

    def r_randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        rng = range(start, stop, step)
        if not len(rng):
            raise ValueError('empty range')
        self.draws += 1
        return rng[self.pick(len(rng))]

    def r_choice(self, seq):
        if not len(seq):
            raise IndexError('Cannot choose from an empty sequence')
        self.draws += 1
        return seq[self.pick(len(seq))]

    def r_choices(self, population, weights=None, *, cum_weights=None, k=1):
        population = list(population)
        if cum_weights is not None:
            weights = [b - a for a, b in zip([0] + list(cum_weights), cum_weights)]
        alive = [p for i, p in enumerate(population) if weights is None or list(weights)[i] > 0]
        if not alive:
            raise ValueError('Total of weights must be greater than zero')
        self.draws += 1
        return [alive[self.pick(len(alive))] for _ in range(k)]

    def perms(self, n):
        """A menu of permutations of range(n): identity, every rotation (up to
        max_perms), reversal."""
        rots = list(range(n)) if n <= self.max_perms else \
            [0] + [1 + i * (n - 1) // self.max_perms for i in range(self.max_perms)]
        out = [[(i + r) % n for i in range(n)] for r in rots]
        if n > 2:
            out.append(list(range(n))[::-1])
        return out

    def r_sample(self, population, k, *, counts=None):
        pool = list(population)
        if counts is not None:
            pool = [p for p, c in zip(pool, counts) for _ in range(c)]
        if not 0 <= k <= len(pool):
            raise ValueError('Sample larger than population or is negative')
        self.draws += 1
        if k == 0:
            return []
        perms = self.perms(len(pool))
        p = perms[self.pick(len(perms))]
        return [pool[i] for i in p[:k]]

    def r_shuffle(self, x):
        perm = self.r_sample(list(x), len(x))
        x[:] = perm


def explore(run, bound, cap=None, perms=4, menu=None):
    """Deviation-bounded DFS. run(ctl) executes once under a controller; every
    execution with at most `bound` non-default answers is run exactly once.
    Yields (ctl, result); `explore.capped` style info through StopIteration value."""
    stack = [()]
    count = 0
    while stack:
        prefix = stack.pop()
        ctl = ChoiceController(prefix, perms=perms, menu=menu)
        with controlled(ctl):
            res = run(ctl)
        if ctl.taken[:len(prefix)] != list(prefix):
            raise Divergence('replay of prefix %r diverged: %r' % (prefix, ctl.taken))
        count += 1
        yield ctl, res
        if cap and count >= cap:
            return
        used = sum(1 for c in prefix if c)
        if used >= bound:
            continue
        nxt = []
        for i in range(len(prefix), len(ctl.points)):
            for alt in range(1, ctl.points[i]):
                nxt.append(tuple(ctl.taken[:i]) + (alt,))
        stack.extend(reversed(nxt))


def bfs(initial, actions, apply, canon, check, max_states, max_depth):
    """Explicit-state search; a state is identified by the history reaching it and
    rebuilt by replaying that history on fresh real objects."""
    st = initial()
    check((), st)
    seen = {canon(st)}
    frontier = collections.deque([()])
    transitions = 0
    depth = 0
    capped = False
    while frontier:
        hist = frontier.popleft()
        if len(hist) >= max_depth:
            continue
        base = initial()
        for a in hist:
            apply(base, a)
        for act in actions(base):
            nxt = initial()
            for a in hist:
                apply(nxt, a)
            apply(nxt, act)
            transitions += 1
            h2 = hist + (act,)
            check(h2, nxt)
            k = canon(nxt)
            if k not in seen:
                if len(seen) >= max_states:
                    capped = True
                    continue
                seen.add(k)
                depth = max(depth, len(h2))
                frontier.append(h2)
    return {'states': len(seen), 'transitions': transitions, 'depth': depth, 'capped': capped}


# --------------------------------------------------------------------------
# One check run
# --------------------------------------------------------------------------

class Timeout(Exception):
    pass


class Stop(Exception):
    """Enough violations collected."""


class Check:
    MAX_VIOLATIONS = int(os.environ.get('MC_MAX_VIOLATIONS', '3'))

    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.known = {k[1]: v for k, v in load_known().items() if k[0] == pid}
        self.known_seen = {}
        self.violations = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = collections.OrderedDict()
        self.assumptions = []
        self._outcomes = collections.Counter()
        self._statekeys = set()
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        self.scratch = tempfile.mkdtemp(prefix='mc-%s-' % pid, dir=base)
        self.t0 = time.time()
        self.containment = None

    # -- counting ----------------------------------------------------------
    def state(self, key):
        """Count a distinct state (by a canonical key)."""
        h = hashlib.blake2b(repr(key).encode(), digest_size=12).digest()
        if h in self._statekeys:
            return False
        self._statekeys.add(h)
        self.states += 1
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, name):
        self._outcomes[name] += 1

    def sample(self, s, every=None):
        if len(self.samples) < 12:
            self.samples.append(s)

    # -- verdicts ------------------------------------------------------------
    def fail(self, key, what, replay=None):
        """A property violation with a stable identity `key`."""
        if key in self.known:
            if key not in self.known_seen:
                self.known_seen[key] = what
            return
        if any(v['key'] == key for v in self.violations):
            return
        self.violations.append({'key': key, 'what': what, 'replay': replay})
        if len(self.violations) >= self.MAX_VIOLATIONS:
            raise Stop()

    def expect(self, cond, key, what, replay=None):
        if not cond:
            self.fail(key, what() if callable(what) else what, replay)
        return bool(cond)

    def guard(self, key, fn, replay=None, seconds=120):
        """Call code that must not raise and must terminate. Returns (ok, value)."""
        try:
            with self.limit(seconds):
                return True, fn()
        except (Stop, Divergence, MemoryError):
            raise
        except Timeout:
            self.fail(key, 'did not terminate within %ds' % seconds, replay)
            return False, None
        except (Exception, SystemExit) as e:
            self.fail(key, 'raised %s: %s' % (type(e).__name__, e), dict(replay or {}, traceback=traceback.format_exc()))
            return False, None

    @contextlib.contextmanager
    def limit(self, seconds):
        def onalarm(signum, frame):
            raise Timeout('%ds' % seconds)
        old = signal.signal(signal.SIGALRM, onalarm)
        prev = signal.getitimer(signal.ITIMER_REAL)[0]
        t = time.time()
        signal.setitimer(signal.ITIMER_REAL, min(seconds, prev) if prev else seconds)
        try:
            yield
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            if prev:
                signal.setitimer(signal.ITIMER_REAL, max(0.05, prev - (time.time() - t)))

    def path(self, name):
        return os.path.join(self.scratch, name)

    # -- parallel exploration ------------------------------------------------
    def parallel(self, fn, jobs, workers=None):
        """fn(job) for every job, in forked workers with a static split (so the
        result does not depend on timing); everything the workers count or report is
        merged. fn must report through this Check object."""
        jobs = list(jobs)
        n = max(1, min(len(jobs), workers or int(os.environ.get('MC_WORKERS', '8'))))
        if n == 1:
            for j in jobs:
                fn(j)
            return
        base = (self.states, self.transitions, self.traces)
        pids = []
        try:
            for w in range(n):
                pid = os.fork()
                if pid:
                    pids.append(pid)
                    continue
                code = 1
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
                    err = None
                    self._statekeys, self._outcomes, self.samples = set(), collections.Counter(), []
                    self.extra, self.violations, self.known_seen = collections.OrderedDict(), [], {}
                    try:
                        for j in jobs[w::n]:
                            fn(j)
                    except Stop:
                        pass
                    except MemoryError:
                        err = ('memory', 'code under test exhausted the memory limit', None)
                    except (Exception, SystemExit) as e:
                        err = ('exception:%s' % type(e).__name__, 'unexpected %s: %s' % (type(e).__name__, str(e)[:300]),
                               {'traceback': traceback.format_exc()})
                    with self.containment.trusted(), open(self.path('.worker-%d' % w), 'wb') as h:
                        pickle.dump({
                            'keys': self._statekeys, 'transitions': self.transitions - base[1], 'traces': self.traces - base[2],
                            'violations': json.loads(json.dumps(self.violations, default=repr)), 'known': self.known_seen,
                            'outcomes': dict(self._outcomes), 'samples': json.loads(json.dumps(self.samples, default=repr)),
                            'extra': {k: v for k, v in self.extra.items() if isinstance(v, (int, float, str, bool, dict))}, 'err': err}, h)
                    code = 0
                finally:
                    os._exit(code)
            while pids:
                pid, status = os.waitpid(pids[0], 0)
                pids.pop(0)
        finally:
            for pid in pids:
                with self.containment.trusted():
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
        for w in range(n):
            path = self.path('.worker-%d' % w)
            if not os.path.exists(path):
                self.fail('worker-died', 'the code under test took its process down')
                continue
            with open(path, 'rb') as h:
                r = pickle.load(h)
            os.remove(path)
            self._statekeys |= r['keys']
            self.states = len(self._statekeys)
            self.transitions += r['transitions']
            self.traces += r['traces']
            self._outcomes.update(r['outcomes'])
            self.known_seen.update(r['known'])
            for s in r['samples'][:2]:
                if s not in self.samples:
                    self.sample(s)
            for k, v in r['extra'].items():
                if isinstance(v, dict):
                    cur = self.extra.setdefault(k, {})
                    for a, b in v.items():
                        cur[a] = cur.get(a, 0) + b if isinstance(b, (int, float)) and not isinstance(b, bool) else b
                else:
                    self.extra.setdefault(k, v)
            for v in r['violations']:
                self.fail(v['key'], v['what'], v['replay'])
            if r['err']:
                self.fail(*r['err'])

    # -- finish ------------------------------------------------------------
    def finish(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        for key, what in self.known.items():
            if key in self.known_seen:
                print('KNOWN-FINDING: property=%s %s [%s]' % (self.pid, what, key))
        replay_dir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(replay_dir, exist_ok=True)
        for i, v in enumerate(self.violations):
            rp = os.path.join(replay_dir, '%s-%d.json' % (self.pid, i))
            with open(rp, 'w') as h:
                json.dump({'property': self.pid, 'key': v['key'], 'what': v['what'],
                           'tier': self.tier, 'replay': v['replay'],
                           'rerun': 'cd %s && ./check %s %s' % (VERIF, self.pid, self.tier)},
                          h, indent=1, default=repr)
            print('  %s: %s' % (v['key'], v['what']))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
        cov = collections.OrderedDict()
        cov['states'] = self.states
        cov['transitions'] = self.transitions
        cov['traces_validated_against_impl'] = self.traces
        cov['samples'] = self.samples or ['(none)']
        if self._outcomes:
            cov['distinct_outcomes'] = dict(self._outcomes)
        cov.update(self.extra)
        cov['known_findings_seen'] = sorted(self.known_seen)
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed,
            'level': 'model_checking', 'coverage': cov,
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(self.violations),
        }
        path = os.path.join(VERIF, 'evidence', '%s.json' % self.pid)
        with open(path, 'w') as h:
            json.dump(ev, h, indent=1, default=repr)
        print('%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs violations=%d known=%d' % (
            self.pid, self.tier, self.states, self.transitions, self.traces,
            time.time() - self.t0, len(self.violations), len(self.known_seen)))
        return 1 if self.violations else 0


class _Null:
    def write(self, *a):
        return len(a[0]) if a else 0

    def flush(self):
        pass

    def isatty(self):
        return False

    encoding = 'utf-8'
    errors = 'strict'


@contextlib.contextmanager
def quiet():
    """Silence prints/progress bars of the code under test."""
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = _Null()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = so, se


def main(pid, tier, loader):
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    ck = Check(pid, tier)
    os.environ['HOME'] = ck.scratch
    os.chdir(ck.scratch)
    sys.path.insert(0, REPO)
    install_random()
    ck.containment = Containment([ck.scratch, '/dev/shm/__none__'])
    budget = int(os.environ.get('MC_BUDGET', '0')) or (780 if tier == 'quick' else 6 * 3600)
    try:
        with quiet():
            try:
                import logging
                logging.disable(logging.CRITICAL)
                ck.containment.enabled = True
                with ck.limit(budget):
                    import redeclipse
                    if not os.path.realpath(redeclipse.__file__).startswith(os.path.realpath(REPO) + os.sep):
                        raise RuntimeError('redeclipse imported from %s' % redeclipse.__file__)
                    mod = loader()
                    logging.disable(logging.CRITICAL)
                    mod.run(ck)
            except Stop:
                pass
            except Timeout:
                if not ck.violations:
                    ck.fail('no-termination', 'exploration did not finish within %ds' % budget)
            except MemoryError:
                if not ck.violations:
                    ck.fail('memory', 'code under test exhausted the memory limit')
            except (Exception, SystemExit) as e:
                try:
                    ck.fail('exception:%s' % type(e).__name__,
                            'unexpected %s: %s' % (type(e).__name__, str(e)[:300]),
                            {'traceback': traceback.format_exc()})
                except Stop:
                    pass
            finally:
                ck.containment.enabled = False
    finally:
        os.chdir('/')
        rc = ck.finish()
    return rc
