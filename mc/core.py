"""Bounded-exhaustive exploration harness for psdr.

A check is a module in mc/checks with

    PID      property id
    BOUND    one paragraph: alphabet, bound, oracle
    cases(tier)      -> list of (key, payload)      the finite alphabet, simplest first
    run(payload, R)  -> None                        drives the REAL code, reports through R

Every case is executed; each execution of the implementation is counted as a
transition, each distinct canonical observation/configuration as a state.  No
sampling: the only randomness the implementation sees is scripted (see
``scripted``/``explore``), so a case is a deterministic function of its key.
"""
import os, sys, json, time, hashlib, signal, traceback, itertools, contextlib, io
import multiprocessing as mp

for _k, _v in (('OMP_NUM_THREADS', '1'), ('OPENBLAS_NUM_THREADS', '1'), ('MKL_NUM_THREADS', '1'),
               ('MPLBACKEND', 'Agg'), ('PYTHONDONTWRITEBYTECODE', '1')):
    os.environ.setdefault(_k, _v)
sys.dont_write_bytecode = True
import warnings
warnings.filterwarnings('ignore')

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
sys.path.insert(0, REPO)

import numpy as np
import psdr
assert os.path.realpath(psdr.__file__).startswith(os.path.realpath(REPO) + os.sep), psdr.__file__

np.seterr(all='ignore')


# --------------------------------------------------------------------------
# Recording
# --------------------------------------------------------------------------
class NoAnswer(BaseException):
    """CPU budget of a single case exhausted"""


def canon(x):
    """Canonical, hashable, rounded form of an observation"""
    if isinstance(x, np.ndarray):
        return ('a', x.shape, tuple(canon(v) for v in x.ravel().tolist()))
    if isinstance(x, (list, tuple)):
        return tuple(canon(v) for v in x)
    if isinstance(x, dict):
        return tuple(sorted((str(k), canon(v)) for k, v in x.items()))
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x: return 'nan'
        if abs(x) < 5e-7: return 0.0
        return float('%.5g' % x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (str, type(None))):
        return x
    return repr(type(x))


def digest(x):
    return hashlib.blake2b(repr(canon(x)).encode(), digest_size=8).hexdigest()


class Recorder:
    def __init__(self, key):
        self.key = key
        self.transitions = 0
        self.states = set()
        self.violations = []
        self.sample = None
        self.validated = 0
        self.capped = 0

    def step(self, n=1):
        """n more calls into the implementation"""
        self.transitions += n

    def state(self, obs):
        """observation reached (configuration + what the implementation answered)"""
        self.states.add(digest((self.key.split('/')[0], obs)))

    def ok(self, n=1):
        """n implementation answers compared with the oracle"""
        self.validated += n

    def fail(self, sig, msg):
        if len(self.violations) < 5:
            self.violations.append((str(sig), str(msg)[:1500]))

    def check(self, cond, sig, msg=''):
        self.validated += 1
        if not cond:
            self.fail(sig, msg() if callable(msg) else msg)
        return bool(cond)

    def close(self, a, b, sig, msg='', rtol=1e-7, atol=1e-9):
        self.validated += 1
        try:
            a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
            good = a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=False)
        except (TypeError, ValueError):
            good = False
        if not good:
            self.fail(sig, '%s got=%s expected=%s' % (msg, short(a), short(b)))
        return good

    @contextlib.contextmanager
    def quiet(self):
        with contextlib.redirect_stdout(io.StringIO()):
            yield

    def attempt(self, fn, *args, **kw):
        """Call fn, returning ('ok', value) or ('raise', ExceptionTypeName)"""
        self.transitions += 1
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return 'ok', fn(*args, **kw)
        except NoAnswer:
            raise
        except Exception as e:
            return 'raise', type(e).__name__


def short(a):
    a = np.asarray(a)
    s = np.array2string(a, precision=8, threshold=24, max_line_width=200).replace('\n', ' ')
    return '%s%s' % (a.shape, s[:400])


# --------------------------------------------------------------------------
# Scripted randomness: every draw of the implementation is a choice point
# --------------------------------------------------------------------------
class ScriptedRandom:
    """Replaces the functions of numpy.random (module level, the global
    RandomState scipy uses, and default_rng).  Draw number i takes menu entry
    prefix[i] (0 beyond the prefix).  Entry 0 is an ordinary pseudo-random
    draw from a fixed stream, the other entries are the extreme answers."""

    UNI = ('gen', 'lo', 'hi', 'mid', 'alt')
    NOR = ('gen', 'e0', '-e0', 'elast', 'ones', 'alt', 'tiny')

    def __init__(self, prefix=(), base=0, horizon=10**9, menus=None, clamp=False):
        self.prefix = list(prefix)
        self.clamp = clamp
        self.base = _REAL['RandomState'](1234 + base)
        self.points = []
        self.horizon = horizon
        self.menus = menus or {}

    def choose(self, kind, n):
        i = len(self.points)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n and self.clamp: c = n - 1
        if c >= n:
            raise RuntimeError('replay divergence at draw %d (%s: %d of %d)' % (i, kind, c, n))
        self.points.append((kind, n))
        return c

    # --- uniforms -------------------------------------------------------
    def _unit(self, size):
        shape = () if size is None else ((int(size),) if np.isscalar(size) else tuple(int(s) for s in size))
        menu = self.menus.get('uniform', self.UNI)
        c = menu[self.choose('uniform', len(menu))]
        gen = self.base.random_sample(shape)          # always advance the stream
        hi = 1 - 2.0**-53
        if c == 'gen': u = gen
        elif c == 'lo': u = np.zeros(shape)
        elif c == 'hi': u = np.full(shape, hi)
        elif c == 'mid': u = np.full(shape, 0.5)
        elif c == 'alt':
            u = np.array(np.arange(int(np.prod(shape, dtype=int))) % 2, dtype=float).reshape(shape)*hi
        elif isinstance(c, float): u = np.full(shape, c)
        else: raise KeyError(c)
        return float(u) if size is None else np.asarray(u)

    def random_sample(self, size=None): return self._unit(size)
    random = ranf = sample = random_sample
    def rand(self, *dims): return self._unit(dims if dims else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        low = np.asarray(low, dtype=float); high = np.asarray(high, dtype=float)
        if size is None and (low.shape or high.shape):
            size = np.broadcast(low, high).shape
        u = self._unit(size)
        v = low + (high - low)*u
        return float(v) if size is None else v

    # --- normals --------------------------------------------------------
    def _norm(self, size):
        shape = () if size is None else ((int(size),) if np.isscalar(size) else tuple(int(s) for s in size))
        menu = self.menus.get('normal', self.NOR)
        c = menu[self.choose('normal', len(menu))]
        gen = self.base.standard_normal(shape)
        if c == 'gen' or len(shape) == 0 and c in ('alt',):
            z = gen
        else:
            z = np.zeros(shape)
            if len(shape) == 0:
                z = np.array({'e0': 1., '-e0': -1., 'elast': 2., 'ones': .5, 'tiny': 1e-3, 'big': 5.}[c])
            elif c == 'e0': z[..., 0] = 1.
            elif c == '-e0': z[..., 0] = -1.
            elif c == 'elast': z[..., -1] = 1.
            elif c == 'ones': z[...] = 1.
            elif c == 'big': z[...] = 5.*gen
            elif c == 'alt': z[...] = np.where(np.arange(z.shape[-1]) % 2 == 0, 1., -1.)
            elif c == 'tiny': z[...] = 1e-3*gen
            if len(shape) >= 2 and c != 'tiny':
                # distinct rows (a repeated draw has probability zero): perturb generically
                z = z + 1e-2*gen
        return float(z) if size is None else np.asarray(z)

    def randn(self, *dims): return self._norm(dims if dims else None)
    def standard_normal(self, size=None): return self._norm(size)
    def normal(self, loc=0.0, scale=1.0, size=None):
        loc = np.asarray(loc, dtype=float); scale = np.asarray(scale, dtype=float)
        if size is None and (loc.shape or scale.shape):
            size = np.broadcast(loc, scale).shape
        v = loc + scale*self._norm(size)
        return float(v) if size is None else v
    def lognormal(self, mean=0., sigma=1., size=None):
        return np.exp(self.normal(mean, sigma, size))
    def multivariate_normal(self, mean, cov, size=None):
        m = len(mean); shape = () if size is None else ((int(size),) if np.isscalar(size) else tuple(size))
        return np.asarray(mean) + self._norm(shape + (m,)) @ np.linalg.cholesky(cov).T
    def exponential(self, scale=1., size=None):
        return -np.log(1 - np.minimum(self._unit(size), 1 - 1e-12))*scale

    # --- integers, permutations -----------------------------------------
    def _int(self, lo, hi, size):
        n = int(hi) - int(lo)
        if n <= 0: raise ValueError('low >= high')
        if size is None:
            k = min(n, self.menus.get('int_cap', 6))
            c = self.choose('int', k + 1)
            gen = int(self.base.randint(n))
            if c == 0: return int(lo) + gen
            return int(lo) + (c - 1 if n <= k else [0, n - 1, n//2, 1, n - 2, n//3][c - 1])
        c = self.choose('ints', 4)
        gen = self.base.randint(n, size=size)
        v = [gen, np.zeros_like(gen), np.full_like(gen, n - 1), (np.arange(gen.size).reshape(gen.shape)) % n][c]
        return v + int(lo)
    def randint(self, low, high=None, size=None, dtype=int):
        if high is None: low, high = 0, low
        return self._int(low, high, size)
    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None: low, high = 0, low
        return self._int(low, high + (1 if endpoint else 0), size)
    def random_integers(self, low, high=None, size=None):
        if high is None: low, high = 1, low
        return self._int(low, high + 1, size)

    def _perm(self, n):
        n = int(n)
        gen = self.base.permutation(n)
        if n <= self.menus.get('perm_full', 3):
            allp = list(itertools.permutations(range(n)))
            c = self.choose('perm', len(allp) + 1)
            return gen if c == 0 else np.array(allp[c - 1], dtype=int).reshape(n)
        c = self.choose('perm', 4)
        return [gen, np.arange(n), np.arange(n)[::-1].copy(), np.roll(np.arange(n), 1)][c]
    def permutation(self, x):
        if np.isscalar(x) and not isinstance(x, str):
            return self._perm(x)
        x = np.array(x)
        return x[self._perm(len(x))]
    def permuted(self, x, axis=None, out=None):
        x = np.array(x)
        if axis is None: return x.ravel()[self._perm(x.size)].reshape(x.shape)
        return np.apply_along_axis(lambda v: v[self._perm(len(v))], axis, x)
    def shuffle(self, x, *a, **k):
        p = self._perm(len(x))
        if isinstance(x, np.ndarray): x[...] = x[p].copy()
        else: x[:] = [x[i] for i in p]
    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        pool = np.arange(int(a)) if np.isscalar(a) else np.array(a)
        if p is not None:
            nz = np.nonzero(np.asarray(p) > 0)[0]
            pool = pool[nz]
        if size is None:
            return pool[self._int(0, len(pool), None)]
        n = int(np.prod(size))
        if replace: return pool[self._int(0, len(pool), size)]
        if n > len(pool): raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        return pool[self._perm(len(pool))[:n]].reshape(size if not np.isscalar(size) else (int(size),))

    # --- plumbing ---------------------------------------------------------
    def seed(self, *a, **k): pass
    def get_state(self, *a, **k): return ('scripted', len(self.points))
    def set_state(self, *a, **k): pass
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        # anything else: ordinary draw from the fixed stream
        return getattr(self.base, name)


_REAL = {'RandomState': np.random.RandomState}
_PATCH = ['rand', 'randn', 'random', 'random_sample', 'ranf', 'sample', 'uniform', 'normal', 'standard_normal',
          'lognormal', 'multivariate_normal', 'exponential', 'randint', 'random_integers', 'permutation',
          'shuffle', 'choice', 'seed', 'get_state', 'set_state', 'beta', 'gamma', 'chisquare', 'dirichlet',
          'laplace', 'logistic', 'poisson', 'binomial', 'triangular', 'standard_exponential', 'bytes']


@contextlib.contextmanager
def scripted(rng):
    """Run the body with every source of randomness of numpy/scipy scripted"""
    nr = np.random
    saved = {k: getattr(nr, k) for k in _PATCH if hasattr(nr, k)}
    saved_rand = nr.mtrand._rand
    saved_def = nr.default_rng
    saved_rs = nr.RandomState
    try:
        for k in saved: setattr(nr, k, getattr(rng, k))
        nr.mtrand._rand = rng
        nr.default_rng = lambda *a, **k: rng
        # psdr code calling RandomState(...) explicitly asks for its own stream: leave as is
        yield rng
    finally:
        for k, v in saved.items(): setattr(nr, k, v)
        nr.mtrand._rand = saved_rand
        nr.default_rng = saved_def
        nr.RandomState = saved_rs


def explore(run, bound=1, max_points=None, cap=100000, base=0, menus=None, R=None):
    """Deviation-bounded exhaustive exploration.  run(rng) executes the
    implementation once; every draw beyond the prefix takes entry 0.
    All executions with <= bound deviations at the first max_points draws are
    executed.  Returns number of executions (and whether the cap was hit)."""
    count = 0
    capped = False
    stack = [([], 0)]
    while stack:
        prefix, dev = stack.pop()
        if count >= cap:
            capped = True
            break
        rng = ScriptedRandom(prefix, base=base, menus=menus)
        with scripted(rng):
            run(rng)
        count += 1
        if R is not None: R.step()
        if dev >= bound: continue
        lim = len(rng.points) if max_points is None else min(len(rng.points), max_points)
        new = []
        for i in range(len(prefix), lim):
            for alt in range(1, rng.points[i][1]):
                new.append((prefix + [0]*(i - len(prefix)) + [alt], dev + 1))
        stack.extend(reversed(new))
    if R is not None and capped: R.capped += 1
    return count, capped


def persistent(run, entries=range(1, 8), lengths=(2, 8, 32), base=0, menus=None, R=None):
    """Stubborn adversary: the first k draws all take the same extreme entry,
    for every entry and every k; then an ordinary stream (so that rejection
    loops of the implementation have to survive any number of refusals)"""
    for e in entries:
        for k in lengths:
            rng = ScriptedRandom([e]*k, base=base, menus=menus, clamp=True)
            with scripted(rng):
                run(rng)
            if R is not None: R.step()


# --------------------------------------------------------------------------
# Runner
# --------------------------------------------------------------------------
def _alarm(signum, frame):
    raise NoAnswer()


_MOD = None
_LIMIT = 120.


def _do(idx_case):
    i, (key, payload) = idx_case
    R = Recorder(key)
    t0 = time.process_time()
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, _LIMIT, 5.)
    np.random.seed(20200101)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            _MOD.run(payload, R)
    except NoAnswer:
        R.fail('no-answer', 'no answer within %g s of CPU time' % _LIMIT)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)]
        where = ''
        if inrepo: where = '%s:%s' % (os.path.basename(inrepo[-1].filename), inrepo[-1].name)
        R.fail('exception:%s' % type(e).__name__, '%s at %s\n%s' % (e, where, ''.join(traceback.format_exc()[-900:])))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return (i, key, R.transitions, R.states, R.violations, R.sample, R.validated, R.capped,
            time.process_time() - t0)


def load_known(pid):
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(path): return out
    for line in open(path):
        line = line.strip()
        if not line.startswith('finding: '): continue
        head, _, desc = line[len('finding: '):].partition(' :: ')
        f = dict(p.split('=', 1) for p in head.split() if '=' in p)
        if f.get('property') == pid:
            out.append((f['case'], f['sig'], desc))
    return out


def main(mod, tier, replay=None, jobs=None, only=None, verbose=False):
    global _MOD, _LIMIT
    _MOD = mod
    _LIMIT = getattr(mod, 'CASE_CPU_LIMIT', 120.)
    pid = mod.PID
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cases = list(mod.cases(tier))
    keys = [k for k, _ in cases]
    assert len(set(keys)) == len(keys), 'duplicate case keys: %s' % [k for k in keys if keys.count(k) > 1][:5]
    if replay:
        rec = json.load(open(replay))
        allc = cases + [c for c in mod.cases('thorough') if c[0] not in set(keys)]
        cases = [c for c in allc if c[0] == rec['case']]
        assert cases, 'case %s not in the alphabet' % rec['case']
    if only:
        cases = [c for c in cases if only in c[0]]
    jobs = jobs or min(8, os.cpu_count() or 1)
    todo = list(enumerate(cases))
    results = []
    known = load_known(pid)
    fast = bool(os.environ.get('MC_FAILFAST'))      # development: stop at the first violation, write nothing
    if fast: _LIMIT = min(_LIMIT, 40.)
    def hit(r): return fast and any((key, sig) not in {(a, b) for a, b, _ in known} for key in (r[1],) for sig, _ in r[4])
    if jobs == 1 or len(cases) == 1:
        for ic in todo:
            results.append(_do(ic))
            if hit(results[-1]): break
    else:
        ctx = mp.get_context('fork')
        chunk = max(1, min(32, len(todo)//(jobs*16)))
        with ctx.Pool(jobs, maxtasksperchild=None) as pool:
            for r in pool.imap_unordered(_do, todo, chunksize=chunk):
                results.append(r)
                if hit(r): break
    results.sort(key=lambda r: r[0])

    states = set(); transitions = 0; validated = 0; capped = 0
    samples = []
    viol = []
    groups = {}
    for (i, key, tr, st, vs, smp, val, cap, cpu) in results:
        states |= st; transitions += tr; validated += val; capped += cap
        g = groups.setdefault(key.split('/')[0], [0, 0, set(), 0.])
        g[0] += 1; g[1] += tr; g[2] |= st; g[3] += cpu
        for sig, msg in vs: viol.append((key, sig, msg))
        if smp is not None and len(samples) < 6: samples.append({'case': key, 'observed': smp})
    for r in results:
        if len(samples) >= 6: break
        if r[5] is None and r[2]: samples.append({'case': r[1], 'transitions': r[2]})
    if not samples: samples = [{'case': r[1]} for r in results[:3]]

    new = []
    seen_known = set()
    for key, sig, msg in viol:
        hit = None
        for n, (kc, ks, desc) in enumerate(known):
            if kc == key and ks == sig: hit = n
        if hit is None: new.append((key, sig, msg))
        else: seen_known.add(hit)
    for n, (kc, ks, desc) in enumerate(known):
        if n in seen_known:
            print('KNOWN-FINDING: property=%s %s [case %s]' % (pid, desc, kc))

    wall = time.time() - t0
    slow = sorted(results, key=lambda r: -r[8])[:3]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(states), 'transitions': transitions,
            'traces_validated_against_impl': validated,
            'cases': len(cases), 'exhaustive': capped == 0, 'capped_cases': capped,
            'samples': samples,
            'groups': {g: {'cases': v[0], 'transitions': v[1], 'distinct_states': len(v[2]), 'cpu_s': round(v[3], 2)}
                       for g, v in sorted(groups.items())},
            'bound': ' '.join(mod.BOUND.split()),
            'explanation': 'states = distinct canonical (configuration, observation) pairs reached; transitions = '
                           'executions of the real implementation; traces_validated_against_impl = individual '
                           'implementation answers compared with the independent oracle',
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2), 'violations': len(new),
    }
    if not replay and not only and not fast:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
    print('%s tier=%s cases=%d states=%d transitions=%d validated=%d capped=%d violations=%d known=%d wall=%.1fs (slowest %s %.1fs)' % (
        pid, tier, len(cases), len(states), transitions, validated, capped, len(new), len(seen_known), wall,
        slow[0][1] if slow else '-', slow[0][8] if slow else 0.))
    if verbose:
        for g, v in sorted(groups.items()):
            print('   %-28s cases=%d transitions=%d states=%d cpu=%.1f' % (g, v[0], v[1], len(v[2]), v[3]))
    if new and fast:
        print('VIOLATION property=%s replay=- case=%s sig=%s' % (pid, new[0][0], new[0][1]))
        return 1
    if new:
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        shown = 0
        for n, (key, sig, msg) in enumerate(new):
            if n >= 200: break
            path = os.path.join(rdir, '%s-%03d.json' % (pid, n))
            if n < 40:
                with open(path, 'w') as f:
                    json.dump({'property': pid, 'case': key, 'sig': sig, 'message': msg,
                               'replay': 'cd /verif && ./check %s --replay %s' % (pid, path)}, f, indent=1)
            if n < 12:
                print('VIOLATION property=%s replay=%s' % (pid, path if n < 40 else '-'))
                print('    case=%s sig=%s %s' % (key, sig, msg[:600]))
        if verbose:
            import collections
            cnt = collections.Counter(('/'.join(k.split('/')[:2]), sg) for k, sg, _ in new)
            for (k, sg), c in sorted(cnt.items()): print('  %4d  %-30s %s' % (c, k, sg))
        if len(new) > 12: print('    ... %d violations in total' % len(new))
        return 1
    return 0
