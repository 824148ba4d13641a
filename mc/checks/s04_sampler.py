import contextlib
import itertools
import sys
import numpy as np
import psdr
from .. import zoo
from ..core import scripted, ScriptedRandom

PID = 'S04'
BOUND = """Every history of exactly 3 (4 on the interval; one more in the thorough tier) operations from {draw 0, draw 1, draw 2, draw 1 while the function raises
 at its first call, draw 2 while it raises at its second call, overwrite the arrays handed out or passed in} on a
 SequentialMaximinSampler, for every combination of domain (1-3 dimensional, boxes and cut boxes), function spelling (scalar,
 vector valued, list of functions, vectorized, object returning a 1-d array), starting data (none, X, X and fX, 1-d fX) and
 metric (none, row, matrix).  After each operation: number of points, earlier rows unchanged, new rows in the domain and apart
 from the earlier ones, row i of fX is the function at row i of X (recomputed from the formula), the function was not asked again
 about points whose value was known."""
ASSUMPTIONS = ['asynchronous sampling (sample_async) is an unimplemented stub in the repository and raises NotImplementedError']
CASE_CPU_LIMIT = 600.

DOMS = {'iv': zoo.box('iv', [0], [4]), 'sq': zoo.box('sq', [-1, 10], [1, 14]), 'cut': zoo.lin('cut', 2, [-1, -1], [1, 1], [(1, 1)], [1.]),
        'cube': zoo.box('cube', [0, 0, 0], [1, 2, 3])}
LS = {'none': lambda m: None, 'row': lambda m: np.arange(1., m + 1).reshape(1, -1), 'flat': lambda m: list(np.arange(1., m + 1)),
      'mat': lambda m: np.eye(m) + np.diag(.5*np.ones(m - 1), 1)}
OPS = ['d0', 'd1', 'd2', 'f1', 'f2', 'mut']


class Boom(Exception): pass


class Calls:
    """the user's function with a record of the calls and a scheduled failure"""
    def __init__(self): self.n = 0; self.fail_at = None; self.asked = []
    def tick(self, x):
        self.n += 1
        if self.fail_at is not None and self.n >= self.fail_at:
            raise Boom()
        self.asked.append(np.array(x).ravel())


def a(x): return np.sum(np.sin(x) + np.arange(1, len(x) + 1)*x)
def b(x): return x[0]**2 - 3.


def functions(name, s, d, calls):
    """(function handed to the sampler, formula on the normalized domain with 2-d answer)"""
    un = lambda x: s.lb + (x + 1)/2*(s.ub - s.lb)
    if name == 'scalar':
        def f(x): calls.tick(x); return a(x)
        return psdr.Function(f, d), lambda x: [a(un(x))]
    if name == 'vec':
        def f(x): calls.tick(x); return np.array([a(x), b(x), 1.])
        return psdr.Function(f, d), lambda x: [a(un(x)), b(un(x)), 1.]
    if name == 'list':
        def f(x): calls.tick(x); return a(x)
        return psdr.Function([f, b], d), lambda x: [a(un(x)), b(un(x))]
    if name == 'vectorized':
        def f(X):
            calls.tick(X[0])
            return np.array([a(x) for x in X])
        return psdr.Function(f, d, vectorized=True), lambda x: [a(un(x))]
    if name == 'obj':
        class Obj(psdr.BaseFunction):
            domain = d.normalized_domain()
            def eval(self, X):
                X = np.array(X)
                out = []
                for x in np.atleast_2d(X):
                    calls.tick(x); out.append(a(x))
                return np.array(out) if X.ndim > 1 else out[0]
        return Obj(), lambda x: [a(x)]


def cases(tier):
    depth = lambda dn: (5 if dn == 'iv' else 4) if tier == 'thorough' else (4 if dn == 'iv' else 3)
    return [('hist/%s-%s-%s' % (dn, '+'.join(lns), starts[0]), (dn, starts, lns, depth(dn)))
            for dn in ('sq', 'cube', 'cut', 'iv') for lns in (('none',), ('row', 'flat'), ('mat',)) for starts in (('none',), ('X', 'XfX', 'XfX1'))]


_CACHE = {}


@contextlib.contextmanager
def memoized(tag):
    """seq_maximin_sample answers are a function of its arguments (scripted stream): compute each only once per process"""
    orig = psdr.seq_maximin_sample
    key = lambda v: v.tobytes() + str(v.shape).encode() if isinstance(v, np.ndarray) else tuple(key(w) for w in v) if isinstance(v, (list, tuple)) else repr(v)

    def seq_maximin_sample(domain, Xhat, *args, **kw):
        try:
            k = (tag, key(domain.lb), key(domain.ub), key(domain.A), key(domain.b), key(np.array(Xhat)), key([key(np.array(v) if isinstance(v, list) and len(v) and not hasattr(v[0], 'shape') else v) for v in args]), key(sorted((n, key(v)) for n, v in kw.items())))
        except AttributeError:
            k = None
        if k is None or k not in _CACHE:
            with scripted(ScriptedRandom()):
                v = orig(domain, Xhat, *args, **kw)
            if k is None: return v
            _CACHE[k] = np.array(v)
        return _CACHE[k].copy()
    mods = [mod for n, mod in list(sys.modules.items()) if n.startswith('psdr') and mod is not None]
    spots = [(mod, n) for mod in mods for n, v in list(vars(mod).items()) if v is orig]
    try:
        for mod, n in spots: setattr(mod, n, seq_maximin_sample)
        yield
    finally:
        for mod, n in spots: setattr(mod, n, orig)


def run(p, R):
    dn, starts, lns, depth = p
    with memoized(dn):
        for start, ln, fn in itertools.product(starts, lns, ('scalar', 'vec', 'list', 'vectorized', 'obj')):
            if start == 'XfX1' and fn in ('vec', 'list'): continue
            for h in itertools.product(OPS, repeat=depth):
                history(dn, fn, start, ln, h, R)


def history(dn, fn, start, ln, h, R):
    s = DOMS[dn]; m = s.m
    d = s.build()
    calls = Calls()
    fun, formula = functions(fn, s, d, calls)
    L = LS[ln](m)
    L0 = None if L is None else np.array(L)
    full = lambda X: np.array([formula(x) for x in X], dtype=float).reshape(len(X), -1)
    if start == 'none': X = fX = None
    else:
        X = np.array([-.5*np.ones(m), np.linspace(-.2, .3, m)])
        fX = None
        if start != 'X':
            fX = full(X)
            if start == 'XfX1': fX = fX.ravel()
    where = '%s %s start=%s L=%s' % (dn, fn, start, ln)
    with scripted(ScriptedRandom()):
        st, S = R.attempt(psdr.SequentialMaximinSampler, fun, L=L, X=X, fX=fX)
        if not R.check(st == 'ok', 'construct', '%s raises %s' % (where, S)): return
        ref = np.zeros((0, m)) if X is None else X.copy()
        R.check(np.shape(S.X) == ref.shape and np.allclose(S.X, ref), 'start', where)
        known = 0 if fX is None else len(ref)
        handed = [X, fX] if X is not None else []
        for i, op in enumerate(h):
            at = '%s after %s' % (where, ','.join(h[:i + 1]))
            calls.n = 0; calls.asked = []; calls.fail_at = None
            want = {'d0': 0, 'd1': 1, 'd2': 2, 'f1': 1, 'f2': 2, 'mut': 0}[op]
            if op == 'mut':
                for arr in handed + [S.X, S.fX]:
                    if arr is not None: arr[...] = 77.
                R.step()
            else:
                if op in ('f1', 'f2'): calls.fail_at = int(op[1])
                st, v = R.attempt(S.sample, want, **({'verbose': True} if i == 1 else {}))
                if st == 'raise' and v == 'Boom': want = 0
                elif not R.check(st == 'ok', 'raises', '%s raises %s' % (at, v)): return
            Xn = S.X
            if not R.check(np.shape(Xn) == (len(ref) + want, m) and np.all(np.isfinite(Xn)), 'count', lambda: '%s: %s points, expected %d' % (at, np.shape(Xn), len(ref) + want)): return
            R.check(np.allclose(Xn[:len(ref)], ref, rtol=0, atol=0), 'prefix', lambda: '%s: earlier points %s became %s' % (at, ref.tolist(), Xn.tolist()))
            for j in range(len(ref), len(Xn)):
                u = s.lb + (Xn[j] + 1)/2*(s.ub - s.lb)
                R.check(s.violation(u)[0] <= 1e-6*s.scale(), 'inside', lambda: '%s: %s outside' % (at, Xn[j].tolist()))
                if j and L0 is None: R.check(np.min(np.linalg.norm(Xn[:j] - Xn[j], axis=1)) > 1e-6, 'apart', lambda: '%s: point %s repeated' % (at, Xn[j].tolist()))
                if j and L0 is not None: R.check(np.min(np.linalg.norm((Xn[:j] - Xn[j]) @ np.atleast_2d(L0).T, axis=1)) > 1e-6, 'apartL', lambda: '%s: point %s repeated in the metric' % (at, Xn[j].tolist()))
            fXn = S.fX
            if op in ('d0', 'd1', 'd2'):
                R.check(fn == 'vectorized' or len(calls.asked) <= len(Xn) - known, 'again', lambda: '%s: %d evaluations for %d new points' % (at, len(calls.asked), len(Xn) - known))
            if len(Xn) == 0 or (fXn is None and start == 'X' and op in ('f1', 'f2', 'mut')) or (known == 0 and op in ('f1', 'f2', 'mut') and fXn is None): pass
            elif R.check(fXn is not None and len(fXn) == len(Xn), 'values', lambda: '%s: %s values for %d points' % (at, np.shape(fXn), len(Xn))):
                R.check(np.allclose(np.asarray(fXn, float).reshape(len(Xn), -1), full(Xn), rtol=1e-9, atol=1e-9), 'match',
                        lambda: '%s: values %s, the function gives %s' % (at, np.asarray(fXn).tolist(), full(Xn).tolist()))
                known = len(Xn)
            ref = Xn.copy()
            R.state((op, len(Xn), None if fXn is None else np.shape(fXn), np.round(Xn, 4)))
