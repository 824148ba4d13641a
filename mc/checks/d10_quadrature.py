import itertools
import numpy as np
import psdr
from psdr.quadrature import gauss
from .. import zoo
from ..core import scripted, ScriptedRandom
from .d08_sampling import flats

PID = 'D10'
CASE_CPU_LIMIT = 100.
BOUND = """Alphabet: gauss(n, a, b) for every n in 1..24 (60 thorough) x intervals (unit, shifted, wide, reversed sign, tiny, int/float/default
 arguments) x every monomial up to degree 2n-1; quadrature_rule for boxes of dimension 1..3 x node budgets N in a list up to 300 x methods
 x every monomial of the degree its tensor rule reaches; every bounded domain of the zoo plus thin, flat, point and empty ones x N x
 {auto, gauss, montecarlo}.  Oracle: closed-form moments, membership by the constraints given, volumes by an exhaustive midpoint lattice."""
ASSUMPTIONS = ['for curved or cut domains the sum of the weights is compared with the volume to 12% (gauss, N=600) / 6% (Monte Carlo volume)',
               'floor(N**(1/m)) may lose one point per axis to rounding (documented budget is only an upper bound)']
IV = [(0, 1), (-1, 1), (2.5, 7), (-1000., 3000.), (1, 1 + 1e-3), (-3, -1)]


def specs():
    return [s for s in zoo.bounded_all() + flats() if not s.empty and not s.name.startswith('tnormal')]


ZOO = None
BOXES = [([0], [1]), ([-3], [5]), ([0, 10], [2, 10.5]), ([-1, -1], [1, 1]), ([-100, 1e-3], [50, 2e-3]), ([0, 1, 2], [1, 3, 5]), ([-1, 0, -10], [1, .5, 30])]


def cases(tier):
    out = []
    for n in range(1, 25 if tier == 'quick' else 61): out.append(('gauss/%d' % n, ('gauss', n, tier)))
    for k in range(len(BOXES)):
        for N in (1, 2, 3, 4, 5, 7, 8, 9, 16, 26, 27, 30, 64, 100, 125, 300): out.append(('box/%d-%d' % (k, N), ('box', k, N, tier)))
    for s in specs(): out.append(('rule/%s' % s.name, ('rule', s.name, tier)))
    for s in zoo.everything():
        if s.empty: out.append(('empty/%s' % s.name, ('empty', s.name, tier)))
    return out


def moment(a, b, k):
    """integral of ((x - a)/(b - a))^k over [a, b]"""
    return (b - a)/(k + 1)


def volume(s):
    """Lebesgue measure by a midpoint lattice (exact for boxes)"""
    lo, hi = s.box()
    if np.any(hi - lo < 1e-9) or len(s.Aeq) or len(s.hAeq): return 0.
    n = {1: 20000, 2: 400, 3: 70}[s.m]
    ax = [l + (np.arange(n) + .5)*(h - l)/n for l, h in zip(lo, hi)]
    tot = 0
    if s.m < 3:
        X = np.array(np.meshgrid(*ax, indexing='ij')).reshape(s.m, -1).T
        tot = np.sum(s.violation(X) <= 0)
    else:
        for x in ax[0]:
            Y = np.array(np.meshgrid(*ax[1:], indexing='ij')).reshape(s.m - 1, -1).T
            tot += np.sum(s.violation(np.column_stack([np.full(len(Y), x), Y])) <= 0)
    return tot/float(n**s.m)*np.prod(hi - lo)


def run(payload, R):
    global ZOO
    if ZOO is None: ZOO = {s.name: s for s in specs()}; ZOO.update({s.name: s for s in zoo.everything() if s.empty})
    kind = payload[0]
    if kind == 'gauss':
        n = payload[1]
        for a, b in IV:
            for lab, f in (('pos', lambda: gauss(n, a, b)), ('kw', lambda: gauss(N=n, a=float(a), b=float(b))), ('float', lambda: gauss(float(n), a, b)),
                           ('np', lambda: gauss(np.int64(n), np.float64(a), np.float64(b)))):
                st, v = R.attempt(f)
                if not R.check(st == 'ok', 'gauss-raises', 'gauss(%d,%g,%g) %s: %s' % (n, a, b, lab, v)): continue
                x, w = v
                if not R.check(np.shape(x) == (n,) and np.shape(w) == (n,), 'gauss-shape', '%d: %s %s' % (n, np.shape(x), np.shape(w))): continue
                R.check(np.all(w > 0) and np.all(x >= a) and np.all(x <= b) and np.all(np.diff(x) > 0), 'gauss-nodes', 'gauss(%d,%g,%g)' % (n, a, b))
                t = (x - a)/(b - a)
                for k in range(2*n):
                    R.close(np.sum(w*t**k), moment(a, b, k), 'gauss-exact', 'gauss(%d,%g,%g) %s degree %d' % (n, a, b, lab, k), rtol=1e-9, atol=0)
        x, w = gauss(n)
        R.close(np.sum(w*x), .5, 'gauss-default', 'default interval is [0,1]')
        R.state((n, np.round(x, 6)))
    elif kind == 'box':
        _, k, N, tier = payload
        lb, ub = np.array(BOXES[k][0], dtype=float), np.array(BOXES[k][1], dtype=float)
        m = len(lb)
        for cls in ('BoxDomain', 'UniformDomain', 'LinIneqDomain'):
            for meth in ('auto', 'gauss', 'default'):
                d = getattr(psdr, cls)(lb=lb.copy(), ub=ub.copy())
                kw = {} if meth == 'default' else {'method': meth}
                with scripted(ScriptedRandom((), base=1)):
                    X, w = d.quadrature_rule(N, **kw)
                R.step()
                msg = '%s%s N=%d %s' % (cls, BOXES[k], N, meth)
                R.check(1 <= len(X) <= N and np.shape(X) == (len(X), m) and np.shape(w) == (len(X),), 'budget', '%s: %s nodes' % (msg, np.shape(X)))
                R.check(np.all(d.isinside(X)), 'inside', msg)
                R.check(np.all(w > 0), 'weights', msg)
                R.close(np.sum(w), np.prod(ub - lb), 'volume', msg)
                q = 1
                while (q + 1)**m <= N: q += 1
                if meth != 'gauss' and q == 1: continue        # a Monte Carlo rule is documented there
                q = max(1, q - (1 if q**m == N and m > 1 else 0))
                T = (X - lb)/(ub - lb)
                for a in itertools.product(range(min(2*q, 12 if m > 1 else 99)), repeat=m):
                    if m > 1 and max(a) not in (0, 1, 2, 2*q - 1, 2*q - 2): continue
                    R.close(np.sum(w*np.prod(T**np.array(a), axis=1)), np.prod(ub - lb)/np.prod(np.array(a) + 1.), 'exact', '%s monomial %s' % (msg, a))
                R.state((k, N, len(X)))
    elif kind == 'rule':
        _, name, tier = payload
        s = ZOO[name]
        V = volume(s)
        flat = V == 0
        for meth, N in itertools.product(('auto', 'gauss', 'montecarlo'), ((1, 10, 600) if s.hull is None else (1, 10, 60)[:2 if flat else 3]) if tier == 'quick' else (1, 2, 5, 10, 100, 600)):
            if meth == 'montecarlo' and N > 100: N = 60
            if flat and N > 100: N = 50
            if s.m == 1 and N > 100: N = 100          # the rule is refined one node at a time there
            d = s.build()
            with scripted(ScriptedRandom((), base=2)):
                st, v = R.attempt(d.quadrature_rule, N, method=meth)
            msg = '%s quadrature_rule(%d, %s)' % (name, N, meth)
            if not R.check(st == 'ok', 'raises', '%s raised %s' % (msg, v)): continue
            X, w = v
            if not R.check(np.ndim(X) == 2 and X.shape[1] == s.m and np.shape(w) == (len(X),) and 1 <= len(X) <= N, 'budget', '%s: shapes %s %s' % (msg, np.shape(X), np.shape(w))): continue
            R.state((name, N, meth, len(X)))
            R.check(np.all(s.violation(X) <= 1.05e-5), 'outside', '%s: node violates by %g' % (msg, s.violation(X).max()))
            R.check(np.all(w >= 0) and np.all(np.isfinite(w)), 'weights', '%s: %s' % (msg, w[:5]))
            if meth == 'montecarlo' and not s.is_point:
                R.check(len(X) == N and np.ptp(w) <= 1e-12*max(1e-300, abs(w[0])), 'mc-weights', '%s: %d nodes, weights differ by %g' % (msg, len(X), np.ptp(w)))
                R.check(abs(w.sum() - V) <= .06*max(V, 1e-4*np.prod(np.maximum(1e-9, s.box()[1] - s.box()[0]))), 'mc-volume', '%s: weights sum to %g, volume %g' % (msg, w.sum(), V))
            if meth != 'montecarlo' and N >= 100 and not flat and s.hull is None and not s.name.startswith('thin'):
                tol = .12
                R.check(abs(w.sum() - V) <= tol*V, 'volume', '%s: weights sum to %g, volume %g' % (msg, w.sum(), V))
            if s.is_point:
                R.check(len(X) == 1 and np.allclose(w, 1.) and np.allclose(X[0], s.support(np.ones(s.m))[1]), 'point', '%s: %s %s' % (msg, X, w))
    else:
        _, name, tier = payload
        for meth in ('auto', 'gauss', 'montecarlo'):
            st, v = R.attempt(ZOO[name].build().quadrature_rule, 20, method=meth)
            R.check((st, v) == ('raise', 'EmptyDomainException'), 'empty', '%s %s answered %s %s' % (name, meth, st, v))
            R.state((name, meth, st))
        with scripted(ScriptedRandom((), base=2)):
            st, v = R.attempt(ZOO[name].build().volume)
        R.check(st == 'ok' and v == 0, 'empty-volume', 'volume of %s: %s' % (name, v))
