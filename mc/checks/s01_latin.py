import itertools
import numpy as np
from scipy.spatial.distance import pdist, squareform
import psdr
from .. import zoo
from ..core import scripted, ScriptedRandom, explore

PID = 'S01'
BOUND = """Boxes of dimension 1..3 (shifted, scaled, thin, flat sides, as box, uniform, inequality, tensor product and normalized domains) x N = 1..6 x
 every outcome of every permutation drawn for N <= 3 (each of the N! permutations in each coordinate, up to 3 deviations) and extreme
 permutations beyond; the maximin variant additionally over scripted swap and acceptance draws for 0..6 iterations; generalized
 designs on polytopes, hulls, balls and segments (N <= 4).  Oracle: strata computed from the exact range of each coordinate over the
 domain, exact feasibility of a design by enumeration of permutations, smallest distance recomputed from the points."""
ASSUMPTIONS = ['generalized designs: a design has to be delivered when strata shrunk by 2% still intersect the domain']
CASE_CPU_LIMIT = 150.


def boxes():
    out = [zoo.box('u1', [0], [1]), zoo.box('s1', [-3], [5]), zoo.box('w1', [100.], [1100.]), zoo.box('k1', [0], [1e-3]),
           zoo.box('u2', [0, 0], [1, 1]), zoo.box('r2', [-1, 10], [2, 11]), zoo.box('w2', [-1e4, 0], [1e4, 1e-3]),
           zoo.box('uni2', [0, -3], [2, 1], cls='UniformDomain'), zoo.lin('lin2', 2, [-1, 0], [1, 3]),
           zoo.tensor('tp', [zoo.box('a', [0], [2]), zoo.box('b', [-1, 3], [1, 4])]),
           zoo.box('u3', [-1, 0, 2], [1, 1, 5]), zoo.box('flat2', [0, 1], [2, 1]), zoo.box('flat3', [0, 1, -1], [2, 1, 1])]
    return out


def others():
    return [zoo.lin('ivc', 1, [-1], [2], [[2.]], [1.]), zoo.lin('cut', 2, [-1, -1], [1, 1], [(1, 1)], [1.]),
            zoo.lin('tri', 2, A=[(-1, 0), (0, -1), (1, 1)], b=[0, 0, 1]), zoo.lin('trifar', 2, A=[(-1, 0), (0, -1), (1, 2)], b=[-10, -20, 150]),
            zoo.lin('red', 2, [-1, -1], [1, 1], [(1, 0), (1, 1)], [5., 1.5]), zoo.lin('band', 2, [0, 0], [1, 1], [(1, -1), (-1, 1)], [.1, .1]),
            zoo.lin('boxrow', 2, [5, 5], [6, 8], [(1, 0)], [7.]),
            zoo.lin('eq', 2, [-1, -1], [1, 2], Aeq=[(1, 1)], beq=[.5]), zoo.hull('hull', [(0, 0), (2, 0), (3, 2), (1, 3), (-1, 1)]),
            zoo.hull('seg', [(0, 0), (2, 1)]), zoo.quad('ball', 2, quads=[(np.eye(2), (1, .5), 1.)]), zoo.quad('balloff', 2, quads=[(np.eye(2), (20., -10.), 3.)]),
            zoo.lin('simp', 3, A=[(-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 1, 1)], b=[0, 0, 0, 1]),
            zoo.lin('cutc', 3, [-1, -1, 0], [1, 1, 2], [(1, 1, 1)], [1.])]


B = {s.name: s for s in boxes()}
O = {s.name: s for s in others()}


def cases(tier):
    out = []
    for n in B:
        for N in range(1, 7): out.append(('box/%s-%d' % (n, N), ('box', n, N, tier)))
        for N in range(1, 7): out.append(('maximin/%s-%d' % (n, N), ('maximin', n, N, tier)))
    for n in O:
        for N in range(1, 6 if tier == 'thorough' and O[n].m < 3 else 5 if O[n].m < 3 else 4):
            out.append(('general/%s-%d' % (n, N), ('general', n, N, tier)))
    return out


def score(X):
    if len(X) == 1: return np.zeros(1)
    D = squareform(pdist(X)); np.fill_diagonal(D, np.inf)
    return np.sort(D.min(axis=1))


def better(a, b, tol):
    """smallest distance of a not below that of b up to rounding (later entries of the score only break ties)"""
    return a[0] >= b[0] - tol


def strata(R, s, X, N, msg, tol=1e-9):
    lo, hi = s.box()
    if not R.check(isinstance(X, np.ndarray) and X.shape == (N, s.m), 'shape', '%s: %s' % (msg, np.shape(X) if X is not None else None)): return False
    v = s.violation(X).max()
    good = R.check(v <= tol*s.scale(), 'outside', '%s: point outside by %g' % (msg, v))
    for i in range(s.m):
        w = hi[i] - lo[i]
        x = np.sort(X[:, i]); e = tol*s.scale()
        k = np.arange(N)
        good &= R.check(np.all(x >= lo[i] + k*w/N - e) and np.all(x <= lo[i] + (k + 1)*w/N + e), 'stratum', lambda: '%s: coordinate %d holds %s in [%g,%g]' % (msg, i, x, lo[i], hi[i]))
    return good


def doms(s):
    d = s.build()
    out = [('', d, s)]
    if np.all(s.box()[1] - s.box()[0] > 1e-9):
        nd = d.normalized_domain()
        out.append(('norm', nd, zoo.box('n', -np.ones(s.m), np.ones(s.m))))
    return out


def run(p, R):
    kind, name, N, tier = p
    if kind == 'box':
        for lab, d, s in doms(B[name]):
            def go(rng):
                st, X = R.attempt(psdr.latin_hypercube_sample, d, N)
                msg = '%s%s N=%d draws %s' % (name, lab, N, rng.prefix)
                if not R.check(st == 'ok', 'raises', '%s: %s' % (msg, X)): return
                if strata(R, s, X, N, msg): R.state((name, lab, N, X))
            explore(go, bound=3 if N <= 3 else 2, menus={'perm_full': 4 if tier == 'thorough' and s.m < 3 else 3}, R=R)
            for form in (float(N), np.int64(N)):
                with scripted(ScriptedRandom(())):
                    st, X = R.attempt(psdr.latin_hypercube_sample, d, form)
                R.check(st == 'ok' and np.shape(X) == (N, s.m), 'count-form', '%s N=%r: %s' % (name, form, X))
    elif kind == 'maximin':
        for lab, d, s in doms(B[name]):
            if np.all(s.box()[1] - s.box()[0] < 1e-9): continue
            its = (1, 2, 3, 6) if tier == 'quick' else (1, 2, 3, 4, 6, 10)
            last = {}
            for it in its:
                def go(rng):
                    st, X = R.attempt(psdr.latin_hypercube_maximin, d, N, maxiter=it)
                    msg = '%s%s N=%d maxiter=%d draws %s' % (name, lab, N, it, rng.prefix)
                    if not R.check(st == 'ok', 'raises', '%s: %s' % (msg, X)): return
                    if strata(R, s, X, N, msg):
                        R.state((name, lab, N, it, X))
                        key = tuple(rng.prefix); sc = score(X)
                        if key in last:
                            R.check(better(sc, last[key], 1e-9*s.scale()), 'worse-with-iterations', lambda: '%s: score %s, with fewer iterations %s' % (msg, sc, last[key]))
                        last[key] = sc
                explore(go, bound=2 if N <= 3 or tier == 'thorough' else 1, max_points=s.m + 4, R=R)
            with scripted(ScriptedRandom(())):
                st, X = R.attempt(psdr.latin_hypercube_maximin, d, N)
            if R.check(st == 'ok', 'raises', '%s default: %s' % (name, X)): strata(R, s, X, N, '%s default' % name)
            # the search reaches the best distance when there are few designs
            if st == 'ok' and 2 <= N <= 3 and s.m == 2 and not lab and np.shape(X) == (N, 2):
                lo, hi = s.box()
                g = [lo[i] + (np.arange(N) + .5)*(hi[i] - lo[i])/N for i in range(2)]
                best = max(score(np.column_stack([g[0], g[1][list(q)]]))[0] for q in itertools.permutations(range(N)))
                R.check(score(X)[0] >= .999*best or N > 3, 'not-best', '%s N=%d: %g of %g' % (name, N, score(X)[0], best))
    else:
        s = O[name]
        lo, hi = s.box()
        def exists():
            w = (hi - lo)/N
            for perm in itertools.product(itertools.permutations(range(N)), repeat=s.m - 1):
                ok = True
                for k in range(N):
                    idx = np.array([k] + [q[k] for q in perm])
                    l, u = lo + (idx + .02)*w, lo + (idx + .98)*w
                    c = zoo.restrict('c', s, None, lb=l, ub=u)
                    if c.empty: ok = False; break
                if ok: return True
            return False
        must = exists()
        for fn, kw in ((psdr.latin_hypercube_sample, {}), (psdr.latin_hypercube_maximin, {'maxiter': 3})):
            best = None
            for script in ((), (1,), (2,), (3,)) if fn is psdr.latin_hypercube_sample or s.m < 3 else ((),):
                msg = '%s %s N=%d seed %s' % (name, fn.__name__, N, script)
                with scripted(ScriptedRandom(script)):
                    st, X = R.attempt(fn, s.build(), N, **kw)
                if not R.check(st == 'ok', 'general-raises', '%s: %s' % (msg, X)): continue
                if X is None:
                    R.check(not must, 'general-none', '%s: no design although one exists' % msg)
                    continue
                if strata(R, s, X, N, msg, 2e-6): R.state((name, N, fn.__name__, script, X))
