"""I03: nonlinearity, subspace initialization, convergence studies and coordinate reductions"""
import itertools, warnings
import numpy as np
from scipy.optimize import linprog
import psdr
from psdr.initialization import initialize_subspace
from psdr.misc import check_sample_inputs
from ..core import explore

PID = 'I03'
BOUND = """Nonlinearity: every value vector {0,1,2}^M on 4 (5) points in dimension 1..2, structured and scaled data on 3..10 points in dimension 1..3,
 repeated points, every spelling and choice of units (inputs and values times 1e-9..1e9); oracle is the same linear program solved in another formulation (HiGHS), with affine, scaling, shifting and
 invertible-order invariances.  Initial subspaces: every combination of {no, few, many} gradients, {no, too few, enough, many} samples, {affine, ridge,
 quadratic} functions and n_grads, every random subset (all permutations of 4 points; bounded deviations above).  Convergence studies: every
 sequence of sample sizes from an alphabet up to length 3 (4), 3 methods, 2 data modes, domain given or implied, designs that return as many or more
points than asked for; oracle recomputes angles from fresh fits.
 Coordinate reductions: every score vector {0,1,2,5}^m for m <= 3 (4), histories of fits.  Input normalization: every combination of present/absent data."""
ASSUMPTIONS = ['nonlinearity is compared to 1e-4 (interior point solver)', 'scores that tie may be ordered either way']
CASE_CPU_LIMIT = 200.


def cases(tier):
    out = []
    for k in ('1d4', '2d4', '2d5', '1d5'):
        if k == '2d5' and tier != 'thorough' or k == '1d5' and tier != 'thorough': continue
        for first in range(3): out.append(('nonlin/all/%s/%d' % (k, first), ('nonlin-all', k, first, tier)))
    for k in POINTS: out.append(('nonlin/data/%s' % k, ('nonlin', k, tier)))
    for m in (1, 2, 3): out.append(('init/%d' % m, ('init', m, tier)))
    for k in ('asm', 'prand', 'diag'): out.append(('study/%s' % k, ('study', k, tier)))
    out.append(('coord', ('coord', tier)))
    out.append(('inputs', ('inputs', tier)))
    return out


P = lambda *a: np.array(a, dtype=float)
POINTS = {
    '1d4': P([0.], [1.], [2.], [4.]),
    '1d5': P([-3.], [0.], [1.], [2.], [4.]),
    '2d4': P([0, 0], [1, 0], [0, 1], [1, 1]),
    '2d5': P([0, 0], [1, 0], [0, 1], [1, 1], [.4, .7]),
    '1d3int': np.array([[0], [3], [5]]),
    '2d9': np.array(list(itertools.product([-1., 0., 1.], repeat=2))),
    '2dwide': np.array(list(itertools.product([-1., 0., 2.], [100., 150., 300.]))),
    '2ddup': P([0, 0], [1, 0], [0, 1], [1, 1], [1, 1], [0, 0]),
    '3d10': np.vstack([np.zeros((1, 3)), np.eye(3), -np.eye(3), P([1, 1, 1], [1, -1, .5], [.3, .2, -.7])]),
    '2d2': P([0, 0], [1, 2]),
}


def lip_best(X, f):
    X = np.asarray(X, dtype=float)
    i, j = np.triu_indices(len(X), k=1)
    D = X[i] - X[j]; d = f[i] - f[j]; n = np.linalg.norm(D, axis=1)
    k = n > 0; D, d, n = D[k]/n[k][:, None], d[k]/n[k], n[k]
    s = np.abs(d).max() if len(d) else 0.
    if s == 0: return 0., 0.
    m = X.shape[1]
    o = np.ones((len(d), 1))
    r = linprog(np.r_[np.zeros(m), 1.], A_ub=np.vstack([np.hstack([-D, -o]), np.hstack([D, -o])]), b_ub=np.r_[-d, d]/s, bounds=[(None, None)]*m + [(0, None)])
    assert r.status == 0
    return r.fun, s


def lip(X, f):
    X = np.asarray(X, dtype=float)
    i, j = np.triu_indices(len(X), k=1)
    n = np.linalg.norm(X[i] - X[j], axis=1); k = n > 0
    return (np.abs(f[i] - f[j])[k]/n[k]).max() if k.any() else 0.


def one(X, f, R, msg):
    Xc, fc = np.copy(X), np.copy(f)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            st, v = R.attempt(psdr.measure_nonlinearity, Xc, fc)
    if not R.check(st == 'ok', 'nonlin', '%s: %s' % (msg, v)): return None
    R.check(np.array_equal(Xc, X) and np.array_equal(fc, f), 'mutates', msg)
    N, a = v
    e, L0 = lip_best(X, np.ravel(f).astype(float))
    R.state((msg, round(e, 4))); R.step()
    R.check(np.isscalar(N) and np.isfinite(N) and -1e-6 <= N <= 1 + 1e-6, 'nonlin-range', '%s: %s' % (msg, N))
    R.close(N, e, 'nonlin-value', msg, atol=1e-4)
    a = np.ravel(a)
    if R.check(a.shape == (np.shape(X)[1],), 'nonlin-shape', '%s: %s' % (msg, a)):
        r = np.ravel(f) - np.asarray(X, dtype=float) @ a
        R.check(lip(X, r) <= (e + 1e-4)*max(L0, 1e-300) + 1e-12, 'nonlin-fit', '%s: a=%s leaves %.6g of %.6g, best %.6g' % (msg, a, lip(X, r), L0, e*L0))
    return N


def run(payload, R):
    kind, tier = payload[0], payload[-1]
    deep = tier == 'thorough'
    if kind == 'nonlin-all':
        X = POINTS[payload[1]]
        for v in itertools.product((0., 1., 2.), repeat=len(X) - 1):
            one(X, np.array((float(payload[2]),) + v), R, '%s %s' % (payload[1], (payload[2],) + v))
    elif kind == 'nonlin':
        X = POINTS[payload[1]]; M, m = X.shape
        U = (X - X.min(axis=0))/np.maximum(np.ptp(X, axis=0), 1e-300)
        a = np.arange(1., m + 1)
        fs = [('affine', U @ a + 3), ('sine', np.sin(3*U @ a)), ('quad', (U @ a)**2 - U[:, 0]), ('abs', np.abs(U[:, -1] - .4)), ('const', np.full(M, 2.)), ('spike', np.eye(M)[0]), ('alt', (-1.)**np.arange(M))]
        for lab, f in fs:
            if payload[1] == '2ddup': f = f.copy(); f[4] = f[3]; f[5] = f[0]
            msg = '%s %s' % (payload[1], lab)
            N = one(X, f, R, msg)
            if N is None: continue
            for lab2, X2, f2 in (('list', X.tolist(), f.tolist()), ('column', X, f.reshape(-1, 1)), ('scaled', X, 1e3*f), ('shifted', X, f + 50), ('negated', X, -f), ('tiny', X, 1e-3*f),
                                 ('reversed', X[::-1], f[::-1]), ('moved', X + 7., f), ('zoom', X*10., f), ('minute', X, 1e-9*f), ('huge', X, 1e9*f), ('micro', X*1e-9, f), ('mega', X*1e9, f), ('both', X*1e6, 1e-6*f), ('swapped', X[:, ::-1], f), ('fortran', np.asfortranarray(X), f)):
                st, v = R.attempt(psdr.measure_nonlinearity, X2, f2)
                if R.check(st == 'ok', 'nonlin-spelling', '%s %s: %s' % (msg, lab2, v)): R.close(v[0], N, 'nonlin-invariance', '%s %s' % (msg, lab2), atol=3e-4)
                R.step()
    elif kind == 'init':
        m = payload[1]
        a = np.array([1., -2., .5])[:m]
        funs = [('affine', lambda X: X @ a + 1, lambda X: np.tile(a, (len(X), 1))),
                ('ridge', lambda X: np.exp(.3*X @ a), lambda X: .3*np.exp(.3*X @ a)[:, None]*a),
                ('quad', lambda X: X[:, 0]**2 + 3*X[:, -1], lambda X: np.eye(m)[0]*2*X[:, :1] + 3*np.eye(m)[-1]),
                ('zero', lambda X: np.zeros(len(X)), lambda X: np.zeros((len(X), m)))]
        grid = np.array(list(itertools.product([-1., 0., .5, 1.], repeat=m)))
        samp = {'none': None, 'few': grid[:m], 'enough': np.vstack([np.zeros(m), np.eye(m)]), 'many': np.vstack([np.zeros(m), np.eye(m), -np.eye(m)*.6, .7*np.ones((1, m))])}
        if m == 1: samp['many'] = P([0.], [1.], [-.6], [.7])
        gr = {'none': None, 'one': grid[1:2], 'some': grid[:min(3, len(grid))], 'more': grid}
        for (lab, f, g), (ks, S), (kg, G), ng in itertools.product(funs, samp.items(), gr.items(), (1, 3, 100)):
            if S is None and G is None: continue
            msg = 'm=%d %s samples=%s grads=%s n_grads=%d' % (m, lab, ks, kg, ng)
            X = None if S is None else S.copy(); fX = None if S is None else f(S); gX = None if G is None else g(G)

            def go(rng):
                st, U = R.attempt(initialize_subspace, X=X, fX=fX, grads=gX, n_grads=ng)
                if not R.check(st == 'ok', 'init', '%s: %s' % (msg, U)): return
                R.check(U.shape == (m, m), 'init-shape', '%s: %s' % (msg, U.shape))
                R.close(U.T @ U, np.eye(m), 'init-orth', msg, atol=1e-10)
                # directions the data determine
                exact = None
                if G is not None and (S is None or len(S) < m + 1 or len(G) >= ng): exact = gX
                elif S is not None and len(S) < m + 1: exact = None
                elif lab == 'affine': exact = np.tile(a, (2, 1))
                elif lab == 'zero': exact = np.zeros((1, m))
                if exact is not None:
                    sv = np.linalg.svd(exact)[1]; W = np.linalg.svd(exact)[2]
                    sv = np.r_[sv, np.zeros(m - len(sv))]
                    for r in range(1, m):
                        if sv[r - 1] > sv[r] + 1e-6:
                            R.close(U[:, :r] @ U[:, :r].T, W[:r].T @ W[:r], 'init-span', '%s: leading %d' % (msg, r), atol=1e-6)
                R.state((msg, np.round(np.abs(U), 3)))
            explore(go, bound=1, menus={'perm_full': 4 if m < 3 or deep else 3}, R=R)
            if S is not None: R.check(np.array_equal(X, S) and np.array_equal(fX, f(S)), 'mutates', msg)
    elif kind == 'study':
        m = 3
        dom = psdr.BoxDomain(-np.ones(m), [1., 2., 3.])
        A = np.array([[2., 1., 0.], [1., 3., .5], [0., .5, .1]])
        fun = psdr.Function(lambda x: np.einsum('ij,jk,ik->i', np.atleast_2d(x), A, np.atleast_2d(x))/2 + np.atleast_2d(x) @ np.array([0, 0, 1.]), dom,
                            grads=lambda x: np.atleast_2d(x) @ A + np.array([0, 0, 1.]), vectorized=True)
        base = np.array(list(itertools.product([-.9, .1, .8], repeat=m)))[[0, 13, 5, 22, 8, 19, 2, 25, 11, 16, 4, 7, 26, 1]]
        if payload[1] == 'asm': mk, modes, ns, dims = (lambda: psdr.ActiveSubspace()), ('grad',), (1, 2, 3, 7, 12.), (1, 2)
        elif payload[1] == 'diag': mk, modes, ns, dims = (lambda: psdr.DiagonalLipschitzMatrix()), ('grad', 'eval'), (2, 3, 6.), (1, 2)
        else:
            class Lin(psdr.SubspaceBasedDimensionReduction):
                """deterministic stand-in: directions of the least squares quadratic"""
                def fit(self, X=None, fX=None, grads=None):
                    V = np.hstack([np.ones((len(X), 1)), X]); c = np.linalg.lstsq(V, np.ravel(fX), rcond=None)[0][1:]
                    self._U = np.linalg.svd(np.vstack([c, .1*X[-1]]).T)[0]
                @property
                def U(self): return self._U
            mk, modes, ns, dims = Lin, ('eval',), (5, 7, 10, 14), (1, 2)
        for data, d, given in itertools.product(modes, dims, (False, True)):
            use = dom.normalized_domain() if not given else psdr.BoxDomain(-.5*np.ones(m), .5*np.ones(m))
            for length in range(1, 5 if deep else 4 if payload[1] != 'diag' else 3):
                for Ns, extra in itertools.product(itertools.product(ns, repeat=length), (0, 1)):
                    # a design may return another number of points than asked for (e.g. full factorial)
                    if extra and (length > 2 or len(set(Ns)) < length): continue
                    calls = []

                    def sampler(domain, N):
                        calls.append((domain, N))
                        x = base[:int(N) + extra]*(1. if not given else .5)
                        return x if len(calls) % 2 else x.ravel()
                    msg = '%s data=%s dim=%d domain=%s Ns=%s extra=%d' % (payload[1], data, d, given, Ns, extra)
                    st, v = R.attempt(psdr.subspace_convergence, mk(), fun, sampler, list(Ns), **dict(dict(data=data, subspace_dimension=d), **({'domain': use} if given else {})))
                    if not R.check(st == 'ok', 'study', '%s: %s' % (msg, v)): continue
                    ang, Ms = v
                    R.check(list(Ms) == [len(base[:int(n) + extra]) for n in Ns], 'study-counts', '%s: %s' % (msg, Ms))
                    R.check([n for _, n in calls] == list(Ns) and all((c is use) if given else (c is fun.domain) for c, _ in calls), 'study-samples', msg)
                    Us = []
                    for n in Ns:
                        o = mk(); X = base[:int(n) + extra]*(1. if not given else .5)
                        if data == 'eval': o.fit(X=X, fX=fun(X))
                        else: o.fit(grads=fun.grad(X))
                        Us.append(np.array(o.U)[:, :d])
                    E = [np.pi/2] + [np.arccos(np.clip(np.linalg.svd(Us[i].T @ Us[i + 1])[1].min(), 0, 1)) for i in range(len(Us) - 1)]
                    if R.check(np.shape(ang) == (len(Ns),), 'study-shape', msg): R.close(ang, E, 'study-angle', msg, atol=1e-6)
                    R.step(); R.state((payload[1], data, d, given, np.round(E, 4)))
        R.check(R.attempt(psdr.subspace_convergence, mk(), fun, lambda *a: base, [3], data='nonsense')[0] == 'raise', 'study-mode', 'unknown data accepted')
    elif kind == 'coord':
        import matplotlib; matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        for m in range(1, 5 if deep else 4):
            dom = psdr.BoxDomain(-np.ones(m), np.ones(m), names=['n%d' % i for i in range(m)])
            prev = None
            for s in itertools.product((0., 1., 2., 5.), repeat=m):
                if not any(s): continue
                objs = [psdr.DiagonalLipschitzMatrix()]
                if prev is not None: objs.append(prev)
                for o in objs:
                    G = np.vstack([np.diag(s), .5*np.diag(s)])
                    msg = 'score %s%s' % (s, '' if o is not prev else ' refit')
                    st, v = R.attempt(o.fit, grads=G)
                    if not R.check(st == 'ok', 'coord', '%s: %s' % (msg, v)): continue
                    sc = np.asarray(o.score)
                    R.check(sc.shape == (m,) and np.all(sc >= -1e-8), 'coord-score', '%s: %s' % (msg, sc))
                    R.close(sc, np.array(s), 'coord-score', msg, atol=1e-2)
                    U = np.asarray(o.U)
                    R.check(U.shape == (m, m) and set(U.ravel()) <= {0., 1.} and np.all(U.sum(axis=0) == 1) and np.all(U.sum(axis=1) == 1), 'coord-perm', '%s: %s' % (msg, U))
                    ordered = sc @ U
                    R.check(np.all(np.diff(ordered) <= 1e-9), 'coord-order', '%s: %s' % (msg, ordered))
                    R.check(np.array_equal(o.U, U), 'coord-stable', msg)
                    R.step(); R.state((m, s))
                prev = objs[0]
            for ax in ('auto', 'own', None):
                given = plt.subplots()[1] if ax == 'own' else ax
                for d in (None, dom):
                    a = o.plot_score(ax=given, domain=d)
                    if ax is None: R.check(a is None, 'plot-none', ''); continue
                    if ax == 'own': R.check(a is given, 'plot-axis', '')
                    h = [b.get_height() for b in a.patches[-m:]]; x = [b.get_x() + b.get_width()/2 for b in a.patches[-m:]]
                    R.close(h, o.score, 'plot-score', 'm=%d' % m); R.close(x, np.arange(m), 'plot-place', 'm=%d' % m)
                    if d is not None: R.check([t.get_text() for t in a.get_xticklabels()] == list(dom.names), 'plot-names', 'm=%d' % m)
            plt.close('all')
    else:
        m = 2
        for kx, kf, kg in itertools.product((None, 'a', 'list', 'int'), (None, 'a', 'list', 'col'), (None, 'a', 'list', 'wrong', 'empty')):
            X = P([1, 2], [3, 4], [5, 6]) if kx != 'int' else np.array([[1, 2], [3, 4], [5, 6]])
            f = P(1, 2, 3); G = P([1, 0], [0, 1]) if kg != 'wrong' else P([1, 0, 0])
            if kg == 'empty': G = np.zeros((0, 2))
            Xa = None if kx is None else X.tolist() if kx == 'list' else X
            fa = None if kf is None else f.tolist() if kf == 'list' else f[:, None] if kf == 'col' else f
            Ga = None if kg is None else G.tolist() if kg == 'list' else G
            msg = 'X=%s fX=%s grads=%s' % (kx, kf, kg)
            both = kx is not None and kf is not None
            st, v = R.attempt(check_sample_inputs, Xa, fa, Ga)
            R.step(); R.state(msg)
            if not both and kg is None or both and kg == 'wrong': R.check(st == 'raise', 'inputs-accept', msg); continue
            if not R.check(st == 'ok', 'inputs', '%s: %s' % (msg, v)): continue
            X1, f1, G1 = v
            mm = G.shape[1] if kg is not None else m
            R.check(np.shape(X1) == ((3, m) if both else (0, mm)) and np.shape(f1) == ((3,) if both else (0,)) and np.shape(G1) == (G.shape if kg is not None else (0, m)), 'inputs-shape', msg)
            if both: R.close(X1, X, 'inputs-X', msg); R.close(f1, f, 'inputs-f', msg)
            if kg is not None: R.close(G1, G, 'inputs-G', msg)
        R.check(R.attempt(check_sample_inputs, P([1, 2]), P(1, 2), None)[0] == 'raise', 'inputs-count', 'mismatched counts accepted')
