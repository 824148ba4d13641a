"""A02: Lipschitz matrices, constants and the bounds derived from them"""
import itertools, os, tempfile
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from scipy.optimize import linprog
import psdr
from psdr import LipschitzMatrix, LipschitzConstant, DiagonalLipschitzMatrix, PartialLipschitzMatrix, BoxDomain
from psdr.lipschitz import LowerBound, UpperBound
from psdr.lipschitz_approx import LipschitzApproximation, lipschitz_approximation_compatible_data
from psdr.lipschitz_utils import dist_eval_constraints, dist_grad_constraints, project_evals, project_grads

PID = 'A02'
BOUND = """Alphabet: every labelling with values {0,1,3} of up to 4 points of the {0,1}^m, {-1,0,2} and skewed lattices (m<=3), every
 set of up to 2 gradients in {-1,0,1,2}^m (m<=2) and families in dimension 3,4, mixed values and gradients x epsilon {none, 0, .5, 2} x
 certificate {full (3 solution methods), diagonal, constant, partial of every rank} x histories of two fits x units of inputs {1e-6,1,1e6,1e9} and outputs
 {1e-9,1e-3,1,1e3,1e9}.  Uncertainty: every query on a lattice x every data set x L {identity, scaled, singular, rectangular, fitted}.
 Oracle: smallest certificate by an independent cutting plane linear programme; bounds from the definition; McShane extremal functions."""
ASSUMPTIONS = ['all inputs in comparable units: certificates of inputs whose ranges differ by more than a factor 1e3 are beyond the semidefinite solver (it then raises)', 'semidefinite programmes are solved to the tolerance of the solver: feasibility to 1e-5 and minimal trace to 1e-3 relative to the squared scale of the outputs',
               'samples are distinct points or repeat a point with the same value; the rank-restricted certificate is only required to be feasible, no larger than for its initial subspace and not smaller than the full one',
               'uncertainty_domain is a local multistart search: its bounds must be attained inside the domain and contain the bounds at its own starting points']


def pairs(X, f, eps):
    """(difference, squared excess) of all pairs"""
    out = []
    for i, j in itertools.combinations(range(len(X)), 2):
        d = max(abs(f[i] - f[j]) - eps, 0)
        if d > 0: out.append((X[i] - X[j], d*d))
    return out


def basis(kind, m, U=None):
    E = []
    if kind == 'full':
        for i in range(m):
            for j in range(i, m):
                e = np.zeros((m, m)); e[i, j] = e[j, i] = 1; E.append(e)
    elif kind == 'diag':
        for i in range(m): e = np.zeros((m, m)); e[i, i] = 1; E.append(e)
    else:
        r = U.shape[1]
        for i in range(r):
            for j in range(i, r): e = np.zeros((r, r)); e[i, j] = e[j, i] = 1; E.append(U @ e @ U.T)
        E.append(np.eye(m) - U @ U.T)
    return np.array(E)


def smallest(X, f, G, eps, kind='full', U=None, tol=1e-6):
    """lower bound on the trace of a certificate (cutting planes)"""
    m = X.shape[1] if len(X) else G.shape[1]
    E = basis(kind, m, U); c = np.trace(E, axis1=1, axis2=2)
    P = pairs(X, f, eps)
    sc = max([b/(p @ p) for p, b in P] + [g @ g for g in G] + [1e-300])
    A = [-np.einsum('i,kij,j->k', p, E, p)/(p @ p) for p, b in P]; B = [-b/(p @ p)/sc for p, b in P]
    bd = 4.*m*(len(P) + len(G) + 1)
    rows = [np.eye(m)[i] for i in range(m)] + [g/np.linalg.norm(g) for g in G if np.linalg.norm(g)]
    M = [np.zeros((m, m))] + [np.outer(g, g)/sc for g in G]
    def cut(v):
        A.append(-np.einsum('i,kij,j->k', v, E, v)); B.append(-max(v @ Mk @ v for Mk in M))
    for v in rows: cut(v)
    for it in range(120):
        r = linprog(c, A_ub=np.array(A), b_ub=np.array(B), bounds=[(-bd, bd)]*len(E), method='highs')
        if r.x is None: return None
        H = np.tensordot(r.x, E, 1); bad = False
        for Mk in M:
            w, V = np.linalg.eigh(H - Mk)
            for k in range(m):
                if w[k] < -tol: cut(V[:, k]); bad = True
        if not bad: break
    return r.fun*sc


def feasible(R, H, X, f, G, eps, msg, sig='', tol=1e-5):
    sc = max([b/(p @ p) for p, b in pairs(X, f, eps)] + [g @ g for g in G] + [1e-300])
    ok = R.check(np.all(np.isfinite(H)) and np.abs(H - H.T).max() <= 1e-9*sc, sig + 'matrix', '%s: H = %s' % (msg, np.asarray(H).tolist()))
    if not ok: return False
    ok &= R.check(np.linalg.eigvalsh(H)[0] >= -1e-7*max(sc, np.abs(H).max()), sig + 'semidefinite', '%s: H = %s' % (msg, H.tolist()))
    for p, b in pairs(X, f, eps):
        ok &= R.check(p @ H @ p >= b - tol*sc*(p @ p), sig + 'certificate', '%s: samples differing by %s and %g exceed the bound %g' % (msg, p, np.sqrt(b), np.sqrt(max(p @ H @ p, 0))))
    for g in G:
        ok &= R.check(np.linalg.eigvalsh(H - np.outer(g, g))[0] >= -tol*sc, sig + 'gradient', '%s: gradient %s is not bounded by %s' % (msg, g, H.tolist()))
    return ok


def mk(kind, eps=None):
    if kind == 'const': return LipschitzConstant(epsilon=eps)
    if kind == 'diag': return DiagonalLipschitzMatrix(epsilon=eps)
    if kind == 'diag-param': return DiagonalLipschitzMatrix(epsilon=eps, method='param')
    if kind == 'diag-cvxpy': return DiagonalLipschitzMatrix(epsilon=eps, method='cvxpy')
    return LipschitzMatrix(epsilon=eps, **({} if kind == 'cvxopt' else {'method': kind}))


def args(X, f, G):
    kw = {}
    if len(X): kw.update(X=X, fX=f)
    if len(G): kw.update(grads=G)
    return kw


def check_fit(R, kind, o, X, f, G, eps, msg, small=None, full=True):
    m = X.shape[1]; e = eps or 0.
    H, L = np.asarray(o.H), np.asarray(o.L)
    if not R.check(H.shape == (m, m) and L.shape == (m, m), 'shape', '%s: %s %s' % (msg, H.shape, L.shape)): return
    if not feasible(R, H, X, f, G, e, msg): return
    sc = max([b/(p @ p) for p, b in pairs(X, f, e)] + [g @ g for g in G] + [1e-300])
    R.check(np.abs(L.T @ L - H).max() <= 1e-8*sc, 'factor', "%s: L'L = %s, H = %s" % (msg, (L.T @ L).tolist(), H.tolist()))
    R.check(len(o) == m, 'len', msg)
    U = np.asarray(o.U)
    if R.check(U.shape == (m, m) and np.abs(U.T @ U - np.eye(m)).max() < 1e-9, 'orthonormal', '%s: U = %s' % (msg, U.tolist())):
        D = U.T @ H @ U
        R.check(np.abs(D - np.diag(np.diag(D))).max() <= 1e-7*sc and np.all(np.diff(np.diag(D)) <= 1e-7*sc), 'directions', "%s: U'HU = %s" % (msg, D.tolist()))
    if kind == 'const':
        v = max([np.sqrt(b/(p @ p)) for p, b in pairs(X, f, e)] + [np.linalg.norm(g) for g in G] + [0])
        R.check(np.abs(L - v*np.eye(m)).max() <= 1e-9*max(v, 1e-300), 'minimal', '%s: constant %s is not %g' % (msg, L[0, 0], v))
        return
    if kind.startswith('diag'):
        R.check(np.count_nonzero(H - np.diag(np.diag(H))) == 0, 'diagonal', '%s: %s' % (msg, H.tolist()))
        R.close(o.score, np.diag(L), 'score', msg)
    if small is None: small = smallest(X, f, G, e, 'diag' if kind.startswith('diag') else 'full')
    R.check(small is not None and np.trace(H) <= small*(1 + 1e-3) + 1e-3*sc, 'minimal', '%s: trace %g, a certificate of trace %s exists' % (msg, np.trace(H), small))


def data_sets(m, deep):
    """labelled points"""
    L = {1: np.array([[-1.], [0], [2]]), 2: np.array([[0., 0], [1, 0], [0, 1], [1, 1]]), 3: np.array([[0., 0, 0], [1, 0, .5], [0, 2, 0], [.3, 0, 1]])}[m]
    for v in itertools.product((0., 1., 3.) if m < 3 or deep else (0., 2.), repeat=len(L)): yield L, np.array(v)
    if m == 2:
        S = np.array([[-1., .5], [2, 1], [.5, -1]])
        for v in itertools.product((0., 1., 3.), repeat=3): yield S, np.array(v)
        for v in itertools.product((0., 1., 3.), repeat=2): yield S[:2], np.array(v)
    if m == 1:
        S = np.array([[0.], [1], [1.5], [4]])
        for v in itertools.product((-2., 0., 1.), repeat=4): yield S, np.array(v)
    yield L[:1], np.array([2.])
    yield np.vstack([L, L[:1]]), np.hstack([np.arange(len(L)), [0.]])


def grad_sets(m, deep):
    if m <= 2:
        V = np.array(list(itertools.product((-1., 0, 1, 2), repeat=m)))
        for i in range(len(V)): yield V[i:i+1]
        for i, j in itertools.combinations(range(len(V)), 2): yield V[[i, j]]
    else:
        B = np.array([[np.sin(1 + 3*i + 5*j*j) for j in range(m)] for i in range(6)])
        for k in (1, 2, 3, 6): yield B[:k]
        yield np.eye(m); yield np.outer(np.arange(1., 4), np.arange(m) + 1.); yield np.zeros((2, m)); yield B*10.**(np.arange(m) - 1)


def cases(tier):
    out = []
    for m in (1, 2, 3):
        for k in range(8): out.append(('samples/%d/%d' % (m, k), ('samp', m, k, tier)))
    for m in (1, 2, 3, 4):
        for k in range(4): out.append(('grads/%d/%d' % (m, k), ('grad', m, k, tier)))
    for m in (1, 2, 3): out.append(('mixed/%d' % m, ('mixed', m, tier)))
    out += [('methods/%d' % m, ('meth', m, tier)) for m in (1, 2, 3)]
    out += [('partial/%d/%d' % (m, k), ('part', m, k, tier)) for m in (2, 3) for k in range(8)]
    out += [('uncertainty/%d' % m, ('unc', m, tier)) for m in (1, 2, 3)]
    out += [('domain/%d' % k, ('dom', k, tier)) for k in range(8)]
    out += [('compatible/%d' % k, ('comp', k, tier)) for k in range(8)]
    out += [('approx/%d' % k, ('app', k, tier)) for k in range(4)]
    out += [('utils/%d' % m, ('util', m, tier)) for m in (1, 2, 3)]
    return out


Z = lambda m: np.zeros((0, m))


def fit_all(R, X, f, G, eps, kinds, msg, hist=None):
    m = X.shape[1]
    small = {k: smallest(X, f, G, eps or 0., k) for k in ('full', 'diag')} if any(k != 'const' for k in kinds) else {}
    for kind in kinds:
        o = mk(kind, eps)
        a, b, c = X.copy(), f.copy(), G.copy()
        st, e = R.attempt(lambda: o.fit(**args(X, f, G)))
        ms = '%s %s' % (kind, msg)
        R.step()
        if not R.check(st == 'ok', 'raise', '%s: %s' % (ms, e)): continue
        R.check(np.array_equal(a, X) and np.array_equal(b, f) and np.array_equal(c, G), 'mutates', ms)
        check_fit(R, kind, o, X, f, G, eps, ms, None if kind == 'const' else small['diag' if kind.startswith('diag') else 'full'])
        if hist is not None and kind in hist:
            u = hist[kind]; u.U
            st, e = R.attempt(lambda: u.fit(**args(X, f, G)))
            if R.check(st == 'ok', 'refit', '%s: %s' % (ms, e)):
                R.check(np.array_equal(u.H, o.H) and np.array_equal(u.L, o.L) and np.array_equal(u.U, o.U) and len(u) == len(o), 'refit', '%s: a used object gives H = %s U = %s, a fresh one %s %s' % (ms, np.asarray(u.H).tolist(), np.asarray(u.U).tolist(), np.asarray(o.H).tolist(), np.asarray(o.U).tolist()))
    R.state((msg,))


def run(payload, R):
    kind = payload[0]; deep = payload[-1] == 'thorough'
    if kind == 'samp':
        _, m, k, tier = payload
        for n, (X, f) in enumerate(data_sets(m, deep)):
            if n % 8 != k: continue
            hist = {}
            for kd in ('const', 'diag', 'cvxopt'):
                hist[kd] = mk(kd, None); hist[kd].fit(grads=np.array([np.arange(1., m + 2)]) if n % 2 else np.diag(np.arange(1., m + 1)))
            fit_all(R, X, f, Z(m), None, ('cvxopt', 'diag', 'const'), 'samples %s values %s' % (X.tolist(), f.tolist()), hist)
            for eps in ((0., .5, 2.) if n % 3 == 0 or deep else (.5,)):
                fit_all(R, X, f, Z(m), eps, ('cvxopt', 'diag', 'const'), 'samples %s values %s epsilon %s' % (X.tolist(), f.tolist(), eps))
            if n % 9 == k % 9 or deep:
                # spelling, order, shift, scale
                base = {kd: mk(kd) for kd in ('cvxopt', 'diag', 'const')}
                for kd, o in base.items():
                    o.fit(X=X, fX=f); t = np.trace(o.H)
                    sc = 1e-4*(np.ptp(f)**2 + 1e-300)*10
                    for w, XX, ff, fac in (('lists', X.tolist(), f.reshape(-1, 1).tolist(), 1.), ('reversed', X[::-1], f[::-1], 1.), ('shifted', X + 5., f - 7., 1.), ('scaled up', X, 1e3*f, 1e6), ('scaled down', X, 1e-3*f, 1e-6), ('coordinates', 10.*X, f, .01), ('negated', X, -f, 1.),
                                           ('inputs x 1e6', 1e6*X, f, 1e-12), ('inputs / 1e6', 1e-6*X, f, 1e12), ('values x 1e9', X, 1e9*f, 1e18), ('values / 1e9', X, 1e-9*f, 1e-18), ('values + 1e6', X, f + 1e6, 1.), ('both', 1e9*X, 1e9*f, 1.)):
                        u = mk(kd); st, e = R.attempt(lambda: u.fit(X=XX, fX=ff))
                        if R.check(st == 'ok', 'spelling-raise', '%s samples %s values %s, %s: %s' % (kd, X.tolist(), f.tolist(), w, e)):
                            XX, ff = np.array(XX), np.ravel(ff)
                            if w not in ('lists', 'values + 1e6') and not feasible(R, np.asarray(u.H), XX, ff, Z(m), 0., '%s samples %s values %s %s' % (kd, X.tolist(), f.tolist(), w)): continue
                            R.check(np.abs(np.trace(u.H)/fac - t) <= sc*(1 + 0) + 1e-3*t, 'spelling', '%s samples %s values %s %s: trace %g, was %g' % (kd, X.tolist(), f.tolist(), w, np.trace(u.H)/fac, t))
        return
    if kind == 'grad':
        _, m, k, tier = payload
        for n, G in enumerate(grad_sets(m, deep)):
            if n % 4 != k: continue
            hist = {}
            for kd in ('const', 'diag', 'cvxopt'):
                hist[kd] = mk(kd, None); hist[kd].fit(X=np.vstack([np.zeros(m), np.eye(m)]), fX=np.arange(m + 1.)) if n % 2 else hist[kd].fit(grads=np.ones((1, m + 1))*np.arange(1., m + 2))
            fit_all(R, Z(m), np.zeros(0), G, None, ('cvxopt', 'diag', 'const'), 'gradients %s' % G.tolist(), hist)
            for s in (1e-3, 1e3, 1e-9, 1e9):
                fit_all(R, Z(m), np.zeros(0), s*G, None, ('cvxopt', 'diag', 'const'), 'gradients %s times %g' % (G.tolist(), s))
            o = mk('cvxopt'); st, e = R.attempt(lambda: o.fit(grads=G.tolist()))
            if R.check(st == 'ok', 'spelling', 'gradients %s as lists: %s' % (G.tolist(), e)): check_fit(R, 'cvxopt', o, Z(m), np.zeros(0), G, None, 'gradients %s as lists' % G.tolist())
            # orientation: increasing on average
            U = o.U; mu = G.mean(axis=0) @ U
            R.check(mu.min() >= -1e-7*(1 + np.abs(G).max()), 'sign', 'gradients %s: average slopes %s' % (G.tolist(), mu))
        o = mk('cvxopt')
        for bad in ({}, {'X': np.eye(m)}, {'X': np.eye(m), 'fX': np.zeros(m + 1)}, {'fX': np.zeros(3), 'grads': np.eye(m)}):
            st, e = R.attempt(lambda: o.fit(**bad)); R.check(st == 'raise', 'arguments', '%s accepted' % bad)
        return
    if kind == 'mixed':
        _, m, tier = payload
        G1 = list(grad_sets(m, deep)); D = list(data_sets(m, deep))
        st1, st2 = (1, 1) if m == 1 and deep else (3, 9) if m == 1 else (29, 5) if m == 2 else (2, 5)
        for n, ((X, f), G) in enumerate(itertools.product(D[::st2], G1[::st1])):
            fit_all(R, X, f, G, None, ('cvxopt', 'diag', 'const'), 'samples %s values %s gradients %s' % (X.tolist(), f.tolist(), G.tolist()))
            if n % 4 == 0 or deep: fit_all(R, X, f, G, .5, ('cvxopt', 'diag', 'const'), 'samples %s values %s gradients %s epsilon .5' % (X.tolist(), f.tolist(), G.tolist()))
            o = mk('cvxopt'); o.fit(X=X, fX=f, grads=G)
            st, v = R.attempt(lambda: (o.X, o.fX, o.grads))
            R.check(st == 'ok' and np.array_equal(v[0], X) and np.array_equal(np.ravel(v[1]), f) and np.array_equal(v[2], G), 'data', 'data kept by the fit: %s' % (v,))
        return
    if kind == 'meth':
        _, m, tier = payload
        D = list(data_sets(m, deep))[::(3 if m < 3 else 2) if deep else (12 if m < 3 else 5)]; G1 = list(grad_sets(m, deep))[::3 if deep else 9 if m == 2 else 2]
        for X, f in D:
            for eps in (None, .5):
                fit_all(R, X, f, Z(m), eps, ('cvxpy', 'param', 'diag-param', 'diag-cvxpy'), 'samples %s values %s epsilon %s' % (X.tolist(), f.tolist(), eps))
        for X, f in D[::2]:
            for sx, sf in ((1e6, 1.), (1e-6, 1.), (1., 1e9), (1., 1e-9)):
                fit_all(R, sx*X, sf*f, Z(m), None, ('cvxpy', 'param', 'diag-param', 'diag-cvxpy'), 'samples %s values %s times %g and %g' % (X.tolist(), f.tolist(), sx, sf))
        for G in G1: fit_all(R, Z(m), np.zeros(0), G, None, ('cvxpy', 'param', 'diag-param', 'diag-cvxpy'), 'gradients %s' % G.tolist())
        for (X, f), G in zip(D, G1): fit_all(R, X, f, G, None, ('cvxpy', 'param', 'diag-param', 'diag-cvxpy'), 'samples %s values %s gradients %s' % (X.tolist(), f.tolist(), G.tolist()))
        st, e = R.attempt(LipschitzMatrix, method='nothing'); R.check(st == 'raise', 'arguments', 'unknown method accepted')
        st, e = R.attempt(LipschitzMatrix, epsilon=-1.); R.check(st == 'raise', 'arguments', 'negative epsilon accepted')
        return
    if kind == 'part':
        _, m, k, tier = payload
        D = [(X, f, Z(m)) for X, f in list(data_sets(m, deep))[::7 if not deep else 2]] + [(Z(m), np.zeros(0), G) for G in list(grad_sets(m, deep))[::11 if m == 2 and not deep else 2]]
        D += [(X, f, G) for (X, f), G in zip(list(data_sets(m, deep))[::9], list(grad_sets(m, deep))[::4])]
        for n, (X, f, G) in enumerate(D):
            if n % 8 != k: continue
            for r, eps in itertools.product(range(1, m + 1), (0, .5) if len(X) else (0,)):
                if len(pairs(X, f, eps)) + len(G) == 0 and n % 3: continue
                full = smallest(X, f, G, eps, 'full')
                U0s = [None] + [np.eye(m)[:, :r]] + ([np.linalg.qr(np.array([[np.cos(1 + i + 2*j) for j in range(r)] for i in range(m)]))[0]] if deep else [])
                for U0 in U0s:
                    o = PartialLipschitzMatrix(r, epsilon=eps, verbose=False, U0=U0, maxiter=6)
                    msg = 'rank %d epsilon %s U0 %s samples %s values %s gradients %s' % (r, eps, None if U0 is None else U0.tolist(), X.tolist(), f.tolist(), G.tolist())
                    st, e = R.attempt(lambda: o.fit(**args(X, f, G)))
                    R.step()
                    if not R.check(st == 'ok', 'partial-raise', '%s: %s' % (msg, e)): continue
                    H, L, U, J, al = np.asarray(o.H), np.asarray(o.L), np.asarray(o.U), np.asarray(o.J), o.alpha
                    if not R.check(U.shape == (m, r) and J.shape == (r, r) and H.shape == (m, m), 'partial-shape', '%s: U %s' % (msg, U.shape)): continue
                    if not feasible(R, H, X, f, G, eps, msg, 'partial-', 1e-4): continue
                    sc = max([b/(p @ p) for p, b in pairs(X, f, eps)] + [g @ g for g in G] + [1e-4])
                    R.check(np.abs(U.T @ U - np.eye(r)).max() < 1e-7, 'partial-orthonormal', '%s: U = %s' % (msg, U.tolist()))
                    R.check(np.abs(H - U @ J @ U.T - al*(np.eye(m) - U @ U.T)).max() <= 1e-9*sc and np.abs(J - np.diag(np.diag(J))).max() < 1e-9*sc and np.all(np.diff(np.diag(J)) <= 1e-9*sc), 'partial-structure', '%s: J = %s' % (msg, J.tolist()))
                    R.check(np.all(np.isfinite(L)) and np.abs(L.T @ L - H).max() <= 1e-6*sc, 'partial-factor', "%s: L = %s H = %s" % (msg, L.tolist(), H.tolist()))
                    R.check(np.trace(H) >= full*(1 - 1e-3) - 1e-3*sc, 'partial-lower', '%s: trace %g below the smallest certificate %g' % (msg, np.trace(H), full))
                    if r == m: R.check(np.trace(H) <= full*(1 + 1e-3) + 2e-3*sc, 'partial-minimal', '%s: trace %g, smallest is %g' % (msg, np.trace(H), full))
                    if U0 is not None and r < m:
                        b = smallest(X, f, G, eps, 'part', U0)
                        R.check(b is None or np.trace(H) <= b*(1 + 1e-3) + 2e-3*sc, 'partial-initial', '%s: trace %g, with the initial subspace %s' % (msg, np.trace(H), b))
                    R.state((msg,))
                if r == m - 1 and len(G) >= m and np.linalg.matrix_rank(G) == m:
                    a = LipschitzMatrix(); a.fit(**args(X, f, G))
                    if eps: continue
                    o = PartialLipschitzMatrix(r, verbose=False, U0=a.U[:, :r], maxiter=3)
                    st, e = R.attempt(lambda: o.fit(**args(X, f, G)))
                    if R.check(st == 'ok', 'partial-raise', 'from the exact subspace: %s' % e): R.check(np.trace(o.H) <= full*(1 + 1e-3) + 2e-3*np.trace(a.H), 'partial-exact', 'samples %s gradients %s: %g vs %g' % (X.tolist(), G.tolist(), np.trace(o.H), full))
        return
    Ls = lambda m: [np.eye(m), np.diag(np.arange(1., m + 1)), np.outer(np.ones(m), np.arange(1., m + 1))/3, np.arange(1., m + 1).reshape(1, -1), np.array([[np.sin(1 + i + 3*j) for j in range(m)] for i in range(m)])]
    if kind == 'unc':
        _, m, tier = payload
        q = np.array(list(itertools.product({1: np.linspace(-2, 4, 13), 2: (-1, 0, .3, 1, 2.5), 3: (-.5, 0, 1)}[m], repeat=m)))
        for X, f in data_sets(m, deep):
            for li, L in enumerate(Ls(m)):
                for eps in (None, .25):
                    o = LipschitzMatrix(L=L, epsilon=eps)
                    D = np.array([[np.linalg.norm(L @ (x - y)) for y in X] for x in q])
                    lb, ub = (f - D).max(axis=1) - (eps or 0), (f + D).min(axis=1) + (eps or 0)
                    msg = 'samples %s values %s L %s epsilon %s' % (X.tolist(), f.tolist(), L.tolist(), eps)
                    st, v = R.attempt(o.uncertainty, X, f, q)
                    if R.check(st == 'ok', 'bounds-raise', '%s: %s' % (msg, v)):
                        R.close(v[0], lb, 'bounds', msg); R.close(v[1], ub, 'bounds', msg)
                    if li < 2:
                        st, v = R.attempt(o.uncertainty, X.tolist(), f.tolist(), q.tolist())
                        R.check(st == 'ok' and np.allclose(v[0], lb) and np.allclose(v[1], ub), 'bounds-spelling', '%s: %s' % (msg, v if st == 'raise' else ''))
                        st, v = R.attempt(o.uncertainty, X, f.reshape(-1, 1), q[0])
                        R.check(st == 'ok' and np.allclose(np.ravel(v[0]), lb[:1]) and np.allclose(np.ravel(v[1]), ub[:1]), 'bounds-spelling', '%s, one point: %s' % (msg, v if st == 'raise' else ''))
                    # residuals and gradients used by the search over a domain
                    if eps is None:
                        lo, up = LowerBound(L, X, f), UpperBound(L, X, f)
                        for x, d in zip(q[::3], D[::3]):
                            R.close(np.asarray(lo(x)).ravel(), f - d, 'lower-eval', msg); R.close(np.asarray(up(x)).ravel(), -(f + d), 'upper-eval', msg)
                            if d.min() > 1e-3:
                                g = np.array([-(L.T @ L @ (x - y))/np.linalg.norm(L @ (x - y)) for y in X])
                                R.close(lo.grad(x), g, 'lower-grad', msg); R.close(up.grad(x), g, 'upper-grad', msg)
                R.state((X.tobytes(), f.tobytes(), li)); R.step(2)
            # bounds of fitted certificates interpolate the data; both extremal functions are admissible
            for kd in ('cvxopt', 'diag', 'const') if len(X) > 1 else ():
                for eps in (None, .5):
                    o = mk(kd, eps); o.fit(X=X, fX=f)
                    sc = 1e-4*(np.ptp(f) + 1e-9)*10
                    st, v = R.attempt(o.uncertainty, X, f, X)
                    if R.check(st == 'ok', 'bounds-raise', '%s samples %s: %s' % (kd, X.tolist(), v)):
                        R.check(np.all(v[0] <= v[1] + sc), 'bounds-order', '%s samples %s values %s epsilon %s: %s %s' % (kd, X.tolist(), f.tolist(), eps, v[0], v[1]))
                        R.check(np.all(v[0] <= f + (eps or 0) + sc) and np.all(v[1] >= f - (eps or 0) - sc), 'bounds-contain', '%s samples %s values %s epsilon %s: %s %s' % (kd, X.tolist(), f.tolist(), eps, v[0], v[1]))
                        if not eps: R.close(v[0], f, 'bounds-interpolate', '%s values %s' % (kd, f), atol=sc); R.close(v[1], f, 'bounds-interpolate', '%s values %s' % (kd, f), atol=sc)
        return
    if kind == 'dom':
        k, tier = payload[1:]
        doms = [BoxDomain([-1], [1]), BoxDomain([0, 0], [1, 1]), psdr.LinIneqDomain(A=[[1, 1.]], b=[1.], lb=[0, 0], ub=[1, 1]), BoxDomain([-1, -1], [1, 1]).add_constraints(A_eq=[[1., 1.]], b_eq=[.5])]
        dom = doms[k//2]; eps = (None, .3)[k % 2]; m = len(dom)
        with tempfile.TemporaryDirectory() as tmp:
            n = 0
            for X, f in list(data_sets(m, deep))[::9 if m == 2 else 4]:
                for L in Ls(m)[:2] + Ls(m)[-1:]:
                    n += 1
                    o = LipschitzMatrix(L=L, epsilon=eps); msg = 'samples %s values %s L %s epsilon %s' % (X.tolist(), f.tolist(), L.tolist(), eps)
                    np.random.seed(0)
                    st, v = R.attempt(o.uncertainty_domain, X, f, dom, Nsamp=6)
                    R.step()
                    if not R.check(st == 'ok', 'domain-raise', '%s: %s' % (msg, v)): continue
                    # true extremes from below / above on a fine grid of the domain (the bounds are L-Lipschitz)
                    if m == 1: q = np.linspace(-1, 1, 401).reshape(-1, 1); h = .5/200
                    elif k//2 == 3: t = np.linspace(-.5, 1, 601); q = np.vstack([t, .5 - t]).T; h = np.sqrt(2)*1.5/1200
                    else:
                        a = np.linspace(0, 1, 81); q = np.array([(x, y) for x in a for y in a if k//2 == 1 or x + y <= 1 + 1e-12]); h = np.sqrt(2)/160*(1 if k//2 == 1 else 2)
                    D = np.array([[np.linalg.norm(L @ (x - y)) for y in X] for x in q]); e = eps or 0
                    lb, ub = (f - D).max(axis=1).min() - e, (f + D).min(axis=1).max() + e
                    s = h*np.linalg.norm(L, 2) + 1e-6
                    R.check(v[0] >= lb - s and v[1] <= ub + s, 'domain-attained', '%s: %s is wider than any point of the domain, %s' % (msg, v, (lb, ub)))
                    if m == 1 or k//2 == 3: R.check(v[0] <= lb + s and v[1] >= ub - s, 'domain-extreme', '%s: %s does not contain the bounds %s at points of the domain' % (msg, v, (lb, ub)))
                    st, w = R.attempt(lambda: (np.random.seed(0), o.uncertainty_domain(X.tolist(), f.tolist(), dom, Nsamp=6))[1]) if n % 5 == 0 else ('skip', None)
                    if st != 'skip': R.check(st == 'ok' and np.allclose(v, w), 'domain-spelling', '%s: %s' % (msg, w))
                    if n % 4 == 0 and m == 2 and k//2 < 3:
                        fn = os.path.join(tmp, 'u.dat'); np.random.seed(0)
                        u = np.array([.6, .8]); ax = plt.figure().gca() if n % 8 else None
                        st, w = R.attempt(o.shadow_uncertainty, dom, X, f, ax=ax, ngrid=4, U=u, pgfname=fn, Nsamp=5); plt.close('all')
                        if R.check(st == 'ok', 'shadow-raise', '%s: %s' % (msg, w)):
                            T = np.genfromtxt(fn, skip_header=1); y = q @ u
                            R.check(T.shape == (4, 3) and abs(T[0, 0] - y.min()) < 1e-6 and abs(T[-1, 0] - y.max()) < 1e-6, 'shadow-range', '%s: %s' % (msg, T.tolist()))
                            lq, uq = (f - D).max(axis=1) - e, (f + D).min(axis=1) + e
                            for row in T:
                                I = np.abs(y - row[0]) <= h
                                if I.any(): R.check(row[1] >= lq[I].min() - 3*s and row[2] <= uq[I].max() + 3*s, 'shadow-bounds', '%s at %g: %s, %s' % (msg, row[0], row[1:], (lq[I].min(), uq[I].max())))
                    R.state((msg,))
        return
    if kind == 'comp':
        k, tier = payload[1:]
        for m in (1, 2):
            D = list(data_sets(m, deep)); D = D[::3] if m == 2 and not deep else D
            for n, ((X, f), L, norm) in enumerate(itertools.product(D, Ls(m), (1, 2, np.inf))):
                if n % 8 != k: continue
                if len(X) < 2: continue
                B = np.array([[np.linalg.norm(L @ (x - y)) for y in X] for x in X])
                msg = 'samples %s values %s L %s norm %s' % (X.tolist(), f.tolist(), L.tolist(), norm)
                st, y = R.attempt(lipschitz_approximation_compatible_data, L, X, f, norm=norm)
                R.step()
                if not R.check(st == 'ok' and np.shape(y) == f.shape, 'compatible-raise', '%s: %s' % (msg, y)): continue
                R.check((np.abs(y[:, None] - y) - B).max() <= 1e-5, 'compatible-feasible', '%s: %s' % (msg, y))
                ok = (np.abs(f[:, None] - f) - B).max() <= 1e-9
                if ok: R.check(np.abs(y - f).max() <= 1e-5, 'compatible-unchanged', '%s: %s' % (msg, y))
                # smallest change: linear programme for 1 and infinity
                N = len(f)
                if norm == np.inf:
                    want = max([0] + [(abs(f[i] - f[j]) - B[i, j])/2 for i in range(N) for j in range(N)])
                    R.check(np.abs(y - f).max() <= want + 1e-5, 'compatible-optimal', '%s: moved by %g, %g suffices' % (msg, np.abs(y - f).max(), want))
                elif norm == 1:
                    A, b = [], []
                    for i, j in itertools.permutations(range(N), 2):
                        r = np.zeros(2*N); r[i] = 1; r[j] = -1; A.append(r); b.append(B[i, j])
                    for i in range(N):
                        for s in (1, -1): r = np.zeros(2*N); r[i] = s; r[N + i] = -1; A.append(r); b.append(s*f[i])
                    lp = linprog(np.hstack([np.zeros(N), np.ones(N)]), A_ub=np.array(A), b_ub=b, bounds=[(None, None)]*N + [(0, None)]*N, method='highs')
                    R.check(np.abs(y - f).sum() <= lp.fun + 1e-4, 'compatible-optimal', '%s: moved by %g, %g suffices' % (msg, np.abs(y - f).sum(), lp.fun))
                else:
                    # projection onto a convex set: variational inequality against all feasible corners from the other norms
                    for nn in (1, np.inf):
                        st, z = R.attempt(lipschitz_approximation_compatible_data, L, X, f, norm=nn)
                        if st == 'ok': R.check((f - y) @ (z - y) <= 1e-4*(1 + np.ptp(f))**2, 'compatible-optimal', '%s: %s is not the projection, see %s' % (msg, y, z))
                if len(X) > 2 and n % 3: R.state((msg,)); continue
                for sx, sf, off in ((1., 1e-6, 0.), (1., 1e9, 0.), (1e6, 1., 0.), (1., 1., 1e6), (1e-6, 1e-6, 3e3), (1e6, 1e-6, 0.)):
                    st, v = R.attempt(lipschitz_approximation_compatible_data, L*(sf/sx), X*sx, f*sf + off, norm=norm)
                    R.step()
                    if not R.check(st == 'ok' and np.shape(v) == f.shape, 'compatible-units', '%s times %g, values times %g plus %g: %s' % (msg, sx, sf, off, v)): continue
                    z = (np.asarray(v) - off)/sf
                    R.check((np.abs(z[:, None] - z) - B).max() <= 1e-5, 'compatible-units', '%s times %g, values times %g plus %g: %s is not compatible' % (msg, sx, sf, off, z))
                    R.check(np.linalg.norm(z - f, norm) <= np.linalg.norm(y - f, norm) + 1e-4*(1 + np.ptp(f)), 'compatible-units', '%s times %g, values times %g plus %g: moved by %g, %g suffices' % (msg, sx, sf, off, np.linalg.norm(z - f, norm), np.linalg.norm(y - f, norm)))
                R.state((msg,))
        return
    if kind == 'app':
        k, tier = payload[1:]
        with tempfile.TemporaryDirectory() as tmp:
            for m in (1, 2):
                dom = BoxDomain([-1]*m, [4]*m); q = np.array(list(itertools.product(np.linspace(-1, 4, 7), repeat=m)))
                for n, ((X, f), L) in enumerate(itertools.product(list(data_sets(m, deep))[::5], Ls(m))):
                    if n % 4 != k or len(X) < 2: continue
                    o = LipschitzApproximation(L, dom); msg = 'samples %s values %s L %s' % (X.tolist(), f.tolist(), L.tolist())
                    st, e = R.attempt(o.fit, X, f)
                    if not R.check(st == 'ok', 'approx-raise', '%s: %s' % (msg, e)): continue
                    y = o(q); B = np.array([[np.linalg.norm(L @ (a - b)) for b in q] for a in q])
                    if not R.check(np.shape(y) == (len(q),), 'approx-shape', '%s: %s' % (msg, np.shape(y))): continue
                    R.check((np.abs(y[:, None] - y) - B).max() <= 1e-5, 'approx-lipschitz', '%s: %s' % (msg, y))
                    B0 = np.array([[np.linalg.norm(L @ (a - b)) for b in X] for a in X])
                    if (np.abs(f[:, None] - f) - B0).max() <= 1e-9: R.close(o(X), f, 'approx-interpolates', msg, atol=1e-5)
                    R.check(np.abs(o(X) - f).max() <= o.epsilon + 1e-5, 'approx-epsilon', '%s: misfit %s, epsilon %s' % (msg, np.abs(o(X) - f), o.epsilon))
                    R.check(np.shape(o(q[0])) in ((), (1,)) and abs(float(np.ravel(o(q[0]))[0]) - y[0]) < 1e-9, 'approx-one', msg)
                    lb, ub = o.uncertainty(o.X, o.fX, o.X)
                    R.check(np.array_equal(np.asarray(o.X), X) and np.array_equal(np.ravel(o.fX), f), 'approx-data', msg)
                    U = o.U; r = np.linalg.matrix_rank(L)
                    R.check(np.allclose(U.T @ U, np.eye(U.shape[1])) and np.abs(L @ (np.eye(m) - U[:, :r] @ U[:, :r].T)).max() < 1e-9, 'approx-subspace', '%s: U = %s' % (msg, U.tolist()))
                    st, e = R.attempt(lambda: LipschitzApproximation(L, BoxDomain([9]*m, [10]*m)).fit(X, f)); R.check(st == 'raise', 'approx-outside', '%s accepted outside of the domain' % msg)
                    if L.shape[0] == 1:
                        ax = plt.figure().gca() if n % 2 else None; fn = os.path.join(tmp, 'a')
                        st, e = R.attempt(o.shadow_plot, ax=ax, pgfname=fn, nsamp=20); plt.close('all')
                        if R.check(st == 'ok', 'approx-plot', '%s: %s' % (msg, e)):
                            T = np.genfromtxt(fn + '_curves.dat', skip_header=1, names=None); P = np.genfromtxt(fn + '_points.dat', skip_header=1)
                            u = U[:, :1]
                            R.check(T.shape == (20, 4) and np.all(T[:, 1] <= T[:, 2] + 1e-9) and np.all(T[:, 2] <= T[:, 3] + 1e-9), 'approx-plot', '%s: %s' % (msg, T.tolist()))
                            R.close(T[:, 2], (T[:, 1] + T[:, 3])/2, 'approx-plot', msg, atol=1e-6); R.close(P, np.hstack([X @ u, f[:, None]]), 'approx-plot', msg, atol=1e-6)
                    R.state((msg,)); R.step()
        return
    if kind == 'util':
        _, m, tier = payload
        Hs = [np.zeros((m, m)), np.eye(m), np.diag(np.arange(m) + .5), np.outer(np.arange(1, m + 1), np.arange(1, m + 1))*.3]
        for X, f in data_sets(m, deep):
            if len(X) < 2 or len(np.unique(X, axis=0)) < len(X): continue
            for H in Hs:
                I, J = np.triu_indices(len(X), k=1); p = X[I] - X[J]
                want = (np.einsum('ij,jk,ik->i', p, H, p) - (f[I] - f[J])**2)/(p**2).sum(axis=1)
                st, d = R.attempt(dist_eval_constraints, H, X, f)
                if R.check(st == 'ok', 'utils-raise', '%s' % d): R.close(d, want, 'utils-dist', 'H %s samples %s values %s' % (H.tolist(), X.tolist(), f.tolist()))
                h = H.copy(); st, P = R.attempt(project_evals, H, X, f)
                if R.check(st == 'ok', 'utils-raise', '%s' % P):
                    R.check(np.array_equal(h, H), 'mutates', 'project_evals')
                    feasible(R, np.asarray(P), X, f, Z(m), 0., 'projecting %s onto samples %s values %s' % (H.tolist(), X.tolist(), f.tolist()), 'utils-')
                    R.check(np.linalg.eigvalsh(P - H)[0] >= -1e-9, 'utils-grow', 'projection of %s is %s' % (H.tolist(), P.tolist()))
                    if want.min() >= 0: R.close(P, H, 'utils-fixed', 'feasible matrix changed')
                R.state((X.tobytes(), f.tobytes(), H.tobytes())); R.step()
        for G in grad_sets(m, deep):
            G = G[np.linalg.norm(G, axis=1) > 0]
            if len(G) == 0: continue
            for H in Hs:
                if True:
                    want = np.array([np.linalg.eigvalsh(H - np.outer(g, g))[0] for g in G])
                    st, d = R.attempt(dist_grad_constraints, H, G)
                    if R.check(st == 'ok', 'utils-raise', 'H %s gradients %s: %s' % (H.tolist(), G.tolist(), d)): R.close(d, want, 'utils-grad-dist', 'H %s gradients %s' % (H.tolist(), G.tolist()), atol=1e-6)
                    h = H.copy(); st, P = R.attempt(project_grads, H, G)
                    if R.check(st == 'ok', 'utils-raise', 'H %s gradients %s: %s' % (H.tolist(), G.tolist(), P)):
                        R.check(np.array_equal(h, H), 'mutates', 'project_grads')
                        feasible(R, np.asarray(P), Z(m), np.zeros(0), G, 0., 'projecting %s onto gradients %s' % (H.tolist(), G.tolist()), 'utils-')
                        R.check(np.linalg.eigvalsh(P - H)[0] >= -1e-9*(1 + np.abs(P).max()), 'utils-grow', 'projection of %s is %s' % (H.tolist(), P.tolist()))
                R.state((G.tobytes(), H.tobytes())); R.step()
