"""A01: active subspaces and the plots drawn from a subspace"""
import itertools, os, tempfile
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from scipy.optimize import linprog
import psdr
from psdr import ActiveSubspace

PID = 'A01'
BOUND = """Alphabet: every gradient matrix with entries in {-1,0,1} up to 3x3 and {-2,..,2} up to 2x2 (19683 + ...), plus long, scaled,
 rank deficient and opposite-sign families up to dimension 5; weights {none, uniform, all tuples over {.1,1,3} or with zeros};
 spelling {array, integers, lists}; histories of two fits on one object.  fit_function on polynomial functions over boxes and
 products.  Shadow plots and envelopes: dimension {1,2} x axis {auto, none, given} x subspace {own, vector, matrix} x spelling x
 file.  Oracle: the weighted outer product computed directly, its eigenvalues, projections recomputed."""
ASSUMPTIONS = ['shadow_envelope is documented to be accurate to 3 digits: bounds hold up to 2e-2 of the data range; samples that leave the linear programme of some automatic grid unbounded (clustered projections) are outside the claim']


def check_as(R, G, w, msg, a=None):
    G = np.asarray(G, dtype=float); N, m = G.shape
    W = np.ones(N)/N if w is None else np.asarray(w, dtype=float)
    C = (G.T*W) @ G
    sc = np.abs(C).max() + 1e-300
    U, s = a.U, np.asarray(a.singvals)
    if not R.check(np.shape(U) == (m, m) and np.shape(s) == (m,) and np.all(np.isfinite(U)) and np.all(np.isfinite(s)), 'shape', '%s: U %s s %s' % (msg, U, s)): return
    R.check(len(a) == m, 'len', msg)
    R.check(np.abs(U.T @ U - np.eye(m)).max() < 1e-10, 'orthonormal', '%s: U = %s' % (msg, U.tolist()))
    R.check(np.all(s >= 0) and np.all(np.diff(s) <= 1e-12*(1 + s[0])), 'order', '%s: %s' % (msg, s))
    R.check(np.abs(a.C - C).max() <= 1e-9*sc, 'C', '%s: %s is not %s' % (msg, np.asarray(a.C).tolist(), C.tolist()))
    R.check(np.abs((U*s**2) @ U.T - C).max() <= 1e-9*sc, 'decomposition', '%s: U diag(s^2) U^T = %s, not %s' % (msg, ((U*s**2) @ U.T).tolist(), C.tolist()))
    R.check(np.abs(np.sort(s**2) - np.sort(np.linalg.eigvalsh(C))).max() <= 1e-9*sc, 'eigenvalues', '%s: %s' % (msg, s))
    mu = G.mean(axis=0) @ U
    R.check(mu.min() >= -1e-9*(1 + np.abs(G).max()), 'sign', '%s: average slope %s' % (msg, mu))


def cases(tier):
    out = []
    for m in (1, 2, 3):
        for N in (1, 2, 3):
            vals = (-2, -1, 0, 1, 2) if m*N <= 4 else (-1, 0, 1)
            if m*N == 9:
                for v in itertools.product(vals, repeat=3): out.append(('all/3/3/%d%d%d' % v, ('all', 3, 3, vals, v, tier)))
            else: out.append(('all/%d/%d' % (m, N), ('all', m, N, vals, (), tier)))
    for m in (1, 2, 3, 4, 5): out.append(('family/%d' % m, ('family', m, tier)))
    out.append(('fit-function', ('fun', tier)))
    for dim in (1, 2): out.append(('shadow/%d' % dim, ('shadow', dim, tier)))
    for k in range(4): out.append(('envelope/%d' % k, ('env', k, tier)))
    return out


def bounded(y):
    """does every automatic grid leave the envelope determined (linear programme bounded)"""
    for n in range(3, 26):
        g = np.linspace(y.min(), y.max(), n)
        H = np.maximum(0, 1 - np.abs(y[:, None] - g)/(g[1] - g[0]))
        if linprog(np.ones(n), A_ub=-H, b_ub=np.zeros(len(y)), bounds=[(-1, 1)]*n, method='highs').fun < -1e-9: return False
    return True


def run(payload, R):
    kind = payload[0]; deep = payload[-1] == 'thorough'
    if kind == 'all':
        _, m, N, vals, pre, tier = payload
        wl = [None]
        if m*N <= 4: wl += [np.array(w) for w in itertools.product((.1, 1., 3.), repeat=N)] + [np.eye(N)[0]]
        elif m*N <= 6: wl += [np.array([.1, 1., 3., .5][:N]), np.array([0., 2., 1.][:N])]
        for rest in itertools.product(vals, repeat=m*N - len(pre)):
            G = np.array(pre + rest, dtype=float).reshape(N, m)
            for w in wl:
                a = ActiveSubspace(); g = G.copy(); ww = None if w is None else w.copy()
                st, o = R.attempt(a.fit, g, ww)
                msg = 'gradients %s weights %s' % (G.tolist(), None if w is None else w.tolist())
                if not R.check(st == 'ok', 'raise', '%s: %s' % (msg, o)): continue
                R.check(np.array_equal(g, G) and (w is None or np.array_equal(w, ww)), 'mutates', msg)
                check_as(R, G, w, msg, a)
            R.state((m, N, pre + rest))
        return
    if kind == 'family':
        _, m, tier = payload
        fam = {}
        for N in (1, 2, m, m + 1, 7, 20):
            base = np.array([[np.sin(1 + 3*i + 5*j*j) for j in range(m)] for i in range(N)])
            fam['full%d' % N] = base; fam['scaled%d' % N] = base*10.**(np.arange(m) - 2)
            fam['rank1-%d' % N] = np.outer(np.cos(np.arange(N)), np.arange(1, m + 1))
            fam['zero%d' % N] = np.zeros((N, m)); fam['small%d' % N] = 1e-8*base; fam['big%d' % N] = 1e7*base
            fam['opposite%d' % N] = np.vstack([base, -base]); fam['axis%d' % N] = np.tile(np.eye(m)[-1]*(-1), (N, 1))
        prev = None
        for k, G in fam.items():
            N = len(G)
            for wn, w in (('none', None), ('uniform', np.full(N, 1./N)), ('ramp', np.arange(1., N + 1)), ('sparse', np.where(np.arange(N) % 3 == 0, 1., 0.)), ('volume', np.full(N, 8./N))):
                msg = '%s weights %s' % (k, wn)
                a = ActiveSubspace()
                st, o = R.attempt(a.fit, G, w)
                if not R.check(st == 'ok', 'raise', '%s: %s' % (msg, o)): continue
                check_as(R, G, w, msg, a)
                U0 = a.U; U1 = a.U; U1[:] = 7.
                R.check(np.array_equal(a.U, U0), 'alias', '%s: U handed out is the internal array' % msg)
                b = ActiveSubspace(); b.fit(G.tolist(), None if w is None else w.tolist())
                R.close(b.U, U0, 'spelling', msg); R.close(b.C, a.C, 'spelling', msg)
                # sign of all gradients only flips columns; order of samples is irrelevant
                b = ActiveSubspace(); b.fit(-G, w); R.close(b.C, a.C, 'negated', msg, atol=1e-12*(1e-300 + np.abs(a.C).max())); R.close(b.singvals, a.singvals, 'negated', msg, atol=1e-9*(1e-300 + a.singvals[0]))
                P = np.arange(N)[::-1]
                b = ActiveSubspace(); b.fit(G[P], None if w is None else w[P]); R.close(b.C, a.C, 'order', msg, atol=1e-10*(1e-300 + np.abs(a.C).max()))
                # refit of a used object
                if prev is not None:
                    st, o = R.attempt(prev.fit, G, w)
                    if R.check(st == 'ok', 'refit', '%s: %s' % (msg, o)): R.check(np.array_equal(prev.U, a.U) and np.array_equal(prev.singvals, a.singvals) and np.array_equal(prev.C, a.C) and len(prev) == len(a), 'refit', '%s: refit differs from a fresh fit' % msg)
                prev = ActiveSubspace(); prev.fit(np.ones((2, 3)))
                R.state((k, wn)); R.step(5)
        return
    if kind == 'fun':
        # exact integrals of polynomial gradients: C[i,j] = int g_i g_j
        from numpy.polynomial.legendre import leggauss
        for lb, ub in (([-1., -1], [1., 1]), ([0., 2], [1., 5]), ([-2.], [3.]), ([0., 0, 0], [1., 2, 1])):
            lb, ub = np.array(lb), np.array(ub); m = len(lb)
            funs = {'affine': (lambda x: x.sum(), lambda x: np.ones(m)), 'quad': (lambda x: (x**2).sum() + x[0], lambda x: 2*x + np.eye(m)[0]),
                    'prod': (lambda x: x[0]*x[-1]**2, lambda x: (np.array([x[0]*3*x[0]]) if m == 1 else np.hstack([[x[-1]**2], np.zeros(m - 2), [2*x[0]*x[-1]]])))}
            x1, w1 = leggauss(6)
            nodes = np.array(list(itertools.product(x1, repeat=m))); ww = np.array([np.prod(v) for v in itertools.product(w1, repeat=m)])*np.prod((ub - lb)/2)
            for fn, (f, g) in funs.items():
                for mk in ('box', 'tensor'):
                    dom = psdr.BoxDomain(lb, ub) if mk == 'box' or m == 1 else psdr.TensorProductDomain([psdr.BoxDomain(lb[i:i+1], ub[i:i+1]) for i in range(m)])
                    fun = psdr.Function(f, dom, grads=g, return_grad=False)
                    for Ng in (4**m, 5**m + 2):
                        a = ActiveSubspace()
                        st, o = R.attempt(a.fit_function, fun, Ng)
                        msg = '%s on %s %s %s, %d gradients' % (fn, mk, lb, ub, Ng)
                        if not R.check(st == 'ok', 'fun-raise', '%s: %s' % (msg, o)): continue
                        # gradients with respect to normalized coordinates
                        D = (ub - lb)/2
                        X = (lb + ub)/2 + nodes*D
                        Gn = np.array([g(x) for x in X])*D
                        Ga = np.array([g(x) for x in X])
                        C1, C2 = (Gn.T*ww) @ Gn, (Ga.T*ww) @ Ga
                        sc = np.abs(a.C).max()/max(1e-300, np.abs(C1).max())
                        V = np.prod(ub - lb); V1 = 2.**m
                        ok = any(np.allclose(a.C, c*k, rtol=1e-8, atol=1e-10) for c in (C1, C2) for k in (1., V1/V))
                        R.check(ok, 'fun-C', '%s: %s, integral is %s (normalized) or %s' % (msg, a.C.tolist(), C1.tolist(), C2.tolist()))
                        R.check(np.abs(a.U.T @ a.U - np.eye(m)).max() < 1e-10, 'orthonormal', msg)
                        R.state((msg,)); R.step()
        return
    if kind == 'shadow':
        _, dim, tier = payload
        from mc.core import REPO
        with tempfile.TemporaryDirectory() as tmp:
            for m in (2, 3):
                G = np.array([[1., .5, -.3][:m], [.2, -1., .4][:m], [3., .1, .1][:m]]); a = ActiveSubspace(); a.fit(G)
                X = np.array(list(itertools.product([-1., 0, .5], repeat=m))); fX = X.sum(axis=1)**2
                own = a.U
                Us = [('own', None, own), ('matrix', np.eye(m), np.eye(m)), ('swap', np.eye(m)[:, ::-1].copy(), np.eye(m)[:, ::-1])]
                if dim == 1: Us.append(('vector', np.ones(m), np.ones((m, 1))))
                for (un, U, Ue), ax, pgf, sp in itertools.product(Us, ('auto', None, 'given'), (False, True), ('array', 'list', 'column')):
                    f = os.path.join(tmp, 's.dat') if pgf else None
                    if pgf and os.path.exists(f): os.remove(f)
                    given = plt.figure().gca() if ax == 'given' else ax
                    XX, ff = (X, fX) if sp == 'array' else (X.tolist(), fX.tolist()) if sp == 'list' else (X, fX.reshape(-1, 1))
                    if sp == 'column' and dim == 1 and pgf: continue
                    st, o = R.attempt(a.shadow_plot, XX, ff, dim=dim, U=U, ax=given, pgfname=f)
                    msg = 'shadow m=%d dim=%d U=%s ax=%s file=%s %s' % (m, dim, un, ax, pgf, sp)
                    if R.check(st == 'ok', 'shadow-raise', '%s: %s' % (msg, o)):
                        R.check((o is None) == (ax is None) and (ax != 'given' or o is given), 'shadow-axis', '%s: %s' % (msg, o))
                        Y = X @ Ue
                        if ax is not None and o is not None:
                            if dim == 1:
                                ln = o.lines[0]
                                R.close(np.asarray(ln.get_xdata()), Y[:, 0], 'shadow-x', msg); R.close(np.ravel(ln.get_ydata()), fX, 'shadow-y', msg)
                            else:
                                sc = o.collections[0]
                                R.close(np.asarray(sc.get_offsets()), Y[:, :2], 'shadow-x', msg); R.close(np.ravel(sc.get_array()), fX, 'shadow-c', msg)
                        if pgf and R.check(os.path.exists(f), 'shadow-file', msg):
                            T = np.genfromtxt(f, skip_header=1)
                            R.close(T, np.hstack([Y[:, :dim], fX[:, None]]), 'shadow-file', msg, atol=1e-9)
                    plt.close('all'); R.state((msg,)); R.step()
                st, o = R.attempt(a.shadow_plot, X, fX, dim=3, ax=None); R.check(st == 'raise', 'shadow-dim', 'dimension 3 accepted')
                st, o = R.attempt(a.shadow_plot, X[:, :-1], fX, dim=dim, ax=None); R.check(st == 'raise', 'shadow-dim', 'wrong dimension of samples accepted')
        return
    if kind == 'env':
        k = payload[1]
        fs = [lambda X: X.sum(axis=1)**2, lambda X: np.sin(3*X[:, 0]) + X[:, -1], lambda X: 5*X[:, 0] + 3, lambda X: np.abs(X[:, 0]) - X[:, 1]]
        with tempfile.TemporaryDirectory() as tmp:
            f = os.path.join(tmp, 'e.dat')
            for m in (2, 3):
                X = np.array(list(itertools.product(np.linspace(-1, 1, 9 if m == 2 else 5), repeat=m))) + .01*np.array([[np.sin(3*i + j) for j in range(m)] for i in range(9**2 if m == 2 else 5**3)])
                fX = fs[k](X); a = ActiveSubspace(); a.fit(np.array([[1., .5, .25][:m], [0., 1., 0][:m]]))
                for ngrid in (None, 2, 3, 4) + ((7,) if m == 2 else ()):
                    for U in (None, np.eye(m)[:, 0], np.eye(m)):
                        for ax in (None, 'given'):
                            for sp in (0, 1):
                                if os.path.exists(f): os.remove(f)
                                g = plt.figure().gca() if ax else None
                                XX, ff = (X, fX) if sp == 0 else (X.tolist(), fX.reshape(-1, 1))
                                st, o = R.attempt(a.shadow_envelope, XX, ff, ax=g, ngrid=ngrid, pgfname=f, verbose=False, U=U)
                                plt.close('all')
                                msg = 'envelope m=%d function %d ngrid=%s U=%s' % (m, k, ngrid, None if U is None else U.tolist())
                                if st == 'raise' and ngrid is None and not bounded(X @ (a.U[:, 0] if U is None else np.eye(m)[:, 0])): continue
                                if not R.check(st == 'ok' and len(o) == 3, 'env-raise', '%s: %s' % (msg, o)): continue
                                T = np.genfromtxt(f, skip_header=1); yy, lb, ub = T.T
                                u = a.U[:, 0] if U is None else np.eye(m)[:, 0]
                                y = X @ u
                                R.check(ngrid is None or len(yy) == ngrid, 'env-grid', msg)
                                R.close([yy[0], yy[-1]], [y.min(), y.max()], 'env-range', msg, atol=1e-8)
                                R.close(lb, o[1], 'env-lb', msg, atol=1e-8); R.close(ub, o[2], 'env-ub', msg, atol=1e-8)
                                tol = 2e-2*np.ptp(fX)
                                R.check((np.interp(y, yy, lb) - fX).max() <= tol, 'env-lower', '%s: lower envelope above data by %g' % (msg, (np.interp(y, yy, lb) - fX).max()))
                                R.check((fX - np.interp(y, yy, ub)).max() <= tol, 'env-upper', '%s: upper envelope below data by %g' % (msg, (fX - np.interp(y, yy, ub)).max()))
                                R.state((msg, ax, sp)); R.step()
