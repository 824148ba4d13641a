"""P02: polynomial functions and approximations"""
import itertools
import numpy as np
from scipy.optimize import linprog
import psdr

PID = 'P02'
BOUND = """Alphabet: 6 bases x dimension 1..2 (3) x degree 0..3 x norm {1,2,inf} x bound {none,lower,upper}; data sets of 2..6
 points (lattices, scattered, shifted and scaled, integers, duplicated abscissae, fewer points than coefficients), values: every
 monomial and combinations of monomials of the degree (exactness), every vector of {-1,0,1}^M on M<=4 (5) points and scaled (1e-9..1e9) or
 offset copies (minimality).  Queries on a lattice inside and outside the data, batch/single/list.  Refits of the same
 object with other data, dimension and size.  Oracle: 1- and inf-norm optima from the LP in the monomial basis (HiGHS);
 bounded 2-norm optima by enumerating all active sets and checking KKT; derivatives by multiplying out."""
ASSUMPTIONS = ['optimal values produced through the conic solver are compared to 1e-5 of the data scale']
CASE_CPU_LIMIT = 100.

BASES = ['arnoldi', 'legendre', 'monomial', 'chebyshev', 'laguerre', 'hermite']


def idxs(m, d):
    return [a for a in itertools.product(range(d + 1), repeat=m) if sum(a) <= d]


def mono(X, idx, x0, w):
    U = (np.asarray(X, dtype=float) - x0)/w
    return np.array([np.prod(U**np.array(a), axis=1) for a in idx]).T


def dmono(X, idx, x0, w):
    U = (np.asarray(X, dtype=float) - x0)/w
    m = U.shape[1]
    D = np.zeros((len(U), len(idx), m)); H = np.zeros((len(U), len(idx), m, m))
    for j, a in enumerate(idx):
        for k in range(m):
            b = list(a)
            if b[k] == 0: continue
            c = b[k]; b[k] -= 1
            D[:, j, k] = c/w[k]*np.prod(U**np.array(b), axis=1)
            for l in range(m):
                e = list(b)
                if e[l] == 0: continue
                f = e[l]; e[l] -= 1
                H[:, j, k, l] = c*f/w[k]/w[l]*np.prod(U**np.array(e), axis=1)
    return D, H


def points(m, deep):
    out = []
    if m == 1:
        out.append(('l3', np.array([[-1.], [0.], [1.]])))
        out.append(('l4', np.array([[-1.], [-.25], [.5], [2.]])))
        out.append(('l5s', np.array([[10.], [11.], [13.], [14.], [20.]])))
        out.append(('l6tiny', 5 + 1e-3*np.array([[0.], [1.], [2.], [3.5], [5.], [4.]])))
        out.append(('int', np.array([[3], [0], [1], [7]])))
        out.append(('dup', np.array([[0.], [1.], [1.], [2.], [2.]])))
        out.append(('two', np.array([[0.], [1.]])))
    elif m == 2:
        out.append(('g9', np.array(list(itertools.product([-1., 0., 1.], repeat=2)))))
        out.append(('g12s', np.array(list(itertools.product([0., 1., 3.], [10., 20., 40., 50.])))))
        out.append(('s10', np.array([(0, 0), (1, 0), (0, 1), (1, 1), (2, .5), (.5, 2), (-1, .3), (.3, -1), (1.7, 2.2), (-.6, -.8)])))
        out.append(('four', np.array([(0, 0), (1, 0), (0, 1), (1., 1)])))
    else:
        out.append(('g27', np.array(list(itertools.product([-1., 0., 2.], repeat=3)))))
    return out


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for b in BASES:
        for m in (1, 2, 3):
            for lab, X in points(m, deep):
                out.append(('exact/%s/%s%d' % (b, lab, m), ('exact', b, m, lab, tier)))
    for b in BASES if deep else ['legendre', 'arnoldi', 'hermite', 'monomial']:
        for lab in ('l3', 'l4', 'l5s', 'dup', 'int', 'two') if b == 'legendre' or deep else ('l4',):
            for norm in (1, 2, 'inf'):
                for bound in (None, 'lower', 'upper'):
                    out.append(('min/%s/%s1/%s-%s' % (b, lab, norm, bound), ('min', b, 1, lab, norm, bound, tier)))
        for norm in (1, 2, 'inf'):
            for bound in (None, 'lower', 'upper'):
                out.append(('min/%s/four2/%s-%s' % (b, norm, bound), ('min', b, 2, 'four', norm, bound, tier)))
    for b in BASES:
        out.append(('refit/%s' % b, ('refit', b, tier)))
        if b != 'arnoldi': out.append(('func/%s' % b, ('func', b, tier)))
    return out


def best(V, f, norm, bound):
    """optimal norm of the residual V c - f"""
    M, N = V.shape
    s = {None: 0, 'lower': 1, 'upper': -1}[bound]
    if norm in (1, 'inf', np.inf):
        if norm == 1:
            c = np.hstack([np.zeros(N), np.ones(M)]); I = np.eye(M)
        else:
            c = np.hstack([np.zeros(N), [1.]]); I = np.ones((M, 1))
        A = [np.hstack([V, -I]), np.hstack([-V, -I])]; b = [f, -f]
        if s: A.append(np.hstack([s*V, 0*I])); b.append(s*f)
        r = linprog(c, A_ub=np.vstack(A), b_ub=np.hstack(b), bounds=[(None, None)]*len(c))
        assert r.status == 0
        return r.fun
    if not s:
        return np.linalg.norm(V @ np.linalg.lstsq(V, f, rcond=1e-12)[0] - f)
    # min ||r|| with s*(V c - f) <= 0: smallest feasible point of the face problems
    bst = np.inf
    for k in range(M + 1):
        for act in itertools.combinations(range(M), k):
            act = list(act)
            # least squares with r[act] = 0
            if act:
                c0 = np.linalg.lstsq(V[act], f[act], rcond=1e-10)[0]
                if np.linalg.norm(V[act] @ c0 - f[act]) > 1e-9*(1 + np.abs(f).max()): continue
                u, sv, vt = np.linalg.svd(V[act]); Z = vt[int(np.sum(sv > 1e-10)):].T
            else: c0 = np.zeros(N); Z = np.eye(N)
            c = c0 + Z @ np.linalg.lstsq(V @ Z, f - V @ c0, rcond=1e-10)[0] if Z.shape[1] else c0
            r = V @ c - f
            if np.all(s*r <= 1e-9*(1 + np.abs(f).max())): bst = min(bst, np.linalg.norm(r))
    return bst


def nrm(r, norm):
    return np.linalg.norm(r, np.inf if norm == 'inf' else norm)


def run(payload, R):
    kind, bname = payload[:2]
    if kind == 'func':
        cls = getattr(psdr, bname.capitalize() + 'TensorBasis')
        for m in (1, 2, 3):
            for d in range(0, 4):
                for X0 in (None, np.array([np.arange(m)*2. + 1., np.arange(m)*3. + 4.])):
                    B = cls(d, dim=m) if X0 is None else cls(d, X=X0)
                    N = len(B)
                    Q = np.array(list(itertools.product([-.5, .25, 2.], repeat=m)))
                    V, DV, DDV = B.V(Q), B.DV(Q), B.DDV(Q)
                    for c in [np.eye(N)[j] for j in range(N)] + [np.zeros(N), np.arange(N) - 1.5]:
                        c0 = c.copy()
                        f = psdr.PolynomialFunction(B, c)
                        R.close(f(Q), V @ c, 'func-value', str(payload)); R.close(f.eval(Q), V @ c, 'func-eval', '')
                        R.close(f.predict(Q), V @ c, 'func-predict', '')
                        G = np.einsum('ijk,j->ik', DV, c); H = np.einsum('ijkl,j->ikl', DDV, c)
                        R.close(f.grad(Q), G, 'func-grad', ''); R.close(f.hessian(Q), H, 'func-hess', '')
                        v, g = f(Q, return_grad=True)
                        R.close(v, V @ c, 'func-call', ''); R.close(g, G, 'func-call-grad', '')
                        R.close(f(Q[1]), V[1:2] @ c, 'func-single', ''); R.close(f.grad(Q[1]), G[1], 'func-single-grad', ''); R.close(f.hessian(Q[1]), H[1], 'func-single-hess', '')
                        v, g = f(Q[1], return_grad=True)
                        R.close(v, V[1:2] @ c, 'func-single-call', ''); R.close(g, G[1], 'func-single-callg', '')
                        R.close(f(Q[:1]), V[:1] @ c, 'func-one', ''); R.close(f.grad(Q[:1]), G[:1], 'func-one-grad', ''); R.close(f.hessian(Q[:1]), H[:1], 'func-one-hess', '')
                        c[:] = 7.
                        R.close(f(Q), V @ c0, 'func-alias', 'coefficients changed by the caller')
                        R.step(12)
                        R.state((m, d, X0 is None, c0))
                    f = psdr.PolynomialFunction(B, list(c0))
                    for nm, E in (('eval', V @ c0), ('grad', G), ('hessian', H), ('__call__', V @ c0)):
                        st, o = R.attempt(getattr(f, nm), Q.tolist())
                        if R.check(st == 'ok', 'func-list', '%s %s: %s' % (bname, nm, o)): R.close(o, E, 'func-list-value', nm)
                        st, o = R.attempt(getattr(f, nm), Q[1].tolist())
                        if R.check(st == 'ok', 'func-list', '%s %s: %s' % (bname, nm, o)): R.close(o, E[1] if nm in ('grad', 'hessian') else E[1:2], 'func-list-value', nm)
        return
    deep = payload[-1] == 'thorough'
    if kind == 'exact':
        m, lab = payload[2:4]
        X = dict(points(m, deep))[lab]
        x0 = X.min(axis=0).astype(float); w = np.ptp(X, axis=0).astype(float)
        Q = x0 + np.array(list(itertools.product([-.2, .3, .65, 1.2], repeat=m)))*w
        for d in range(0, 4 if m < 3 else 3):
            idx = idxs(m, d)
            V = mono(X, idx, x0, w)
            unis = np.linalg.matrix_rank(V, tol=1e-9) == len(idx)
            if bname == 'arnoldi' and not unis: continue
            VQ = mono(Q, idx, x0, w); DQ, HQ = dmono(Q, idx, x0, w)
            Cs = [np.eye(len(idx))[j] for j in range(len(idx))]
            Cs += [np.ones(len(idx)), 1e3*(np.arange(len(idx)) - 1.), np.zeros(len(idx)), 1e-3*np.ones(len(idx)) + 5*np.eye(len(idx))[0]]
            for norm, bound in itertools.product((1, 2, np.inf), (None, 'lower', 'upper')):
                if (norm, bound) != (2, None) and m == 3 and not deep: continue
                for ic, c in enumerate(Cs):
                    if (norm, bound) != (2, None) and not deep and ic < len(idx) - 2: continue
                    f = V @ c
                    pa = psdr.PolynomialApproximation(d, basis=bname, norm=norm, bound=bound)
                    Xc, fc = X.copy(), f.copy()
                    st, o = R.attempt(pa.fit, Xc, fc)
                    msg = '%s d=%d norm=%s bound=%s c=%s' % (payload[1:4], d, norm, bound, c)
                    if not R.check(st == 'ok', 'exact-fit', msg + ' ' + str(o)): continue
                    R.check(np.array_equal(Xc, X) and np.array_equal(fc, f), 'mutates', msg)
                    s = np.abs(f).max() or 1.
                    tol = (1e-8 if (norm, bound) == (2, None) else 3e-5)*(1 if m < 3 else 10)
                    R.close(pa(X)/s, f/s, 'exact-data', msg, atol=tol)
                    R.state((d, norm, bound, np.round(pa(X)/s, 4)))
                    if not unis: continue
                    am = max(np.abs(VQ @ c).max(), s)
                    R.close(pa(Q)/am, VQ @ c/am, 'exact-value', msg, atol=tol*30)
                    gs = am/w.min()*max(d, 1)
                    R.close(pa.grad(Q)/gs, np.einsum('ijk,j->ik', DQ, c)/gs, 'exact-grad', msg, atol=tol*100)
                    if bname != 'arnoldi':
                        hs = gs/w.min()*max(d, 1)
                        R.close(pa.hessian(Q)/hs, np.einsum('ijkl,j->ikl', HQ, c)/hs, 'exact-hess', msg, atol=tol*300)
                    R.step(3)
        # spellings of the data
        f = X @ np.arange(1., m + 1)
        for Xs, fs in ((X.tolist(), f.tolist()), (X, f.tolist()), (np.asfortranarray(X), f)):
            pa = psdr.PolynomialApproximation(1, basis=bname)
            if bname == 'arnoldi' and len(X) < m + 1: continue
            st, o = R.attempt(pa.fit, Xs, fs)
            if R.check(st == 'ok', 'spelling', '%s: %s' % (payload, o)): R.close(pa(X), f, 'spelling-value', str(payload), atol=1e-8, rtol=1e-8)
        return
    if kind == 'min':
        m, lab, norm, bound = payload[2:6]
        X = dict(points(m, deep))[lab]; M = len(X)
        x0 = X.min(axis=0).astype(float); w = np.ptp(X, axis=0).astype(float)
        vals = list(itertools.product([-1., 0., 1.], repeat=M))
        if not deep and M >= 5: vals = [v for v in vals if v[0] <= 0][::5]
        elif not deep and (bname != 'legendre' or lab not in ('l3', 'l4')): vals = vals[::3]
        F = [np.array(v) for v in vals]
        F += [100*F[1] + 7., 1e3*F[-1] - 1e3 + np.arange(M), 1e-3*F[len(F)//2] + 1e-3*np.arange(M)]
        F += [1e-9*F[len(F)//3] + 1e-10*np.arange(M), 1e9*F[len(F)//2] + 1e8*np.arange(M), 1e6 + F[len(F)//3]]
        for d in (0, 1, 2):
            idx = idxs(m, d)
            V = mono(X, idx, x0, w)
            if bname == 'arnoldi' and np.linalg.matrix_rank(V, tol=1e-9) < len(idx): continue
            for f in F:
                pa = psdr.PolynomialApproximation(d, basis=bname, norm=np.inf if norm == 'inf' else norm, bound=bound)
                st, o = R.attempt(pa.fit, X, f)
                msg = '%s d=%d f=%s' % (payload[1:6], d, f)
                if not R.check(st == 'ok', 'min-fit', msg + ' ' + str(o)): continue
                p = pa(X)
                if not R.check(np.shape(p) == (M,) and np.all(np.isfinite(p)), 'min-shape', msg): continue
                s = max(np.ptp(f), 1e-7*np.abs(f).max()) or 1.   # constants are in the space: only the spread of the data counts
                r = (p - f)/s
                if bound == 'lower': R.check(r.max() <= 1e-5, 'bound-lower', '%s: exceeds data by %g' % (msg, r.max()*s))
                if bound == 'upper': R.check(r.min() >= -1e-5, 'bound-upper', '%s: below data by %g' % (msg, -r.min()*s))
                o = best(V, (f - f.min())/s, norm, bound)
                R.check(nrm(r, norm) <= o + 3e-5*(1 + o), 'not-minimal', '%s residual %g, optimal %g' % (msg, nrm(r, norm)*s, o*s))
                # the fit is a polynomial of the degree
                c = np.linalg.lstsq(V, (p - f.min())/s, rcond=1e-12)[0]
                R.check(np.abs(V @ c - (p - f.min())/s).max() < 1e-7, 'not-poly', msg)
                R.state((d, f, np.round(p/s, 3)))
        return
    if kind == 'refit':
        sets = [(1, 'l4'), (2, 'g9'), (1, 'l5s'), (2, 's10'), (3, 'g27'), (1, 'l4')]
        for d in (1, 2):
            pa = psdr.PolynomialApproximation(d, basis=bname)
            for m, lab in sets:
                X = dict(points(m, deep))[lab]
                f = np.sin(np.arange(len(X))*1.3) + 2.
                pa.fit(X, f)
                pb = psdr.PolynomialApproximation(d, basis=bname); pb.fit(X, f)
                Q = X[::2] + .1
                R.close(pa(Q), pb(Q), 'refit', '%s %s d=%d' % (bname, lab, d), atol=1e-10)
                R.close(pa.grad(Q), pb.grad(Q), 'refit-grad', '%s %s d=%d' % (bname, lab, d), atol=1e-8)
                r = pa(X) - f
                x0 = X.min(axis=0); w = np.ptp(X, axis=0)
                V = mono(X, idxs(m, d), x0, w)
                R.close(np.linalg.norm(r), best(V, f, 2, None), 'refit-minimal', '%s %s' % (bname, lab), atol=1e-8)
                R.step(4); R.state((d, m, lab, np.round(pa(Q), 4)))
                # batches, single points
                R.close(np.array([pa(x)[0] for x in Q]), pa(Q), 'single', bname, atol=1e-9)
                R.close(np.array([pa.grad(x) for x in Q]), pa.grad(Q), 'single-grad', bname, atol=1e-8)
                R.close(pa(Q[::-1]), pa(Q)[::-1], 'order', bname, atol=1e-9)
        for bad in (dict(degree=-1), dict(degree=1, norm=3), dict(degree=1, bound='x'), dict(degree=1, basis='foo')):
            st, o = R.attempt(lambda: psdr.PolynomialApproximation(**bad))
            R.check(st == 'raise', 'bad-argument', str(bad))
        if bname != 'arnoldi':
            for zs in ([.5], [-.5, .25], [1., 2., 4.]):
                X = np.linspace(-1, 5, len(zs) + 1 + len(zs) % 2).reshape(-1, 1)
                pa = psdr.PolynomialApproximation(len(zs), basis=bname)
                pa.fit(X, np.prod(X - np.array(zs), axis=1))
                st, r = R.attempt(pa.roots)
                if R.check(st == 'ok', 'roots', str(r)): R.close(np.sort(np.real(r)), sorted(zs), 'roots-value', bname, atol=1e-6)
