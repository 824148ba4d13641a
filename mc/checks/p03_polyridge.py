"""P03: polynomial ridge approximation"""
import itertools
from math import comb
import numpy as np
from scipy.optimize import linprog
import cvxpy as cp
import psdr
from psdr import PolynomialRidgeApproximation
from psdr.polyridge import PolynomialRidgeFunction
import psdr.polyridge as pr
import psdr.polyridge_vec as pv
import psdr.basis as pb

PID = 'P03'
BOUND = """Alphabet: ambient dimension 1..4, subspace dimension 0..3, degree 0..4, 6 bases, norms {1,2,inf,'inf'}, bounds
 {none, lower, upper}, rotate on/off; lattice data (exact ridge functions of every degree, non-ridge polynomials, constants,
 one dead coordinate, shifted/scaled coordinates); fixed-subspace and affine fits of the same data in
 other units (inputs and values times 1e-9..1e9, offsets to 1e9); starting subspaces {truth, perturbed truth, coordinate, default, unnormalized}.
 Functions: value, gradient, Hessian on lattices, lists and single points.  Residuals and Jacobians of the fitting
 (scalar, alternating and vector valued, with and without fixed part) at every subspace of the alphabet.  Oracle: polynomials
 evaluated from monomials, derivatives by exact interpolation along lines or central differences, best coefficients from
 least squares / LP (HiGHS) / an independent conic program."""
ASSUMPTIONS = ['one-sided bounds and optimal 1/inf-norm coefficients hold to the accuracy of the conic solver (1e-5 relative)']
CASE_CPU_LIMIT = 150.

NAMES = ['legendre', 'monomial', 'chebyshev', 'laguerre', 'hermite', 'arnoldi']
CLS = {'legendre': 'LegendreTensorBasis', 'monomial': 'MonomialTensorBasis', 'chebyshev': 'ChebyshevTensorBasis',
       'laguerre': 'LaguerreTensorBasis', 'hermite': 'HermiteTensorBasis', 'arnoldi': 'ArnoldiPolynomialBasis'}


def exps(n, d):
    return [a for a in itertools.product(range(d + 1), repeat=n) if sum(a) <= d]


def vand(Y, d):
    Y = np.asarray(Y, dtype=float)
    if Y.shape[1] == 0: return np.ones((len(Y), 1))
    c = Y.mean(axis=0); s = np.abs(Y - c).max(axis=0); s[s == 0] = 1
    Z = (Y - c)/s
    return np.array([np.prod(Z**np.array(a), axis=1) for a in exps(Y.shape[1], d)]).T


def best(Y, fX, d, norm, bound):
    """smallest norm of the misfit over all polynomials of degree d in Y"""
    V = vand(Y, d); N = V.shape[1]; M = len(fX)
    if norm == 2:
        if bound is None: return np.linalg.norm(V @ np.linalg.lstsq(V, fX, rcond=1e-13)[0] - fX)
        c = cp.Variable(N); r = V @ c - fX
        p = cp.Problem(cp.Minimize(cp.norm(r)), [r <= 0] if bound == 'lower' else [r >= 0])
        p.solve(solver='ECOS', abstol=1e-10, reltol=1e-10, feastol=1e-10)
        return p.value
    T = np.ones((M, 1)) if norm == np.inf else np.eye(M)
    A = [np.hstack([V, -T]), np.hstack([-V, -T])]; b = [fX, -fX]
    Z = np.zeros((M, T.shape[1]))
    if bound == 'lower': A.append(np.hstack([V, Z])); b.append(fX)
    if bound == 'upper': A.append(np.hstack([-V, Z])); b.append(-fX)
    r = linprog(np.hstack([np.zeros(N), np.ones(T.shape[1])]), A_ub=np.vstack(A), b_ub=np.hstack(b), bounds=[(None, None)]*N + [(0, None)]*T.shape[1])
    return r.fun


def orthos(m, n):
    """alphabet of orthonormal m x n matrices"""
    W = [np.eye(m)[:, :n], np.eye(m)[:, ::-1][:, :n]]
    A = np.array([[(3*i + 2*j*j + 1) % 5 - 2 + (i == j) for j in range(n)] for i in range(m)], dtype=float)
    B = np.array([[1. if j == 0 else (-1.)**(i*j) + i*j for j in range(n)] for i in range(m)])
    out = []
    for X in W + [A, B, -A]:
        if np.linalg.matrix_rank(X) == n:
            out.append(np.linalg.qr(X)[0] if X is not W[0] else X)
    return out


def lattice(m, k):
    ax = {1: np.linspace(-1, 1, 11), 2: np.array([-1, -.6, 0, .5, 1.]), 3: np.array([-1, .1, 1.]), 4: np.array([-1, .7])}[m]
    X = np.array(list(itertools.product(ax, repeat=m)))
    X = X + .13*np.array([[np.sin(7*i + 3*j + k) for j in range(m)] for i in range(len(X))])
    return X


def profile(n, d, Y):
    c = [((5*i*i + 3*i) % 7 - 3)/2. + .25 for i in range(len(exps(n, d)))]
    return sum(ci*np.prod(np.asarray(Y)**np.array(a), axis=-1) for ci, a in zip(c, exps(n, d)))


def cases(tier):
    out = []
    for name in NAMES: out.append(('function/%s' % name, ('fun', name, tier)))
    for m in (1, 2, 3, 4):
        for n in (1, 2, 3):
            if n > m or (m == 4 and n == 3): continue
            out.append(('varpro/%d/%d' % (m, n), ('varpro', m, n, tier)))
            if n < m or m <= 2: out.append(('vec/%d/%d' % (m, n), ('vec', m, n, tier)))
    for name in NAMES:
        for m, n in ((1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (4, 2)):
            for rot in (True, False):
                out.append(('fit2/%s/%d/%d/%s' % (name, m, n, rot), ('fit2', name, m, n, rot, tier)))
    for m, n in ((2, 1), (3, 1), (3, 2), (2, 2)):
        for norm in (1, 2, np.inf):
            for bound in (None, 'lower', 'upper'):
                if norm == 2 and bound is None: continue
                for start in ('truth', 'near', 'coord') + (('none',) if tier == 'thorough' else ()):
                    out.append(('fitp/%d/%d/%s/%s/%s' % (m, n, norm, bound, start), ('fitp', m, n, norm, bound, start, tier)))
    for norm in (1, 2, np.inf):
        for bound in (None, 'lower', 'upper'):
            out.append(('affine/%s/%s' % (norm, bound), ('affine', norm, bound, tier)))
            out.append(('fixed/%s/%s' % (norm, bound), ('fixed', norm, bound, tier)))
            out.append(('units/%s/%s' % (norm, bound), ('units', norm, bound, tier)))
    out.append(('degenerate', ('degen', tier)))
    out.append(('shadow', ('shadow', tier)))
    return out


def dline(f, x, e, d):
    """first and second derivative of a polynomial of degree d along e, exactly"""
    t = np.cos(np.pi*(np.arange(d + 1) + .5)/(d + 1)) if d else np.array([0.])
    y = np.array([np.ravel(f(x + ti*e))[0] for ti in t])
    c = np.linalg.solve(np.vander(t, increasing=True), y)
    return (c[1] if d >= 1 else 0.), (2*c[2] if d >= 2 else 0.)


def check_function(R, prf, m, n, d, msg, pts, scale=1.):
    U = prf.U
    W = np.linalg.svd(U, full_matrices=True)[0][:, n:] if n else np.eye(m)
    st, F = R.attempt(prf.eval, pts)
    if not R.check(st == 'ok' and np.shape(F) == (len(pts),), 'eval-raise', '%s: %s' % (msg, F)): return
    sc = scale*(1 + np.abs(F).max())
    st, G = R.attempt(prf.grad, pts)
    if not R.check(st == 'ok' and np.shape(G) == pts.shape, 'grad-raise', '%s: %s' % (msg, G)): return
    for spell in (pts.tolist(), [p for p in pts]):
        st, F2 = R.attempt(prf.eval, spell); R.check(st == 'ok' and np.allclose(F2, F, atol=1e-12*sc), 'eval-list', '%s: %s' % (msg, F2))
        st, G2 = R.attempt(prf.grad, spell); R.check(st == 'ok' and np.allclose(G2, G, atol=1e-12*sc), 'grad-list', '%s: %s' % (msg, G2))
    H = None
    if not isinstance(prf.basis, pb.ArnoldiPolynomialBasis):
        st, H = R.attempt(prf.hessian, pts)
        if not R.check(st == 'ok' and np.shape(H) == (len(pts), m, m), 'hessian-raise', '%s: %s' % (msg, H)): H = None
        st, H2 = R.attempt(prf.hessian, pts.tolist()); R.check(st == 'ok' and (H is None or np.allclose(H2, H)), 'hessian-list', '%s: %s' % (msg, H2))
    for i, x in enumerate(pts):
        st, f = R.attempt(prf.eval, x); R.check(st == 'ok' and np.size(f) == 1 and abs(np.ravel(f)[0] - F[i]) <= 1e-9*sc, 'eval-point', '%s: %s vs %s' % (msg, f, F[i]))
        for e in W.T:
            st, f = R.attempt(prf.eval, x + 1.7*e); R.check(st == 'ok' and abs(np.ravel(f)[0] - F[i]) <= 1e-7*sc, 'ridge', '%s: changes along %s' % (msg, e))
        st, g = R.attempt(prf.grad, x); R.check(st == 'ok' and np.shape(g) == (m,) and np.allclose(g, G[i], atol=1e-9*sc), 'grad-point', '%s: %s' % (msg, g))
        for a in range(m):
            e = np.eye(m)[a]
            d1, d2 = dline(prf.eval, x, e, d)
            R.check(abs(d1 - G[i, a]) <= 1e-6*sc, 'grad', '%s at %s: gradient %s, derivative %d is %g' % (msg, x, G[i], a, d1))
            if H is not None:
                R.check(abs(d2 - H[i, a, a]) <= 1e-5*sc, 'hessian', '%s at %s: Hessian %g is %g' % (msg, x, H[i, a, a], d2))
                for b in range(a):
                    d3 = dline(prf.eval, x, e + np.eye(m)[b], d)[1] - d2 - dline(prf.eval, x, np.eye(m)[b], d)[1]
                    R.check(abs(d3 - 2*H[i, a, b]) <= 1e-5*sc and abs(H[i, a, b] - H[i, b, a]) <= 1e-9*sc, 'hessian', '%s at %s: Hessian %s' % (msg, x, H[i].tolist()))
        if H is not None:
            st, h = R.attempt(prf.hessian, x); R.check(st == 'ok' and np.shape(h) == (m, m) and np.allclose(h, H[i], atol=1e-9*sc), 'hessian-point', '%s: %s' % (msg, h))
        R.state((msg, i)); R.step()
    p = prf.profile
    if n:
        Y = pts @ U
        R.close(p.eval(Y), F, 'profile', msg, atol=1e-8*sc)
        R.close(np.asarray(p.grad(Y)) @ U.T, G, 'profile-grad', msg, atol=1e-8*sc)


def check_fit(R, pra, X, fX, U0, d, n, norm, bound, rot, msg, truth=False, tol=1e-6):
    M, m = X.shape
    U = pra.U; sc = 1e-300 + np.abs(fX).max() + np.ptp(fX)
    if not R.check(np.shape(U) == (m, n) and np.all(np.isfinite(U)), 'fit-shape', '%s: U %s' % (msg, U)): return
    R.close(U.T @ U, np.eye(n), 'fit-orthonormal', '%s: U %s' % (msg, U), atol=1e-8)
    st, F = R.attempt(pra.eval, X)
    if not R.check(st == 'ok' and np.shape(F) == (M,), 'fit-eval', '%s: %s' % (msg, F)): return
    p = norm if norm != 'inf' else np.inf
    o = np.linalg.norm(F - fX, p)
    slack = tol*sc*M**(1./p if p != np.inf else 0)
    bU = best(X @ U, fX, d, p, bound)
    R.check(o <= bU + slack, 'fit-coef', '%s: misfit %g but the best polynomial on the subspace has %g' % (msg, o, bU))
    if U0 is not None:
        b0 = best(X @ U0, fX, d, p, bound)
        R.check(o <= b0 + slack, 'fit-worse', '%s: misfit %g, start %g' % (msg, o, b0))
    if bound == 'lower': R.check((F - fX).max() <= 1e-5*sc, 'fit-bound', '%s: lower bound exceeds by %g' % (msg, (F - fX).max()))
    if bound == 'upper': R.check((fX - F).max() <= 1e-5*sc, 'fit-bound', '%s: upper bound below by %g' % (msg, (fX - F).max()))
    if truth: R.check(o <= 10*slack, 'fit-truth', '%s: exact ridge data, misfit %g' % (msg, o))
    if rot and n:
        g = np.mean(np.asarray(pra.profile.grad(X @ U)), axis=0)
        R.check(g.min() >= -1e-6*sc*max(1, d*d)/max(1e-9, np.ptp(X)), 'fit-slope', '%s: mean slope %s' % (msg, g))
        R.check(np.linalg.norm(U) > 0, 'fit-slope', msg)
        if n > 1 and p == 2 and bound is None and np.linalg.cond(vand(X @ U, d)) < 1e8:
            # aligned with the active subspace of the ridge function, most important direction first
            G = np.asarray(pra.profile.grad(X @ U)); C = G.T @ G; t = np.trace(C) + M*sc*sc*1e-6
            R.check(np.abs(C - np.diag(np.diag(C))).max() <= 1e-5*t and np.all(np.diff(np.diag(C)) <= 1e-5*t), 'fit-rotation', '%s: outer product of gradients %s' % (msg, C.tolist()))
    R.state((msg, np.round(U, 4).tolist()))


def data(m, n, d, k=0):
    """(name, X, fX, truth)"""
    X = lattice(m, k)
    out = []
    for j, U in enumerate(orthos(m, n)[:3]):
        out.append(('ridge%d' % j, X, profile(n, d, X @ U), U))
    out.append(('poly', X, X[:, 0]**2 - .5*X.sum(axis=1)**3 + np.exp(X[:, -1]), None))
    Xs = X*np.arange(1, m + 1)*10. + 3
    if n < m: out.append(('scaled', Xs, np.sin(Xs.sum(axis=1)/20.) + .1*Xs[:, 0], None))
    return out


def near(U):
    m, n = U.shape
    E = np.array([[((2*i + j) % 3 - 1)*.04 for j in range(n)] for i in range(m)])
    return np.linalg.qr(U + E)[0]


def run(payload, R):
    kind = payload[0]; tier = payload[-1]; deep = tier == 'thorough'
    if kind == 'fun':
        name = payload[1]
        cls = getattr(pb, CLS[name])
        for m in (1, 2, 3):
            X = lattice(m, 1)
            pts = X[::max(1, len(X)//6)][:6]
            for n in range(1, m + 1):
                for d in range(0, 5 if n < 3 else 4):
                    for U in orthos(m, n)[:3]:
                        for sc in (True, False):
                            if name == 'arnoldi' and (not sc or len(X) <= 2*comb(n + d, d)): continue
                            st, basis = R.attempt(cls, d, X @ U) if name == 'arnoldi' else R.attempt(cls, d, X=X @ U) if sc else R.attempt(cls, d, dim=n)
                            if not R.check(st == 'ok', 'basis', '%s %s' % (name, basis)): continue
                            c = np.array([((7*i + 2) % 5 - 2.)/(1 + i) for i in range(len(basis))])
                            for spell in ((c, U), (list(c), U.tolist())):
                                st, prf = R.attempt(PolynomialRidgeFunction, basis, *spell)
                                if not R.check(st == 'ok', 'construct', str(prf)): continue
                                check_function(R, prf, m, n, d, '%s m=%d n=%d d=%d scaled=%s' % (name, m, n, d, sc), pts)
        return
    if kind == 'varpro':
        _, m, n, tier = payload
        for name in NAMES:
            for d in (1, 2, 3):
                if d == 1 and n > 1: continue
                for k, (dn, X, fX, tr) in enumerate(data(m, n, d)):
                    if comb(n + d, d) >= len(X) - 2: continue
                    pra = PolynomialRidgeApproximation(degree=d, subspace_dimension=n, basis=name)
                    sc = 1 + np.abs(fX).max()
                    for U in orthos(m, n) + ([tr] if tr is not None else []):
                        msg = '%s d=%d %s U=%s' % (name, d, dn, U.tolist())
                        st, r = R.attempt(pra._varpro_residual, X, fX, U.flatten())
                        if not R.check(st == 'ok' and np.shape(r) == (len(X),), 'vp-residual-raise', '%s: %s' % (msg, r)): continue
                        V = vand(X @ U, d)
                        e = fX - V @ np.linalg.lstsq(V, fX, rcond=1e-13)[0]
                        R.close(r, e, 'vp-residual', msg, atol=1e-7*sc)
                        if n > 1:
                            Q = np.array([[.6, .8], [-.8, .6]]) if n == 2 else np.eye(n)[[1, 2, 0]]
                            R.close(pra._varpro_residual(X, fX, (U @ Q).flatten()), r, 'vp-invariant', msg, atol=1e-7*sc)
                        st, J = R.attempt(pra._varpro_jacobian, X, fX, U.flatten())
                        if not R.check(st == 'ok' and np.shape(J) == (len(X), m*n), 'vp-jacobian-raise', '%s: %s' % (msg, J)): continue
                        h = 1e-5; xs = np.abs(X).max()
                        for i in range(m*n):
                            E = np.zeros(m*n); E[i] = h
                            fd = (pra._varpro_residual(X, fX, U.flatten() + E) - pra._varpro_residual(X, fX, U.flatten() - E))/(2*h)
                            R.check(np.abs(fd - J[:, i]).max() <= 1e-4*sc*xs*(1 + np.abs(fd).max()), 'vp-jacobian', '%s: column %d differs by %g' % (msg, i, np.abs(fd - J[:, i]).max()))
                        # residual and Jacobian with explicit coefficients
                        st, J = R.attempt(lambda: (pra._fit_coef(X, fX, U), 0)[0])
                        if not R.check(st == 'ok' and np.shape(J) == (len(pra.basis),), 'coef', '%s: %s' % (msg, J)): continue
                        Uc = np.hstack([U.flatten(), J])
                        JJ = pra._jacobian(X, fX, Uc)
                        r0 = pra._residual(X, fX, Uc)
                        R.close(r0, -r, 'alt-residual', msg, atol=1e-6*sc)
                        if R.check(np.shape(JJ) == (len(X), len(Uc)), 'alt-shape', msg):
                            for i in range(len(Uc)):
                                E = np.zeros(len(Uc)); E[i] = h
                                fd = (pra._residual(X, fX, Uc + E) - pra._residual(X, fX, Uc - E))/(2*h)
                                R.check(np.abs(fd - JJ[:, i]).max() <= 1e-4*sc*(1 + np.abs(fd).max()), 'alt-jacobian', '%s: column %d differs by %g' % (msg, i, np.abs(fd - JJ[:, i]).max()))
                        # geodesic: starts at U, stays orthonormal, moves in direction of the step, optimal coefficients
                        D = np.array([[((i + 2*j) % 3 - 1)*.3 for j in range(n)] for i in range(m)]); D = D - U @ (U.T @ D)
                        for t in (0., .3, 1.):
                            st, u = R.attempt(pra._grassmann_trajectory, U.flatten(), D.flatten(), t)
                            if R.check(st == 'ok', 'geodesic-raise', '%s: %s' % (msg, u)):
                                u = np.reshape(u, (m, n)); R.close(u.T @ u, np.eye(n), 'geodesic-orthonormal', '%s t=%g' % (msg, t), atol=1e-10)
                                if t == 0: R.close(u @ u.T, U @ U.T, 'geodesic-start', msg, atol=1e-10)
                                ang = np.linalg.norm(np.arccos(np.clip(np.linalg.svd(u.T @ U, compute_uv=False), -1, 1)))
                                R.check(abs(ang - t*np.linalg.norm(D)) < 1e-6 or t*np.linalg.norm(D) > 1.5, 'geodesic-length', '%s: moved %g of %g' % (msg, ang, t*np.linalg.norm(D)))
                            st, u = R.attempt(pra._trajectory, X, fX, Uc, np.hstack([D.flatten(), J]), t)
                            if R.check(st == 'ok' and np.shape(u) == np.shape(Uc), 'alt-trajectory-raise', '%s: %s' % (msg, u)):
                                uu = u[:m*n].reshape(m, n); R.close(uu.T @ uu, np.eye(n), 'alt-trajectory', msg, atol=1e-10)
                                R.check(np.linalg.norm(pra._residual(X, fX, u)) <= best(X @ uu, fX, d, 2, None) + 1e-6*sc, 'alt-trajectory-coef', msg)
                        R.state((name, d, dn, np.round(U, 4).tolist())); R.step(10)
        return
    if kind == 'vec':
        _, m, n, tier = payload
        bases = [getattr(pv, b) for b in ('LegendrePolynomialBasis', 'MonomialPolynomialBasis', 'ArnoldiPolynomialBasis', 'ChebyshevPolynomialBasis') if hasattr(pv, b)]
        X = lattice(m, 2); M = len(X)
        for d in (1, 2, 3):
            if comb(n + d, d) >= M - 2: continue
            Us = orthos(m, n)
            fXs = [('ridge', np.array([profile(n, d, X @ Us[-1]), profile(n, d, X @ Us[-1])**2 if d == 1 else profile(n, 1, X @ Us[-1])]).T, Us[-1]),
                   ('poly', np.array([X[:, 0]**2 + X.sum(axis=1)**3, np.exp(X[:, 0]), X[:, -1]]).T, None),
                   ('one', np.array([X[:, 0]**2 + np.sin(X.sum(axis=1))]).T, None)]
            for Basis in bases:
                for dn, fX, tr in fXs:
                    sc = 1 + np.abs(fX).max()
                    for U in Us:
                        msg = '%s d=%d %s U=%s' % (Basis.__name__, d, dn, U.tolist())
                        V = vand(X @ U, d); e = fX - V @ np.linalg.lstsq(V, fX, rcond=1e-13)[0]
                        st, r = R.attempt(pv._varpro_residual, U, X, fX, Basis, d)
                        if not R.check(st == 'ok' and np.shape(r) == (fX.size,), 'vec-residual-raise', '%s: %s' % (msg, r)): continue
                        R.close(r, e.T.flatten(), 'vec-residual', msg, atol=1e-7*sc)
                        st, J = R.attempt(pv._varpro_jacobian, U, X, fX, Basis, d)
                        if not R.check(st == 'ok' and np.shape(J) == (fX.size, m*n), 'vec-jacobian-raise', '%s: %s' % (msg, J)): continue
                        h = 1e-5
                        for i in range(m*n):
                            E = np.zeros(m*n); E[i] = h; E = E.reshape(m, n)
                            fd = (pv._varpro_residual(U + E, X, fX, Basis, d) - pv._varpro_residual(U - E, X, fX, Basis, d))/(2*h)
                            R.check(np.abs(fd - J[:, i]).max() <= 1e-4*sc*(1 + np.abs(fd).max()), 'vec-jacobian', '%s: column %d differs by %g' % (msg, i, np.abs(fd - J[:, i]).max()))
                        for nf in range(1, n):
                            Uf = U[:, :nf]; Uc = np.linalg.svd(Uf, full_matrices=True)[0][:, nf:]
                            W = np.linalg.qr(Uc.T @ U[:, nf:])[0]
                            st, rf = R.attempt(pv._varpro_residual_fixed, W, X, fX, Basis, d, Uf, Uc)
                            if R.check(st == 'ok', 'vec-fixed-raise', '%s: %s' % (msg, rf)): R.close(rf, r, 'vec-fixed', msg, atol=1e-7*sc)
                            st, JF = R.attempt(pv._varpro_jacobian_fixed, W, X, fX, Basis, d, Uf, Uc)
                            if R.check(st == 'ok' and np.shape(JF) == (fX.size, W.size), 'vec-fixed-raise', '%s: %s' % (msg, JF)):
                                for i in range(W.size):
                                    E = np.zeros(W.size); E[i] = h; E = E.reshape(W.shape)
                                    fd = (pv._varpro_residual_fixed(W + E, X, fX, Basis, d, Uf, Uc) - pv._varpro_residual_fixed(W - E, X, fX, Basis, d, Uf, Uc))/(2*h)
                                    R.check(np.abs(fd - JF[:, i]).max() <= 1e-4*sc*(1 + np.abs(fd).max()), 'vec-fixed-jacobian', '%s: column %d differs by %g' % (msg, i, np.abs(fd - JF[:, i]).max()))
                        R.step(m*n); R.state((Basis.__name__, d, dn, np.round(U, 3).tolist()))
                    # full fits
                    for sname, U0 in (('truth', tr), ('coord', Us[0]), ('alt', Us[1]), ('none', None), ('near', None if tr is None else near(tr))):
                        if U0 is None and sname != 'none': continue
                        Uf = None if U0 is None else U0.copy(); Xk, fk = X.copy(), fX.copy()
                        np.random.seed(0)
                        st, U = R.attempt(pv.polynomial_ridge_approximation, X, fX, n, d, U0=U0, Basis=Basis, maxiter=15)
                        msg = '%s d=%d %s start %s' % (Basis.__name__, d, dn, sname)
                        if not R.check(st == 'ok' and np.shape(U) == (m, n), 'vecfit-raise', '%s: %s' % (msg, U)): continue
                        R.close(U.T @ U, np.eye(n), 'vecfit-orthonormal', msg, atol=1e-7)
                        R.check(np.array_equal(Xk, X) and np.array_equal(fk, fX) and (Uf is None or np.array_equal(Uf, U0)), 'vecfit-mutates', msg)
                        o = np.linalg.norm([best(X @ U, f, d, 2, None) for f in fX.T])
                        if U0 is not None:
                            b0 = np.linalg.norm([best(X @ U0, f, d, 2, None) for f in fX.T])
                            R.check(o <= b0 + 1e-7*sc, 'vecfit-worse', '%s: %g, start %g' % (msg, o, b0))
                        if tr is not None and sname in ('truth', 'near') and not (d == 1 and n > 1) and best(X @ tr, fX[:, 1], d, 2, None) < 1e-9:
                            R.check(o <= 1e-5*sc, 'vecfit-truth', '%s: misfit %g' % (msg, o))
                        if fX.shape[1] == 1:
                            np.random.seed(0)
                            st, U2 = R.attempt(pv.polynomial_ridge_approximation, X, fX[:, 0], n, d, U0=U0, Basis=Basis, maxiter=15)
                            R.check(st == 'ok' and np.allclose(U2, U), 'vecfit-1d', '%s: %s' % (msg, U2))
                        R.state((msg, np.round(U, 3).tolist()))
                    for nf in range(1, n):
                        Ff = 2.*Us[-1][:, :nf] if nf == 1 else Us[-1][:, :nf]
                        for U0 in (None, Us[0], Us[-1]):
                            st, U = R.attempt(pv.polynomial_ridge_approximation, X, fX, n, d, U0=U0, Basis=Basis, fixed_subspace=Ff, maxiter=15)
                            msg = '%s d=%d %s fixed %d' % (Basis.__name__, d, dn, nf)
                            if not R.check(st == 'ok' and np.shape(U) == (m, n), 'vecfit-fixed-raise', '%s: %s' % (msg, U)): continue
                            R.close(U.T @ U, np.eye(n), 'vecfit-orthonormal', msg, atol=1e-7)
                            R.close(U @ (U.T @ Ff), Ff, 'vecfit-fixed-lost', msg, atol=1e-7)
                            R.state((msg, np.round(U, 3).tolist()))
        return
    if kind == 'fit2':
        _, name, m, n, rot, tier = payload
        for d in ((2, 3) if n > 1 else (1, 2, 3)) + ((4,) if deep else ()):
            for dn, X, fX, tr in data(m, n, d):
                M = len(X)
                if comb(n + d, d) + m*n >= M: continue
                starts = [('truth', tr), ('near', None if tr is None else near(tr)), ('none', None)] + [('u%d' % j, U) for j, U in enumerate(orthos(m, n)[:3])] + [('scaled', 3*orthos(m, n)[-1])]
                for sname, U0 in starts:
                    if U0 is None and sname != 'none': continue
                    pra = PolynomialRidgeApproximation(degree=d, subspace_dimension=n, basis=name, rotate=rot, maxiter=100 if sname in ('truth', 'near') else 12)
                    Xk, fk, Uk = X.copy(), fX.copy(), None if U0 is None else U0.copy()
                    np.random.seed(0)
                    st, o = R.attempt(pra.fit, X, fX, U0)
                    msg = '%s m=%d n=%d d=%d %s start=%s rotate=%s' % (name, m, n, d, dn, sname, rot)
                    if not R.check(st == 'ok', 'fit-raise', '%s: %s' % (msg, o)): continue
                    R.check(np.array_equal(Xk, X) and np.array_equal(fk, fX) and (Uk is None or np.array_equal(Uk, U0)), 'fit-mutates', msg)
                    check_fit(R, pra, X, fX, None if d == 1 else U0, d, n, 2, None, rot, msg, truth=(tr is not None and (sname in ('truth', 'near') or d == 1)))
                    if sname == 'truth':
                        check_function(R, pra, m, n, d, msg, X[::max(1, M//3)][:3], scale=10.)
                        st, o = R.attempt(pra.fit, X.tolist(), fX.reshape(-1, 1), U0.tolist())
                        if R.check(st == 'ok', 'fit-list', '%s: %s' % (msg, o)): check_fit(R, pra, X, fX, None, d, n, 2, None, rot, msg, truth=True)
        return
    if kind == 'fitp':
        _, m, n, norm, bound, start, tier = payload
        for name in (('legendre', 'arnoldi') if not deep else NAMES):
            for d in (2, 3):
                for dn, X, fX, tr in [data(m, n, d)[i] for i in ((1, 3) if n < m else (1,))]:
                    keep = slice(None, None, 1 if m < 4 else 2)
                    X, fX = X[keep], fX[keep]
                    if start in ('truth', 'near') and tr is None: continue
                    U0 = {'truth': tr, 'near': None if tr is None else near(tr), 'coord': orthos(m, n)[0], 'none': None}[start]
                    if comb(n + d, d) + m*n >= len(X): continue
                    pra = PolynomialRidgeApproximation(degree=d, subspace_dimension=n, basis=name, norm='inf' if norm == np.inf and d == 2 else norm, bound=bound, maxiter=4)
                    st, o = R.attempt(pra.fit, X, fX, U0)
                    msg = '%s m=%d n=%d d=%d %s norm=%s bound=%s start=%s' % (name, m, n, d, dn, norm, bound, start)
                    if not R.check(st == 'ok', 'fit-raise', '%s: %s' % (msg, o)): continue
                    check_fit(R, pra, X, fX, U0, d, n, norm, bound, True, msg, truth=start == 'truth' and tr is not None, tol=1e-5)
        return
    if kind == 'affine':
        _, norm, bound, tier = payload
        for m in (1, 2, 3):
            for k in range(4 if not deep else 12):
                X = lattice(m, k)[:40]
                ys = [X @ np.arange(1, m + 1) + .5, X[:, 0]**2 + X.sum(axis=1), np.cos(3*X[:, 0]) + X[:, -1]*.7, 1e4*(X.sum(axis=1) + .01*X[:, 0]**3), -X.sum(axis=1)**3]
                for j, fX in enumerate(ys):
                    for shift in (False, True):
                        Z = X*np.arange(1, m + 1)*5 + 2 if shift else X
                        for nd in (1, 2):
                            pra = PolynomialRidgeApproximation(degree=1, subspace_dimension=nd, norm=norm, bound=bound)
                            st, o = R.attempt(pra.fit, Z, fX)
                            msg = 'affine m=%d data %d norm=%s bound=%s shift=%s' % (m, j, norm, bound, shift)
                            if not R.check(st == 'ok', 'affine-raise', '%s: %s' % (msg, o)): continue
                            check_fit(R, pra, Z, fX, None, 1, 1, norm, bound, True, msg, tol=1e-5, truth=j == 0)
                            if np.shape(pra.U) == (m, 1):
                                b = best(Z, fX, 1, norm, bound); o = np.linalg.norm(pra.eval(Z) - fX, norm)
                                R.check(o <= b + 1e-4*(np.ptp(fX))*len(fX)**(0 if norm == np.inf else 1./norm), 'affine-optimal', '%s: misfit %g, best affine function %g' % (msg, o, b))
        return
    if kind == 'fixed':
        _, norm, bound, tier = payload
        for m, n in ((2, 1), (3, 1), (3, 2)):
            for d in (1, 2, 3):
                if d == 1 and n > 1: continue
                for dn, X, fX, tr in data(m, n, d):
                    for U in orthos(m, n)[:3] + ([tr] if tr is not None else []):
                        if comb(n + d, d) >= len(X): continue
                        for rot in (True, False):
                            pra = PolynomialRidgeApproximation(degree=d, subspace_dimension=n, norm=norm, bound=bound, rotate=rot)
                            Uk = U.copy()
                            st, o = R.attempt(pra.fit_fixed_subspace, X, fX, U)
                            msg = 'fixed m=%d n=%d d=%d %s norm=%s bound=%s' % (m, n, d, dn, norm, bound)
                            if not R.check(st == 'ok', 'fixed-raise', '%s: %s' % (msg, o)): continue
                            R.check(np.array_equal(U, Uk), 'fixed-mutates', msg)
                            R.close(pra.U @ pra.U.T, U @ U.T, 'fixed-span', msg, atol=1e-8)
                            if not rot: R.close(pra.U, U, 'fixed-same', msg)
                            check_fit(R, pra, X, fX, U, d, n, norm, bound, rot, msg, truth=tr is not None and U is tr, tol=1e-5)
        return
    if kind == 'units':
        _, norm, bound, tier = payload
        units = [(1., 1e-9, 0.), (1., 1e9, 0.), (1., 1., 1e6), (1e-9, 1., 0.), (1e9, 1., 0.), (1e6, 1e-6, 0.), (1e-6, 1e6, -1e9)]
        for m, n, d in ((1, 1, 2), (2, 1, 1), (2, 1, 3), (2, 2, 2), (3, 1, 2), (3, 2, 2)):
            for dn, X, fX, tr in data(m, n, d):
                for j, U in enumerate(orthos(m, n)[:2] + ([tr] if tr is not None else [])):
                    if comb(n + d, d) >= len(X): continue
                    b = best(X @ U, fX, d, norm, bound); sc = np.ptp(fX); M = len(X)
                    for sx, sf, off in units if deep or j else units[:3]:
                        pra = PolynomialRidgeApproximation(degree=d, subspace_dimension=n, norm=norm, bound=bound)
                        Z, g = sx*X, sf*fX + off
                        msg = 'units m=%d n=%d d=%d %s norm=%s bound=%s inputs times %g values times %g plus %g' % (m, n, d, dn, norm, bound, sx, sf, off)
                        st, o = R.attempt(pra.fit_fixed_subspace, Z, g, U)
                        R.step()
                        if not R.check(st == 'ok', 'units-raise', '%s: %s' % (msg, o)): continue
                        r = (pra.eval(Z) - g)/sf
                        R.check(np.linalg.norm(r, norm) <= b + 3e-5*sc*M**(0 if norm == np.inf else 1./norm), 'units-optimal', '%s: misfit %g, best %g (in the original units)' % (msg, np.linalg.norm(r, norm), b))
                        if bound == 'lower': R.check(r.max() <= 1e-5*sc, 'units-bound', '%s: %g above' % (msg, r.max()))
                        if bound == 'upper': R.check(r.min() >= -1e-5*sc, 'units-bound', '%s: %g below' % (msg, -r.min()))
                        R.state((msg,))
                        if d == 1:
                            pra = PolynomialRidgeApproximation(degree=1, subspace_dimension=1, norm=norm, bound=bound)
                            st, o = R.attempt(pra.fit, Z, g)
                            if not R.check(st == 'ok', 'units-raise', 'affine %s: %s' % (msg, o)): continue
                            r = (pra.eval(Z) - g)/sf; ba = best(X, fX, 1, norm, bound)
                            R.check(np.linalg.norm(r, norm) <= ba + 3e-5*sc*M**(0 if norm == np.inf else 1./norm), 'units-affine', '%s: misfit %g, best %g (in the original units)' % (msg, np.linalg.norm(r, norm), ba))
        return
    if kind == 'degen':
        from psdr.exceptions import UnderdeterminedException
        for name in NAMES:
            for m in (1, 2, 3):
                X = lattice(m, 3)
                # degree zero
                for norm in (1, 2, np.inf):
                    for bound in (None, 'lower', 'upper'):
                        fX = X[:, 0]**2 + 1.
                        pra = PolynomialRidgeApproximation(degree=0, subspace_dimension=1, basis=name, norm=norm, bound=bound)
                        st, o = R.attempt(pra.fit, X, fX)
                        msg = 'degree 0 %s m=%d norm=%s bound=%s' % (name, m, norm, bound)
                        if R.check(st == 'ok', 'degree0', '%s: %s' % (msg, o)):
                            st, F = R.attempt(pra.eval, X)
                            if R.check(st == 'ok' and np.shape(F) == (len(X),), 'degree0-eval', '%s: %s' % (msg, F)):
                                b = best(np.zeros((len(X), 0)), fX, 0, norm, bound)
                                R.check(np.linalg.norm(F - fX, norm) <= b + 1e-4*len(X), 'degree0-value', '%s: %g, best %g' % (msg, np.linalg.norm(F - fX, norm), b))
                # constant data
                for d in (1, 2, 3):
                    for n in range(1, min(m, 2) + 1):
                        if comb(n + d, d) + m*n >= len(X): continue
                        for c in (0., 2.5, -1e3):
                            pra = PolynomialRidgeApproximation(degree=d, subspace_dimension=n, basis=name)
                            for U0 in (None, orthos(m, n)[0]):
                                st, o = R.attempt(pra.fit, X, np.full(len(X), c), U0)
                                msg = 'constant %g %s m=%d n=%d d=%d' % (c, name, m, n, d)
                                if not R.check(st == 'ok', 'constant', '%s: %s' % (msg, o)): continue
                                k = 1 if d == 1 else n
                                R.close(pra.U.T @ pra.U, np.eye(k), 'constant-orthonormal', '%s: %s' % (msg, pra.U), atol=1e-8)
                                R.close(pra.eval(X), np.full(len(X), c), 'constant-value', msg, atol=1e-6*(1 + abs(c)))
                # even data: mean slope zero
                Xs = np.vstack([X, -X])
                for d in (2,):
                    pra = PolynomialRidgeApproximation(degree=d, subspace_dimension=1, basis=name)
                    st, o = R.attempt(pra.fit, Xs, Xs[:, 0]**2, np.eye(m)[:, :1])
                    if R.check(st == 'ok', 'even', '%s m=%d: %s' % (name, m, o)):
                        R.close(np.linalg.norm(pra.U), 1., 'even-orthonormal', '%s %s' % (name, pra.U)); R.close(pra.eval(Xs), Xs[:, 0]**2, 'even-value', name, atol=1e-6)
                    st, o = R.attempt(pra.fit_fixed_subspace, Xs, Xs[:, 0]**2, np.eye(m)[:, :1])
                    if R.check(st == 'ok', 'even', '%s m=%d: %s' % (name, m, o)): R.close(np.linalg.norm(pra.U), 1., 'even-orthonormal', '%s %s' % (name, pra.U))
                # a coordinate that does not vary
                if m > 1:
                    Z = X.copy(); Z[:, 0] = .7
                    for d in (1, 2):
                        pra = PolynomialRidgeApproximation(degree=d, subspace_dimension=1, basis=name)
                        st, o = R.attempt(pra.fit, Z, Z[:, 1]**d, np.eye(m)[:, 1:2])
                        if R.check(st == 'ok', 'dead', '%s m=%d d=%d: %s' % (name, m, d, o)): R.close(pra.eval(Z), Z[:, 1]**d, 'dead-value', '%s d=%d' % (name, d), atol=1e-5)
                # too few samples
                for d in (1, 2, 3):
                    for n in range(1, m + 1):
                        pra = PolynomialRidgeApproximation(degree=d, subspace_dimension=n, basis=name)
                        nn = 1 if d == 1 else n
                        np_ = comb(nn + d, d) + m*nn - nn*(nn + 1)//2
                        if np_ - 1 < 1 or np_ - 1 > len(X): continue
                        st, o = R.attempt(pra.fit, X[:np_ - 1], X[:np_ - 1, 0])
                        R.check(st == 'raise' and o == 'UnderdeterminedException' and pr.UnderdeterminedException is UnderdeterminedException, 'underdetermined', '%s m=%d n=%d d=%d: %s' % (name, m, n, d, o))
                        if np_ > len(X): continue
                        np.random.seed(0)
                        st, o = R.attempt(pra.fit, X[:np_], X[:np_, 0])
                        R.check(st == 'ok' or o != 'UnderdeterminedException', 'determined', '%s m=%d n=%d d=%d rejects %d samples: %s' % (name, m, n, d, np_, o))
        M = np.array([[1., 2], [0, 1], [2, 0.]])
        for A in (M, M[:, :1], -M, np.array([[0., 1], [1, 0], [0, 0]]), np.eye(3), np.array([[0., -2], [-1., 0], [0, 0]])):
            st, Q = R.attempt(pr.orth, A)
            if R.check(st == 'ok', 'orth-raise', str(Q)):
                R.close(Q.T @ Q, np.eye(A.shape[1]), 'orth', '%s -> %s' % (A.tolist(), Q), atol=1e-12)
                R.close(Q @ (Q.T @ A), A, 'orth-span', str(A.tolist()), atol=1e-12); R.check(np.min(np.diag(Q.T @ A)) >= -1e-12, 'orth-direction', str(A.tolist()))
        for bad in (dict(degree=1.5), dict(degree=-1), dict(subspace_dimension=0), dict(norm=3), dict(bound='both'), dict(basis='nope')):
            st, o = R.attempt(PolynomialRidgeApproximation, **{**dict(degree=2, subspace_dimension=1), **bad})
            R.check(st == 'raise', 'arguments', '%s accepted' % bad)
        pra = PolynomialRidgeApproximation(degree=2, subspace_dimension=1)
        X = lattice(2, 0)
        for args in ((X, X[:-1, 0]), (X, X[:, 0], np.eye(3)[:, :1]), (X, X[:, 0], np.eye(2))):
            st, o = R.attempt(pra.fit, *args); R.check(st == 'raise', 'arguments', 'inconsistent shapes accepted')
        # fitting functions
        for M_, N_ in ((5, 2), (7, 3)):
            A = np.vander(np.linspace(-1, 1, M_), N_); b = np.cos(3*np.arange(M_)) + 2.
            for f, p in ((pr.one_norm_fit, 1), (pr.two_norm_fit, 2), (pr.inf_norm_fit, np.inf)):
                st, x = R.attempt(f, A, b)
                if R.check(st == 'ok' and np.shape(x) == (N_,), 'fitters', str(x)):
                    R.close(np.linalg.norm(A @ x - b, p), best(np.linspace(-1, 1, M_)[:, None], b, N_ - 1, p, None), 'fitters-value', str(p), atol=1e-6)
            for p in (1, 2, np.inf):
                st, x = R.attempt(pr.bound_fit, A, b, norm=p)
                if R.check(st == 'ok', 'fitters', str(x)):
                    R.check((b - A @ x).max() <= 1e-6, 'fitters-bound', str(p))
                    R.close(np.linalg.norm(A @ x - b, p), best(np.linspace(-1, 1, M_)[:, None], b, N_ - 1, p, 'upper'), 'fitters-value', 'bound %s' % p, atol=1e-5)
        return
    if kind == 'shadow':
        import os, tempfile, matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        from psdr.pgf import PGF
        with tempfile.TemporaryDirectory() as tmp:
            for m, n in ((2, 1), (3, 1), (3, 2)):
                X = lattice(m, 0); U = orthos(m, n)[2]; fX = profile(n, 2, X @ U)
                pra = PolynomialRidgeApproximation(degree=2, subspace_dimension=n); pra.fit(X, fX, U)
                for ax in ('auto', None, 'given'):
                    for dim in (None, n):
                        for pgf in (None, os.path.join(tmp, 'f%d%s.dat' % (m, n))):
                            for XX in (X, X.tolist()):
                                a = plt.figure().gca() if ax == 'given' else ax
                                st, o = R.attempt(pra.shadow_plot, XX, fX, dim=dim, ax=a, pgfname=pgf)
                                msg = 'm=%d n=%d ax=%s dim=%s pgf=%s' % (m, n, ax, dim, pgf is not None)
                                R.check(st == 'ok', 'shadow-raise', '%s: %s' % (msg, o))
                                plt.close('all')
                                if n == 1 and pgf and st == 'ok':
                                    T = np.genfromtxt(pgf[:-4] + '_response.dat', names=True)
                                    x = T[T.dtype.names[0]]; y = T[T.dtype.names[1]]
                                    R.close(y, np.ravel(pra.profile.eval(x[:, None])), 'shadow-response', msg, atol=1e-6*(1 + np.abs(fX).max()))
                                    R.close([x.min(), x.max()], [(X @ pra.U).min(), (X @ pra.U).max()], 'shadow-range', msg, atol=1e-6)
                                R.state((msg,)); R.step()
                st, o = R.attempt(pra.shadow_plot, X, fX, dim=n + 1, ax=None); R.check(st == 'raise', 'shadow-dim', 'wrong dimension accepted')
