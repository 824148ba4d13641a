"""I02: Gaussian process models"""
import itertools
import numpy as np
import scipy.linalg
import psdr

PID = 'I02'
BOUND = """Kernel structure {const, scalar_mult (2 matrices), diag, tril} x trend {none, 0, 1, 2} x data sets of 1..9 points in dimension 1..3
 (lattices, scattered, shifted, wide, integer, duplicated) x values {every vector of {-1,0,1}^M on 3 points, smooth, constant, linear, spikes, scaled}
 x nugget {default, 1e-6, .1}; queries on a lattice inside and outside, batch/single/list.  Histories: the same object refitted with every ordered
 pair (triple) of data sets.  Oracle: an independent dense solve of the documented system at the fitted L, own derivative of the
 documented objective by enumerated perturbations of every entry of its parameterization."""
ASSUMPTIONS = ['the coefficients of kernels with condition number above 1e8 are judged only through interpolation and evaluation',
               'the optimizer is local: only descent from its start and stationarity are judged, not global optimality',
               'predicted variance is that of the kernel alone (no trend or nugget term), as the class documents none']
CASE_CPU_LIMIT = 200.
EPS = np.finfo(float).eps


def data(deep):
    P = lambda *a: np.array(a, dtype=float)
    lat = np.array(list(itertools.product([-1., 0., 1.], repeat=2)))
    out = [
        ('1d3', P([-1.], [0.], [1.])),
        ('1d5', P([0.], [.3], [1.], [2.], [2.5])),
        ('1dshift', P([100.], [101.], [103.], [106.])),
        ('1done', P([.5])),
        ('2d4', P([0, 0], [1, 0], [0, 1], [1, 1])),
        ('2d6', P([0, 0], [1, .2], [.3, 1], [-1, .4], [.1, -.8], [.9, .95])),
        ('2d9', lat),
        ('2dwide', lat*np.array([1., 20.]) + np.array([3., -5.])),
        ('2dint', np.array([[0, 0], [2, 1], [1, 3], [4, 4], [-1, 2]])),
        ('2ddup', P([0, 0], [1, .2], [.3, 1], [-1, .4], [1, .2])),
        ('3d7', P([0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1], [-1, .5, .2], [.4, -.7, .9])),
    ]
    if deep:
        out += [('3d11', np.vstack([np.eye(3), -np.eye(3), 2*P([1, 1, 1], [1, -1, 1], [-1, 1, 1], [1, 1, -1], [.1, .2, .3])])),
                ('2d16', np.array(list(itertools.product([-1., -.3, .4, 1.], repeat=2)))),
                ('4d8', np.vstack([np.eye(4), -np.eye(4)*.7]))]
    return out


def values(X, lab, deep):
    X = np.asarray(X, dtype=float); M, m = X.shape
    U = (X - X.min(axis=0))/np.maximum(np.ptp(X, axis=0), 1e-300)
    s = np.sin(2*U @ np.arange(1., m + 1)) + .5*U[:, 0]**2
    out = [('smooth', s), ('alt', (-1.)**np.round(U.sum(axis=1)*3) + .1*U[:, -1]), ('big', 1e4*s + 1e5), ('spike', np.eye(M)[M//2])]
    if deep or lab in ('1d3', '2d6'):
        out += [('const', np.full(M, 3.)), ('lin', 2 + U @ np.arange(1., m + 1)), ('zero', np.zeros(M)), ('small', 1e-5*s)]
    if lab == '1d3' or (deep and M <= 5): out += [('v%s' % (v,), np.array(v, dtype=float)) for v in itertools.product((-1, 0, 1), repeat=M)]
    if 'dup' in lab:
        out = [(a, f) for a, f in out if abs(f[1] - f[4]) < 1e-14]
    return out


def structs(m):
    F = np.tril(np.arange(1., m*m + 1).reshape(m, m)/m + np.eye(m))/m
    return [('const', None), ('scalar_mult', np.eye(m)*.5), ('scalar_mult', F), ('diag', None), ('tril', None)]


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for lab, X in data(deep):
        for deg in (None, 0, 1, 2):
            if deg == 2 and X.shape[1] > 2 and not deep: continue
            out.append(('fit/%s/%s' % (lab, deg), ('fit', lab, deg, tier)))
    for st in range(5):
        out.append(('history/%d' % st, ('history', st, tier)))
    out.append(('derivative', ('derivative', tier)))
    return out


def make(st, F, deg, **kw):
    if F is not None: kw['Lfixed'] = F.copy()
    return psdr.GaussianProcess(structure=st, degree=deg, **kw)


def kern(L, A, B):
    A = np.asarray(A, dtype=float) @ L.T; B = np.asarray(B, dtype=float) @ L.T
    return np.exp(-.5*np.sum((A[:, None] - B[None])**2, axis=2))


def objective(L, X, V, y, tau):
    """documented objective, with the range of V eliminated"""
    K = kern(L, X, X) + tau*np.eye(len(X))
    Q, r, _ = scipy.linalg.qr(V, pivoting=True) if V.shape[1] else (np.eye(len(X)), np.zeros((0, 0)), None)
    rk = int(np.sum(np.abs(np.diag(r)) > 1e-10*max(abs(r[0, 0]), 1e-300))) if V.shape[1] else 0
    Z = Q[:, rk:]
    z = np.linalg.solve(Z.T @ K @ Z, Z.T @ y) if Z.shape[1] else np.zeros(0)
    sg, ld = np.linalg.slogdet(K)
    return .5*(Z.T @ y) @ z + .5*ld, Z @ z


def vander(X, X0, deg):
    X = np.asarray(X, dtype=float); X0 = np.asarray(X0, dtype=float)
    lo = X0.min(axis=0); w = np.ptp(X0, axis=0); w = np.where(w > 0, w, 1.)
    U = (X - lo)/w
    if deg is None: return np.zeros((len(X), 0))
    m = U.shape[1]
    return np.array([np.prod(U**np.array(a), axis=1) for a in itertools.product(range(deg + 1), repeat=m) if sum(a) <= deg]).T


def check_fit(gp, st, F, deg, X, y, tau, R, msg, deep):
    M, m = X.shape
    L = np.asarray(gp.L)
    if not R.check(L.shape == (m, m) and np.all(np.isfinite(L)), 'L-shape', '%s: L=%s' % (msg, L)): return
    if st == 'const': R.close(L, L[0, 0]*np.eye(m), 'L-structure', msg); R.check(L[0, 0] >= 0, 'L-sign', msg)
    elif st == 'scalar_mult':
        c = (L*F).sum()/(F*F).sum(); R.close(L, c*F, 'L-structure', msg, atol=1e-12*abs(c)); R.check(c >= 0, 'L-sign', msg)
    elif st == 'diag': R.close(L, np.diag(np.diag(L)), 'L-structure', msg); R.check(np.all(np.diag(L) >= 0), 'L-sign', '%s: %s' % (msg, L))
    else: R.close(L, np.tril(L), 'L-structure', msg, atol=1e-12*np.abs(L).max()); R.check(np.all(np.diag(L) >= -1e-10*np.abs(L).max()), 'L-sign', '%s: %s' % (msg, L))
    s = max(np.abs(y).max(), 1e-300)
    K = kern(L, X, X); Kt = K + tau*np.eye(M)
    V = vander(X, X, deg)
    cond = np.linalg.cond(Kt)
    fX = gp(X)
    R.check(np.shape(fX) == (M,), 'shape', '%s: %s' % (msg, np.shape(fX)))
    R.state((np.round(np.log(np.maximum(np.abs(np.diag(L)), 1e-9)), 2),))
    alpha, beta = np.asarray(gp.alpha), np.asarray(gp.beta)
    R.close(fX/s, y/s - tau*alpha/s, 'data', '%s: cond %.1e' % (msg, cond), atol=1e-12 + 1e3*EPS*max(cond, 1e3)) if cond < 1e10 else None
    # evaluation is the documented sum at any coefficient vector
    lo, w = X.min(axis=0).astype(float), np.ptp(X, axis=0).astype(float); w = np.where(w > 0, w, 1.)
    Q = lo + w*np.array(list(itertools.product([-.3, .1, .55, 1.4] if m < 3 else [-.3, .4, 1.1], repeat=m)))
    fQ, cov = gp.eval(Q, return_cov=True)
    R.check(np.shape(fQ) == (len(Q),) and np.shape(cov) == (len(Q),), 'shape', '%s: %s %s' % (msg, np.shape(fQ), np.shape(cov)))
    R.close(gp(Q), fQ, 'call-eval', msg); R.close(gp.predict(Q), fQ, 'predict', msg)
    kern_part = kern(L, Q, X) @ alpha
    rest = fQ - kern_part
    VQ = vander(Q, X, deg)
    # the trend part is a polynomial of the degree: fit on queries
    mag = s + np.abs(alpha).sum() + np.abs(rest).max()
    if deg is None: R.close(rest/mag, 0*rest, 'trend', msg, atol=1e-12)
    else:
        c, *_ = np.linalg.lstsq(VQ, rest, rcond=1e-12)
        R.close(VQ @ c/mag, rest/mag, 'trend', '%s: not a polynomial of degree %s' % (msg, deg), atol=1e-10)
        R.close(np.abs(V.T @ alpha).max()/max(np.abs(alpha).sum(), s), 0., 'alpha-trend', '%s: V^T alpha' % msg, atol=1e-7 if cond < 1e10 else 1e-4)
    R.check(np.all(cov >= 0) and np.all(cov <= 1 + 1e-8), 'cov-range', '%s: %s' % (msg, cov))
    cX = gp.eval(X, return_cov=True)[1]
    if tau <= 1e-12: R.check(np.all(np.abs(cX) < (1e-4 if cond < 1e10 else 1e-3)), 'cov-data', '%s: cond %.1e %s' % (msg, cond, cX))
    if cond < 1e8:
        k = kern(L, Q, X)
        if tau <= 1e-12: R.close(cov, 1 - np.sum(k*np.linalg.solve(K, k.T).T, axis=1), 'cov', msg, atol=1e-13*cond + 1e-10)
        o, a = objective(L, X, V, y, tau)
        R.close(alpha/max(np.abs(a).max(), s), a/max(np.abs(a).max(), s), 'alpha', msg, atol=1e-8 + 1e-13*cond)
        # posterior mean formula, from an own solve
        r = y - Kt @ a
        c = np.linalg.lstsq(V, r, rcond=1e-10)[0] if V.shape[1] else np.zeros(0)
        unis = V.shape[1] == 0 or (np.linalg.matrix_rank(V, tol=1e-8) == V.shape[1])
        if unis:
            E = k @ a + VQ @ c
            R.close(fQ/max(np.abs(E).max(), s), E/max(np.abs(E).max(), s), 'posterior', msg, atol=1e-8 + 1e-13*cond)
        if np.abs(a).max() > 1e-6*s: stationary(L, st, F, X, V, y, tau, R, msg)
    else:
        R.step()
    # batch = single = list
    for j in (0, len(Q)//2, len(Q) - 1):
        a1, c1 = gp.eval(Q[j:j + 1], return_cov=True)
        sc = max(np.abs(fQ).max(), np.abs(alpha).max())
        R.close(a1/sc if sc else a1, fQ[j:j + 1]/sc if sc else fQ[j:j + 1], 'batch', msg, atol=1e-12); R.close(c1, cov[j:j + 1], 'batch-cov', msg, atol=1e-6)
        for q in (Q[j], Q[j].tolist(), [Q[j].tolist()]):
            sti, v = R.attempt(gp, q)
            if R.check(sti == 'ok', 'single', '%s: gp(%s) raises %s' % (msg, type(q).__name__, v)):
                R.close(np.ravel(v)/sc if sc else np.ravel(v), fQ[j:j + 1]/sc if sc else fQ[j:j + 1], 'single-value', msg, atol=1e-12)
    R.step(6)


def moves(st, m):
    if st in ('const', 'scalar_mult'): return [('scale', None)]
    if st == 'diag': return [('e', (i, i)) for i in range(m)]
    return [('e', (i, j)) for i in range(m) for j in range(i + 1)]


def param(L, st, F):
    if st == 'const': return np.array([np.log(L[0, 0])])
    if st == 'scalar_mult': return np.array([np.log((L*F).sum()/(F*F).sum())])
    if st == 'diag': return np.log(np.diag(L))
    G = np.real(scipy.linalg.logm(L)); return G[np.tril_indices(len(L))]


def unparam(t, st, F, m):
    if st == 'const': return np.exp(t[0])*np.eye(m)
    if st == 'scalar_mult': return np.exp(t[0])*F
    if st == 'diag': return np.diag(np.exp(t))
    G = np.zeros((m, m)); G[np.tril_indices(m)] = t
    return scipy.linalg.expm(G)


def stationary(L, st, F, X, V, y, tau, R, msg):
    t = param(L, st, F); m = X.shape[1]
    f0 = objective(L, X, V, y, tau)[0]
    sc = 1 + abs(f0)
    for i in range(len(t)):
        for h in (1e-2, -1e-2):
            e = t.copy(); e[i] += h
            Lh = unparam(e, st, F, m)
            if np.linalg.cond(kern(Lh, X, X) + tau*np.eye(len(X))) > 1e9: continue
            f1 = objective(Lh, X, V, y, tau)[0]
            R.check(f1 > f0 - 2e-3*sc, 'stationary', '%s: objective %.8g falls to %.8g when parameter %d moves by %g' % (msg, f0, f1, i, h))
    # not worse than at its (default) start
    for L0 in (np.e*np.eye(m) if F is None else np.e*F,):
        if np.linalg.cond(kern(L0, X, X) + tau*np.eye(len(X))) > 1e9 or st == 'tril': continue
        R.check(f0 <= objective(L0, X, V, y, tau)[0] + 1e-6*sc, 'descent', '%s: objective %.8g above that of L=e L0' % (msg, f0))


def run(payload, R):
    deep = payload[-1] == 'thorough'
    if payload[0] == 'fit':
        lab, deg = payload[1:3]
        X = dict(data(deep))[lab]
        M, m = X.shape
        for st, F in structs(m):
            if st == 'tril' and m == 1 and not deep: continue
            for nug in (None, 1e-6, .1):
                for vl, y in values(X, lab, deep):
                    if nug is not None and vl not in ('smooth', 'alt'): continue
                    msg = '%s deg=%s %s%s y=%s nugget=%s' % (lab, deg, st, '' if F is None else '(%g)' % F[-1, 0], vl, nug)
                    gp = make(st, F, deg, **({} if nug is None else {'nugget': nug}))
                    Xc, yc = X.copy(), y.copy()
                    with np.errstate(all='ignore'):
                        sti, v = R.attempt(gp.fit, Xc, yc)
                    if not R.check(sti == 'ok', 'fit', '%s: %s' % (msg, v)): continue
                    R.check(np.array_equal(Xc, X) and np.array_equal(yc, y), 'mutates', msg)
                    Xc[:] = 0; yc[:] = 0
                    check_fit(gp, st, F, deg, X, y, 5*EPS if nug is None else nug, R, msg, deep)
    elif payload[0] == 'history':
        D = {k: v for k, v in data(deep) if k in ('1d3', '2d4', '2d6', '3d7', '1d5')}
        runs = []
        for seq in itertools.permutations(D, 3 if deep else 2):
            for deg in (None, 1):
                st, F = structs(D[seq[-1]].shape[1])[payload[1]]
                if st == 'scalar_mult' and len({D[k].shape[1] for k in seq}) > 1: continue
                gp = make(st, F, deg, nugget=1e-6)
                for k in seq:
                    y = values(D[k], k, deep)[0][1]
                    gp.fit(D[k], y)
                    g1 = make(st, F, deg, nugget=1e-6); g1.fit(D[k].tolist(), y.tolist())
                    Q = D[k] + .17
                    msg = '%s %s after %s' % (st, deg, seq[:seq.index(k)])
                    if np.linalg.cond(kern(g1.L, D[k], D[k])) < 1e6:
                        R.close(gp.L, g1.L, 'refit', msg, atol=1e-5*np.abs(g1.L).max())
                        R.close(gp(Q), g1(Q), 'refit-value', msg, atol=1e-4); R.close(gp.eval(Q, return_cov=True)[1], g1.eval(Q, return_cov=True)[1], 'refit-cov', msg, atol=1e-4)
                    R.step()
                check_fit(gp, st, F, deg, D[seq[-1]], y, 1e-6, R, msg, deep)
    else:
        for lab, X in data(deep):
            M, m = X.shape
            if M < 3 or 'dup' in lab: continue
            for st, F in structs(m):
                for deg in (None, 0, 1, 2):
                    V = vander(X, X, deg)
                    if V.shape[1] > M: continue
                    for vl, y in values(X, lab, False)[:2]:
                        gp = make(st, F, deg)
                        if not all(hasattr(gp, a) for a in ('_fit_init', '_obj', '_grad')): R.skip('no private objective') if hasattr(R, 'skip') else None; continue
                        sti, v = R.attempt(gp._fit_init, X.astype(float), y)
                        if sti != 'ok': continue
                        n = len(moves(st, m))
                        w = np.ptp(X, axis=0).max()
                        for t0 in (0., .7, -.4):
                            base = np.log(M**(1./m)/w) + t0
                            t = np.full(n, base) if st != 'tril' else np.array([base if i == j else .3*(-1)**j*t0 for i in range(m) for j in range(i + 1)])
                            L = unparam(t, st, F, m)
                            if np.linalg.cond(kern(L, X, X)) > 1e6: continue
                            msg = '%s %s deg=%s %s t=%s' % (lab, st, deg, vl, t)
                            with np.errstate(all='ignore'):
                                sti, g = R.attempt(gp._grad, t)
                                sto, o = R.attempt(gp._obj, t)
                            if sti != 'ok' or sto != 'ok': continue
                            o0 = objective(L, X, V, y, 5*EPS)[0]
                            R.close(float(o), o0, 'objective', msg, atol=1e-6, rtol=1e-6)
                            fd = []
                            for i in range(n):
                                d = []
                                for h in (1e-3, 5e-4):
                                    e = np.eye(n)[i]*h
                                    d.append((objective(unparam(t + e, st, F, m), X, V, y, 5*EPS)[0] - objective(unparam(t - e, st, F, m), X, V, y, 5*EPS)[0])/(2*h))
                                fd.append((4*d[1] - d[0])/3)
                            R.close(np.ravel(g), fd, 'derivative', msg, atol=1e-5*(1 + abs(o0)), rtol=1e-5)
                            R.step(); R.state((lab, st, deg, np.round(t, 2)))
