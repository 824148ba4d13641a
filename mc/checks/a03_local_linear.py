"""A03: local linear models, perplexity bandwidths, outer product of gradients"""
import itertools
import numpy as np
from scipy.optimize import brentq
import psdr
from psdr.local_linear import local_linear, local_linear_grads, perplexity_bandwidth, log_entropy
from psdr import OuterProductGradient

PID = 'A03'
BOUND = """Alphabet: every subset of size m+1..5 of the 3-point (m=1: 6-point) lattice per dimension m<=2 and lattices with
 perturbation in dimension 1..4 x bandwidth {none, perplexities over [2,M], .1, 1, 10, 'xia'} x evaluation points {own, one,
 few, more than samples} x affine and nonlinear data x spelling and order of the samples.  Perplexity: distance vectors from all
 those sets and graded families (clustered, equal, duplicated, scaled 1e-6..1e6) x perplexity grid.  OPG: directions x coordinate
 scalings x shift x bandwidth.  Oracle: entropy by bisection, weighted least squares solved independently, true slopes."""
ASSUMPTIONS = ['the slope of affine data is required exactly where the kernel leaves at least m+1 affinely independent samples with weights above 1e-8; elsewhere the model must reproduce the samples that carry weight']


def entropy(beta, d):
    e = np.exp(-beta*(d - d.min())); p = e/e.sum()
    p = p[p > 0]
    return -(p*np.log(p)).sum()


def ref_beta(d, perp):
    """bandwidth attaining the perplexity, None if impossible"""
    d = np.asarray(d, dtype=float); M = len(d)
    lo = np.log(np.sum(d <= d.min()*(1 + 1e-12)))
    if np.ptp(d) == 0: return None
    if np.log(perp) <= lo + 1e-9: return None
    if perp >= M - 1e-9: return 0.
    s = np.ptp(d)
    hi = 1.
    while entropy(hi/s, d) > np.log(perp):
        hi *= 2
        if hi > 1e18: return None
    return brentq(lambda b: entropy(b/s, d) - np.log(perp), 0, hi, xtol=1e-14, rtol=1e-12)/s


def point_sets(m, deep):
    """small sample sets"""
    if m == 1: L = np.array([0., 1, 2, 3.5, 5, 9]).reshape(-1, 1); sizes = (3, 4, 5)
    else: L = np.array(list(itertools.product((0., 1., 2.5), repeat=2))); sizes = (4, 5) if not deep else (4, 5, 6, 7)
    for k in sizes:
        for I in itertools.combinations(range(len(L)), k):
            X = L[list(I)]
            if np.linalg.matrix_rank(np.hstack([np.ones((k, 1)), X])) == m + 1: yield X


def lattice(m):
    ax = {1: np.linspace(-1, 1, 12), 2: np.linspace(-1, 1, 5), 3: np.array([-1, 0, 1.]), 4: np.array([-1, 1.])}[m]
    X = np.array(list(itertools.product(ax, repeat=m)))
    return X + .17*np.array([[np.sin(5*i + 2*j*j + 1) for j in range(m)] for i in range(len(X))])


def cases(tier):
    out = [('perplexity/%s' % k, ('perp', k, tier)) for k in ('sets1', 'sets2', 'graded', 'lattice', 'ties')]
    out += [('small/%d/%d' % (m, k), ('small', m, k, tier)) for m in (1, 2) for k in range(4)]
    out += [('lattice/%d' % m, ('lat', m, tier)) for m in (1, 2, 3, 4)]
    out += [('opg/%d/%s' % (m, s), ('opg', m, s, tier)) for m in (1, 2, 3, 4) for s in (True, False)]
    return out


def perps(M):
    return [p for p in sorted(set([2., 2.5, 3., 4.2, M/2., M - 1., M - .5, M - .01])) if 2 <= p < M]


def check_models(R, X, f, A, Xt, perp, bw, affine, msg):
    M, m = X.shape
    if not R.check(np.shape(A) == (len(Xt), m + 1) and np.all(np.isfinite(A)), 'shape', '%s: %s' % (msg, np.shape(A))): return
    Y = np.hstack([np.ones((M, 1)), X])
    sc = 1 + np.abs(f).max()
    for i, x in enumerate(Xt):
        d = ((X - x)**2).sum(axis=1)
        b = ref_beta(d, perp) if bw is None else .5*bw
        if b is None: continue
        w = np.exp(-.5*b*(d - (d.min() if bw is None else 0)))
        # m+1 affinely independent samples of largest weight
        o = np.argsort(-w, kind='stable'); rows = []
        for k in o:
            if np.linalg.matrix_rank(Y[rows + [k]], tol=1e-8) == len(rows) + 1: rows.append(k)
            if len(rows) == m + 1: break
        if len(rows) < m + 1: continue
        cond = w[rows[-1]]/w[o[0]]
        r = Y @ A[i] - f
        if affine is not None:
            R.check(np.abs(w*r).max() <= 1e-6*sc, 'affine-fit', '%s at %s: misfit %s' % (msg, x, (w*r).tolist()))
        if w.max() > 1e-100 and cond > 1e-5:
            if affine is not None: R.check(np.abs(A[i] - affine).max() <= 1e-6*sc/cond, 'affine-slope', '%s at %s: model %s, data %s' % (msg, x, A[i], affine))
            ref = np.linalg.lstsq(w[:, None]*Y, w*f, rcond=1e-14)[0]
            R.check(np.abs(A[i] - ref).max() <= 1e-6*sc/cond, 'weighted-fit', '%s at %s: model %s, weighted least squares %s' % (msg, x, A[i], ref))
        R.state((msg, i)); R.step()


def run(payload, R):
    kind = payload[0]; deep = payload[-1] == 'thorough'
    if kind == 'perp':
        k = payload[1]
        ds = []
        if k == 'sets1' or k == 'sets2':
            m = int(k[-1])
            for X in point_sets(m, deep):
                for x in list(X) + [X.mean(axis=0) + .1, X[0] + 20.]:
                    ds.append(((X - x)**2).sum(axis=1))
        elif k == 'lattice':
            for m in (1, 2, 3, 4):
                X = lattice(m)
                for x in list(X)[::3] + [np.zeros(m), 2*np.ones(m)]: ds.append(((X - x)**2).sum(axis=1))
        elif k == 'graded':
            for M in (3, 4, 7, 20, 50, 200):
                base = [np.arange(M)**2., np.arange(M) + 0., np.arange(1, M + 1)*1., 2.**np.minimum(np.arange(M), 40), np.sqrt(np.arange(M)), np.hstack([[0], 1 + 1e-3*np.arange(M - 1)]), np.hstack([np.arange(M - 1)*1e-4, [100.]])]
                for d in base:
                    for s in (1e-6, 1e-2, 1., 1e3, 1e6): ds.append(d*s)
        else:
            for d in ([0, 1, 1, 1], [0, 0, 1, 2], [0, 0, 1, 1], [1, 1, 1, 2], [0, 1, 1, 1, 1], [0, 0, 0, 4, 5, 6, 7], [0, 2, 2, 2, 2, 2], [0, 0, 3, 3, 3, 3], [1, 1, 4, 4], [0, 1, 2, 2, 2, 2]): ds.append(np.array(d, dtype=float)); ds.append(np.array(d)*1e-3)
        for d in ds:
            M = len(d)
            for p in perps(M):
                b = ref_beta(d, p)
                if b is None: continue
                dd = d.copy()
                st, o = R.attempt(perplexity_bandwidth, d, p)
                R.state((k, tuple(np.round(d, 9))[:30], p))
                if not R.check(st == 'ok', 'perplexity-raise', 'distances %s perplexity %g: %s' % (d.tolist()[:8], p, o)): continue
                R.check(np.array_equal(d, dd), 'mutates', 'distances')
                R.check(np.isfinite(o) and o >= 0 and abs(entropy(o, d) - np.log(p)) <= 1e-6, 'perplexity', 'distances %s perplexity %g: bandwidth %g gives %g' % (d.tolist()[:8], p, o, np.exp(entropy(o, d))))
                for bb in (o, .3*o, 2*o):
                    st, e = R.attempt(log_entropy, bb, d)
                    R.check(st == 'ok' and abs(e - entropy(bb, d)) <= 1e-9*(1 + abs(e)), 'entropy', 'distances %s beta %g: %s, entropy %g' % (d.tolist()[:8], bb, e, entropy(bb, d)))
                st, o2 = R.attempt(perplexity_bandwidth, d[::-1].copy(), p); R.check(st == 'ok' and abs(o2 - o) <= 1e-7*o + 1e-12, 'perplexity-order', '%s vs %s' % (o, o2))
        return
    if kind == 'small':
        _, m, k, tier = payload
        for n, X in enumerate(point_sets(m, deep)):
            if n % 4 != k: continue
            M = len(X); sets = [(p, None) for p in [None] + perps(M)] + [(None, b) for b in (.1, 1., 10., 'xia')]
            data = [(X @ np.arange(1., m + 1) - .5, np.hstack([[-.5], np.arange(1., m + 1)])), (np.full(M, 3.), np.hstack([[3.], np.zeros(m)])), (X[:, 0]**2 - X[:, -1], None)]
            for (p, bw), (f, aff) in itertools.product(sets, data):
                for Xt in (None, X[:1], X.mean(axis=0).reshape(1, -1) + .1, np.vstack([X, X + .3])):
                    P = X if Xt is None else Xt
                    bb = 2.34*M**(-1./(max(m, 3) + 6)) if bw == 'xia' else bw
                    pe = (min(m + 1, M) if p is None else p) if bw is None else None
                    if bw is None and any(ref_beta(((X - x)**2).sum(axis=1), pe) is None for x in P): continue
                    msg = 'samples %s perplexity %s bandwidth %s at %s' % (X.tolist(), p, bw, 'samples' if Xt is None else Xt.tolist())
                    a, b = X.copy(), f.copy()
                    st, A = R.attempt(local_linear, X, f, perplexity=p, bandwidth=bw, Xt=Xt)
                    if not R.check(st == 'ok', 'raise', '%s: %s' % (msg, A)): continue
                    R.check(np.array_equal(a, X) and np.array_equal(b, f), 'mutates', msg)
                    check_models(R, X, f, A, P, pe, bb, aff, msg)
                    st, g = R.attempt(local_linear_grads, X, f, perplexity=p, bandwidth=bw, Xt=Xt)
                    R.check(st == 'ok' and np.array_equal(g, A[:, 1:]), 'grads', '%s: %s' % (msg, g))
        return
    if kind == 'lat':
        _, m, tier = payload
        X = lattice(m); M = len(X)
        sets = [(p, None) for p in [None] + perps(M)[::2]] + [(None, b) for b in (.01, .1, 1., 5., 'xia')]
        a = np.arange(1., m + 1)
        data = [(X @ a - .5, np.hstack([[-.5], a])), (1e4*(X @ a), np.hstack([[0], 1e4*a])), (np.sin(2*X.sum(axis=1)), None), (X[:, 0]**3 - X[:, -1], None)]
        for (p, bw), (f, aff) in itertools.product(sets, data):
            pe = (m + 1 if p is None else p) if bw is None else None
            bb = 2.34*M**(-1./(max(m, 3) + 6)) if bw == 'xia' else bw
            for Xt in (None, np.zeros((1, m)), X[::4] + .05):
                P = X if Xt is None else Xt
                msg = 'lattice m=%d perplexity %s bandwidth %s' % (m, p, bw)
                st, A = R.attempt(local_linear, X, f, perplexity=p, bandwidth=bw, Xt=Xt)
                if not R.check(st == 'ok', 'raise', '%s: %s' % (msg, A)): continue
                check_models(R, X, f, A, P, pe, bb, aff, msg)
            st, A = R.attempt(local_linear, X, f, perplexity=p, bandwidth=bw)
            I = np.arange(M)[::-1]
            st, B = R.attempt(local_linear, X[I], f[I], perplexity=p, bandwidth=bw); R.check(st == 'ok' and np.allclose(B[I], A, atol=1e-6*(1 + np.abs(f).max())), 'order', msg)
            st, B = R.attempt(local_linear, X.tolist(), f.reshape(-1, 1).tolist(), perplexity=p, bandwidth=bw); R.check(st == 'ok' and np.allclose(B, A), 'spelling', '%s: %s' % (msg, B))
        for p in (1.5, M + 1, 0, -1):
            st, o = R.attempt(local_linear, X, X[:, 0], perplexity=p); R.check(st == 'raise', 'arguments', 'perplexity %g accepted for %d samples' % (p, M))
        st, o = R.attempt(local_linear, X, X[:-1, 0]); R.check(st == 'raise', 'arguments', 'shapes')
        # just enough samples for an affine model
        Z = np.vstack([np.zeros(m), np.eye(m)])
        if m >= 1:
            st, A = R.attempt(local_linear, Z, Z @ a + 2.)
            if m >= 2: R.check(st == 'ok' and np.allclose(A, np.hstack([[2.], a]), atol=1e-6), 'simplex', 'm=%d: %s' % (m, A))
        return
    if kind == 'opg':
        _, m, std, tier = payload
        X = lattice(m)
        dirs = [v for v in itertools.product((-1., 0., 1., 2.), repeat=m) if any(v)]
        if m > 2 and not deep: dirs = dirs[::7] + [tuple(np.eye(m)[0]), tuple(-np.eye(m)[-1])]
        scales = [np.ones(m), np.arange(1., m + 1), 10.**(np.arange(m) - 1.), np.full(m, 100.)]
        kws = [{}, {'perplexity': float(len(X))*.7}, {'bandwidth': 'xia'}, {'bandwidth': .1 if std else None}]
        for v, S, kw in itertools.product(dirs, scales, kws):
            if not std and not np.allclose(S, S[0]): continue
            if not std and S[0] > 1 and 'bandwidth' in kw: continue
            a = np.array(v)
            Z = X*S + 3*S
            fX = Z @ (a/S)*2. + 5.
            tr = (a/S)/np.linalg.norm(a/S)
            msg = 'slope %s scaling %s standardize=%s %s' % (v, S, std, kw)
            o = OuterProductGradient(standardize=std, **kw)
            z, f = Z.copy(), fX.copy()
            st, e = R.attempt(o.fit, Z, fX)
            R.state((v, tuple(S), str(kw))); R.step()
            if not R.check(st == 'ok', 'opg-raise', '%s: %s' % (msg, e)): continue
            R.check(np.array_equal(z, Z) and np.array_equal(f, fX), 'mutates', msg)
            U = o.U
            if not R.check(np.shape(U) == (m, m) and np.all(np.isfinite(U)), 'opg-shape', '%s: %s' % (msg, U)): continue
            R.check(np.abs(U.T @ U - np.eye(m)).max() < 1e-9, 'opg-orthonormal', msg)
            R.check(np.abs(U[:, 0] - tr).max() < 1e-6, 'opg-direction', '%s: %s, slope is along %s' % (msg, U[:, 0], tr))
            o2 = OuterProductGradient(standardize=std, **kw); I = np.arange(len(Z))[::-1]
            st, e = R.attempt(o2.fit, Z[I].tolist(), fX[I].reshape(-1, 1).tolist())
            R.check(st == 'ok' and np.abs(o2.U[:, 0] - tr).max() < 1e-6, 'opg-order', '%s: %s' % (msg, e))
        # a coordinate that does not vary
        if m > 1:
            Z = X.copy(); Z[:, 0] = 2.; fX = 3*Z[:, -1]
            o = OuterProductGradient(standardize=std)
            st, e = R.attempt(o.fit, Z, fX)
            if R.check(st == 'ok', 'opg-dead', 'standardize=%s: %s' % (std, e)): R.check(np.all(np.isfinite(o.U)) and np.abs(o.U[:, 0] - np.eye(m)[-1]).max() < 1e-6, 'opg-dead', '%s' % o.U)
