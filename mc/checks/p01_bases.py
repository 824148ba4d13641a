"""P01: bases of polynomials"""
import itertools
from math import comb, factorial
import numpy as np
import psdr
from psdr import basis as B
from psdr import vandermonde as VA

PID = 'P01'
BOUND = """Alphabet: 5 tensor bases x dimension 1..3 (4) x degree 0..4 (6) x scaling {none, unit box, shifted/anisotropic,
 tiny, huge, integer data, a constant coordinate, a single point, rescaled afterwards} x every spelling of the query (batch,
 permuted batch, single point, list, integers, no points) x coefficient arrays (every unit vector, zero, dense, several
 columns).  Arnoldi bases: dimension 1..3 x degree x point sets (lattice, shifted, integer, duplicated) and the
 polyfitA/polyvalA pair.  Oracle: univariate polynomials, first and second derivatives from their defining sums in monomial
 form, multiplied out per multi-index; spans by reproduction of every monomial; roots by multiplying out linear factors."""
ASSUMPTIONS = ['floating point answers are compared to relative accuracy 1e-8 of the size of the column']

NAMES = ['Monomial', 'Legendre', 'Chebyshev', 'Laguerre', 'Hermite']


def uni(name, k):
    """coefficients (ascending) of the k-th polynomial from the explicit sum"""
    c = np.zeros(k + 1)
    if name == 'Monomial': c[k] = 1.
    elif name == 'Legendre':
        for j in range(k//2 + 1):
            c[k - 2*j] += (-1)**j*comb(k, j)*comb(2*k - 2*j, k)/2.**k
    elif name == 'Chebyshev':
        if k == 0: c[0] = 1.
        else:
            for j in range(k//2 + 1):
                c[k - 2*j] += k/2.*(-1)**j*factorial(k - j - 1)/(factorial(j)*factorial(k - 2*j))*2.**(k - 2*j)
    elif name == 'Laguerre':
        for j in range(k + 1): c[j] += (-1)**j*comb(k, j)/float(factorial(j))
    elif name == 'Hermite':
        for j in range(k//2 + 1):
            c[k - 2*j] += (-1)**j*factorial(k)/(factorial(j)*factorial(k - 2*j))*2.**(k - 2*j)
    return c


def ev(c, x, d=0):
    y = np.zeros(np.shape(x))
    for j in range(d, len(c)):
        f = 1.
        for i in range(d): f *= (j - i)
        y = y + c[j]*f*np.asarray(x, dtype=float)**(j - d)
    return y


def datasets(m):
    """scaling data"""
    G = np.array(list(itertools.product([-1., 1.], repeat=m)))
    out = [('unit', G), ('none', None)]
    c = np.arange(1, m + 1)*1.5; w = 2.**np.arange(m)
    out.append(('aniso', np.vstack([G*w + c, c + .3*w])))
    out.append(('tiny', G*1e-5 + c))
    out.append(('huge', G*1e5 - 3e4))
    out.append(('ints', np.array(list(itertools.product([0, 3], repeat=m)) + [(1,)*m], dtype=int)))
    H = G*w + c; H[:, -1] = 2.
    out.append(('const', H))
    out.append(('point', c.reshape(1, -1)))
    out.append(('reset', np.vstack([G*w + c, c - 1.])))
    return out


def queries(m, X):
    lo, hi = (np.full(m, -1.), np.full(m, 1.)) if X is None else (X.min(axis=0).astype(float), X.max(axis=0).astype(float))
    w = np.where(hi > lo, hi - lo, 1.)
    t = {1: [-.25, 0., .5, .75, 1., 1.25], 2: [-.25, 0., .625, 1.], 3: [0., .4, 1.25], 4: [0., .7]}[m]
    return np.array([lo + np.array(u)*w for u in itertools.product(t, repeat=m)])


def cases(tier):
    out = []
    deep = tier == 'thorough'
    for m in range(1, 6):
        out.append(('indices/%d' % m, ('indices', m, tier)))
    for m in range(1, 5 if deep else 4):
        for d in range(0, (7 if m < 3 else 5) if deep else (5 if m < 3 else 4)):
            for n in NAMES:
                for lab, _ in datasets(m):
                    out.append(('tensor/%s/m%d-d%d/%s' % (n, m, d, lab), ('tensor', n, m, d, lab, tier)))
    for m in range(1, 4):
        for d in range(0, 5 if m < 3 else 3):
            for lab in ('lattice', 'shift', 'ints', 'dup', 'exact'):
                out.append(('arnoldi/m%d-d%d/%s' % (m, d, lab), ('arnoldi', m, d, lab, tier)))
    for n in NAMES:
        for lab, _ in datasets(1):
            out.append(('roots/%s/%s' % (n, lab), ('roots', n, lab, tier)))
    return out


def ref_scale(name, X, m):
    """reference scaling: u = a*(x - c)"""
    if X is None: return np.ones(m), np.zeros(m)
    X = np.asarray(X, dtype=float)
    if name == 'Hermite':
        mu = np.array([sum(col)/len(col) for col in X.T]); sd = np.sqrt(np.array([sum((col - c)**2)/len(col) for col, c in zip(X.T, mu)]))
        ok = np.ptp(X, axis=0) > 0
        return np.where(ok, 1./np.where(ok, sd, 1.)/np.sqrt(2.), np.nan), mu
    lo, hi = X.min(axis=0), X.max(axis=0)
    ok = hi > lo
    return np.where(ok, 2./np.where(ok, hi - lo, 1.), np.nan), (lo + hi)/2.


def span_check(Vf, m, d, Q, R, msg):
    """columns of V span exactly the polynomials of total degree d (Q unisolvent lattice)"""
    lo, hi = Q.min(axis=0), Q.max(axis=0); U = 2*(Q - lo)/(hi - lo) - 1
    idx = [a for a in itertools.product(range(d + 1), repeat=m) if sum(a) <= d]
    M = np.array([np.prod([U[:, k]**a[k] for k in range(m)], axis=0) for a in idx]).T
    V = Vf(Q)
    R.step()
    if not R.check(V.shape == M.shape, 'span-size', '%s V %s, expected %s' % (msg, V.shape, M.shape)): return
    V = V/np.maximum(np.linalg.norm(V, axis=0), 1e-300)
    r1 = V - M @ np.linalg.lstsq(M, V, rcond=None)[0]
    R.check(np.linalg.norm(r1) < 1e-7, 'span-outside', '%s columns are not polynomials of degree %d: %g' % (msg, d, np.linalg.norm(r1)))
    r2 = M - V @ np.linalg.lstsq(V, M, rcond=1e-13)[0]
    R.check(np.linalg.norm(r2) < 1e-6, 'span-missing', '%s some polynomial of degree %d is missing: %g' % (msg, d, np.linalg.norm(r2)))


def lattice(m, d):
    """unisolvent for degree d"""
    return np.array(list(itertools.product(range(d + 2), repeat=m)), dtype=float)


def run(payload, R):
    kind = payload[0]
    if kind == 'indices':
        m, tier = payload[1:]
        for d in range(0, {1: 12, 2: 9, 3: 7, 4: 5, 5: 4}[m]):
            I = np.asarray(B.index_set(d, m)); R.step()
            want = sorted(a for a in itertools.product(range(d + 1), repeat=m) if sum(a) <= d)
            R.check(I.shape == (len(want), m) and sorted(map(tuple, I.tolist())) == want, 'index-set', 'index_set(%d,%d)' % (d, m))
            R.check(np.all(np.diff(I.sum(axis=1)) >= 0), 'index-order', 'index_set(%d,%d) not graded' % (d, m))
            R.state((d, m, I))
            b = psdr.LegendreTensorBasis(d, dim=m)
            R.check(len(b) == len(want), 'len', '%d %d' % (d, m))
        return
    if kind == 'tensor':
        _, name, m, d, lab, tier = payload
        X = dict(datasets(m))[lab]
        cls = getattr(psdr, name + 'TensorBasis')
        if X is None: b = cls(d, dim=m)
        elif lab == 'reset':
            X0 = X + 5. ; b = cls(d, X=X0.copy()); b.set_scale(X.copy())
        else:
            Xc = X.copy(); b = cls(d, X=Xc)
            R.check(np.array_equal(Xc, X), 'mutates', 'constructor')
        other = cls(d, X=np.vstack([np.zeros(m), np.full(m, 7.)]))        # a second object must not interfere
        a, c = ref_scale(name, X, m)
        const = ~np.isfinite(a)
        I = np.asarray(b.indices)
        Q = queries(m, X)
        # a constant coordinate cannot be scaled to [-1,1]; any nonzero slope is allowed there, read it off the basis
        if d >= 1 and np.any(const):
            V0 = b.V(Q.copy())
            if not R.check(np.all(np.isfinite(V0)), 'finite', '%s: V not finite' % (payload,)): return
        P = [uni(name, k) for k in range(d + 1)]
        W = np.array(Q)
        if np.any(const):
            J = np.where(const)[0]
            aa = a.copy()
            for j in J:
                # slope: from the derivative of the linear polynomial in coordinate j at c
                if d == 0: aa[j] = 1.
                else:
                    col = [i for i, al in enumerate(I.tolist()) if sum(al) == 1 and al[j] == 1][0]
                    g = b.DV(Q.copy())[:, col, j]/ev(P[1], 0., 1)
                    if not R.check(np.all(np.isfinite(g)) and np.ptp(g) < 1e-9*abs(g[0]) and abs(g[0]) > 0, 'const-slope', '%s: slope %s' % (payload, g)): return
                    aa[j] = g[0]
            a = aa
        U = (W - c)*a
        val = [[ev(P[k], U[:, i]) for k in range(d + 1)] for i in range(m)]
        d1 = [[ev(P[k], U[:, i], 1)*a[i] for k in range(d + 1)] for i in range(m)]
        d2 = [[ev(P[k], U[:, i], 2)*a[i]**2 for k in range(d + 1)] for i in range(m)]
        N, M = len(I), len(Q)
        V = np.ones((M, N)); DV = np.ones((M, N, m)); DDV = np.ones((M, N, m, m))
        for j, al in enumerate(I.tolist()):
            for i in range(m):
                V[:, j] *= val[i][al[i]]
                for k in range(m):
                    DV[:, j, k] *= (d1 if i == k else val)[i][al[i]]
                    for l in range(m):
                        DDV[:, j, k, l] *= (d2 if i == k == l else d1 if i in (k, l) else val)[i][al[i]]
        sv = np.maximum(np.abs(V).max(axis=0), 1.)
        sd = np.maximum(np.abs(DV).max(axis=0), np.abs(a)*sv[:, None])
        sdd = np.maximum(np.abs(DDV).max(axis=0), sv[:, None, None]*np.abs(np.outer(a, a)))
        tol = 1e-6 if lab in ('tiny',) else 1e-8

        def near(A, E, s, sig, msg):
            return R.check(np.shape(A) == E.shape and np.all(np.abs(A - E) <= tol*s), sig,
                           lambda: '%s %s: %s' % (payload[1:5], msg, np.shape(A) if np.shape(A) != E.shape else np.abs((A - E)/s).max()))
        Qc = Q.copy()
        near(b.V(Qc), V, sv, 'V', 'V'); near(b.DV(Qc), DV, sd, 'DV', 'DV'); near(b.DDV(Qc), DDV, sdd, 'DDV', 'DDV')
        R.step(3)
        R.check(np.array_equal(Qc, Q), 'mutates', 'queries modified')
        R.state((name, m, d, lab, np.round(b.V(Q), 4)))
        # permuted batch, single points, spellings
        pi = np.arange(M)[::-1]
        near(b.V(Q[pi]), V[pi], sv, 'V-batch', 'reversed'); near(b.DV(Q[pi]), DV[pi], sd, 'DV-batch', 'reversed'); near(b.DDV(Q[pi]), DDV[pi], sdd, 'DDV-batch', 'reversed')
        for i in range(0, M, max(1, M//4)):
            near(b.V(Q[i]), V[i:i+1], sv, 'V-single', 'x=%s' % Q[i]); near(b.DV(Q[i]), DV[i:i+1], sd, 'DV-single', 'x'); near(b.DDV(Q[i]), DDV[i:i+1], sdd, 'DDV-single', 'x')
            near(b.VC(Q[i], np.ones(N)), V[i:i+1].sum(axis=1), sv.sum(), 'VC-single', 'x')
        for fn, E, s in ((b.V, V, sv), (b.DV, DV, sd), (b.DDV, DDV, sdd), (lambda x: b.VC(x, np.eye(N)), V, sv)):
            st, o = R.attempt(fn, Q.tolist())
            if R.check(st == 'ok', 'list', '%s: %s' % (payload[1:5], o)): near(o, E, s, 'list-value', 'list')
        Qi = np.array(list(itertools.product([0, 1, 3], repeat=m)))
        for nm in ('V', 'DV', 'DDV'):
            st, o = R.attempt(getattr(b, nm), Qi)
            ref = getattr(b, nm)(Qi.astype(float))
            if R.check(st == 'ok', 'int', '%s %s of integer points: %s' % (payload[1:5], nm, o)):
                R.check(np.shape(o) == ref.shape and np.allclose(o, ref, rtol=1e-12), 'int-value', '%s %s' % (payload[1:5], nm))
        near(b.V(np.zeros((0, m))), V[:0], sv, 'V-none', 'no points')
        # stored points
        if X is not None:
            Xs = X if lab != 'reset' else X0
            st, o = R.attempt(b.V)
            if R.check(st == 'ok', 'V-default', str(o)): R.check(np.allclose(o, b.V(np.asarray(Xs, dtype=float)), rtol=1e-10), 'V-default-value', str(payload))
        # products
        Cs = [np.eye(N)[j] for j in range(N)] + [np.zeros(N), np.ones(N), np.arange(N) - 1.]
        for cc in Cs:
            near(b.VC(Q, cc), V @ cc, sv @ np.abs(cc) + 1e-300, 'VC', 'c=%s' % cc)
        C2 = np.array(Cs[-3:] + Cs[:2]).T
        c0 = C2.copy()
        near(b.VC(Q, C2), V @ C2, (sv @ np.abs(C2) + 1e-300), 'VC-columns', 'matrix')
        R.check(np.array_equal(C2, c0), 'mutates', 'coefficients modified')
        st, o = R.attempt(b.VC, Q, [int(v) for v in np.arange(N)])
        if R.check(st == 'ok', 'VC-list', str(o)): near(o, V @ np.arange(N), sv.sum()*N, 'VC-list-value', 'list')
        R.step(len(Cs) + 2)
        if not np.any(const):
            L = lattice(m, d)
            span_check(b.V, m, d, (L/L.max() - .5)*2/np.abs(a) + c, R, str(payload[1:5]))
        # asking for other things does not change answers
        near(b.V(Q), V, sv, 'V-again', 'second time')
        if X is not None and lab != 'reset':
            X2 = X + 1.; st, o = R.attempt(b.set_scale, X2.tolist())
            a2, c2 = ref_scale(name, X2, m)
            if R.check(st == 'ok', 'set-scale', str(o)) and not np.any(const) and d >= 1:
                near(b.V(Q + 1.), V, sv, 'set-scale-value', 'after set_scale')
        return
    if kind == 'roots':
        _, name, lab, tier = payload
        X = dict(datasets(1))[lab]
        cls = getattr(psdr, name + 'TensorBasis')
        for zs in ([.5], [-.5, .25], [-.75, 0., .5], [-.9, -.25, .25, .8], [2., -3.]):
            d = len(zs)
            st, b = R.attempt(lambda: cls(d, dim=1) if X is None else cls(d, X=X))
            if not R.check(st == 'ok', 'build', str(b)): return
            a, c = ref_scale(name, X, 1)
            if not np.isfinite(a[0]): return
            z = np.array(zs)/a[0] + c[0]
            Q = queries(1, X)
            Qu = np.linspace(-1.5, 1.5, 2*d + 2)/a[0] + c[0]
            cf = np.linalg.lstsq(b.V(Qu.reshape(-1, 1)), np.prod((Qu[:, None] - c[0])*a[0] - np.array(zs)[None, :], axis=1), rcond=None)[0]
            st, r = R.attempt(b.roots, cf)
            if R.check(st == 'ok', 'roots', '%s %s: %s' % (name, lab, r)):
                r = np.asarray(r)
                R.check(len(r) == d and np.allclose(np.sort(r.real), np.sort(z), atol=1e-5/a[0], rtol=0) and np.abs(r.imag).max() < 1e-4/a[0], 'roots-value', lambda: '%s %s roots %s expected %s' % (name, lab, r, z))
                R.check(np.all(np.abs(b.VC(np.real(r).reshape(-1, 1), cf)) < 1e-5), 'roots-zero', '%s %s' % (name, lab))
            R.state((name, lab, zs, r))
        st, r = R.attempt(cls(2, dim=2).roots, np.ones(6))
        R.check(st == 'raise', 'roots-multi', 'roots of a polynomial in two variables')
        return
    if kind == 'arnoldi':
        _, m, d, lab, tier = payload
        L = lattice(m, d)
        if lab == 'lattice': X = L/L.max()*2 - 1
        elif lab == 'shift': X = L*np.arange(1, m + 1) + 3.
        elif lab == 'ints': X = L.astype(int)
        elif lab == 'dup': X = np.vstack([L, L[:3]])/2.
        else:
            X = np.array([a for a in L if sum(a) <= d])         # exactly as many points as polynomials
            if d == 0: X = np.full((1, m), .5)
        X0 = X.copy()
        b = psdr.ArnoldiPolynomialBasis(d, X)
        N = len([a for a in itertools.product(range(d + 1), repeat=m) if sum(a) <= d])
        R.check(len(b) == N, 'arnoldi-len', str(payload))
        V = np.array(b.V()); R.step()
        R.check(V.shape == (len(X), N), 'arnoldi-shape', '%s' % (V.shape,))
        R.close(V.T @ V, np.eye(N), 'arnoldi-orth', str(payload), atol=1e-7)
        lo, hi = X.min(axis=0), X.max(axis=0)
        w = np.where(hi > lo, hi - lo, 1.)
        Q = np.array([lo + np.array(u)*w for u in itertools.product([-.1, .3, .55, 1.05], repeat=m)])
        # representation in monomials of scaled coordinates determined on an independent lattice
        Z = lo + L/L.max()*w if L.max() > 0 else lo + L
        idx = [a_ for a_ in itertools.product(range(d + 1), repeat=m) if sum(a_) <= d]
        mon = lambda Y: np.array([np.prod([((Y[:, k] - lo[k])/w[k])**al[k] for k in range(m)], axis=0) for al in idx]).T
        Xf = X.astype(float)
        C = np.linalg.lstsq(mon(Xf), V, rcond=None)[0]       # V is exactly polynomial on X
        R.check(np.abs(mon(Xf) @ C - V).max() < 1e-7, 'arnoldi-poly', str(payload))
        sc = max(1., np.abs(C).max())
        R.close(b.V(Q), mon(Q) @ C, 'arnoldi-V', str(payload), atol=1e-6*sc, rtol=1e-6)
        R.close(b.V(X), V, 'arnoldi-V-data', str(payload), atol=1e-8)
        R.close(b.V(Xf[::-1]), V[::-1], 'arnoldi-V-perm', str(payload), atol=1e-7*sc)
        dmon = np.zeros((len(Q), N, m))
        dmx = np.zeros((len(X), N, m))
        for Y, D in ((Q, dmon), (Xf, dmx)):
            for j, al in enumerate(idx):
                for k in range(m):
                    if al[k]: D[:, j, k] = al[k]/w[k]*np.prod([((Y[:, i] - lo[i])/w[i])**(al[i] - (i == k)) for i in range(m)], axis=0)
        E = np.einsum('qjk,jn->qnk', dmon, C); Ex = np.einsum('qjk,jn->qnk', dmx, C)
        s = 1e-5*sc/w.min()
        R.close(b.DV(Q), E, 'arnoldi-DV', str(payload), atol=s, rtol=1e-6)
        R.close(b.DV(), Ex, 'arnoldi-DV-data', str(payload), atol=s, rtol=1e-6)
        R.close(b.DV(X), Ex, 'arnoldi-DV-data2', str(payload), atol=s, rtol=1e-6)
        # values and derivatives belong to the points asked about, however close these are to the data
        for h in (1e-3, 1e-5, 1e-7, 1e-9):
            for sg in itertools.product((-1, 0, 1), repeat=m):
                Y = Xf + h*w*np.array(sg)
                for f, what in ((b.V, 'arnoldi-near-V'), (b.DV, 'arnoldi-near-DV')):
                    one = np.array([f(y.reshape(1, -1))[0] for y in Y[:6]]); all_ = f(Y)
                    R.close(all_[:6], one, what, '%s offset %s*%g' % (payload, sg, h), rtol=1e-9, atol=1e-10*max(1., np.abs(one).max()))
        R.step(6)
        # spellings
        for Y in (Q[:1], Q[:1].tolist(), np.round(Q).astype(int), np.round(Q).astype(int).tolist()):
            Yf = np.array(Y, dtype=float)
            st, o = R.attempt(b.V, Y)
            if R.check(st == 'ok', 'arnoldi-spelling', '%s: %s' % (payload, o)): R.close(o, mon(Yf) @ C, 'arnoldi-spelling-value', '%s %s' % (payload, type(Y)), atol=1e-6*sc*10**d, rtol=1e-6)
            st, o = R.attempt(b.DV, Y)
            R.check(st == 'ok' and np.allclose(o, b.DV(Yf), rtol=1e-9, atol=1e-12), 'arnoldi-DV-spelling', '%s: %s' % (payload, type(Y)))
        V1 = b.V(); V1 = np.array(V1)
        R.check(np.array_equal(X, X0), 'mutates', 'points modified')
        R.close(b.V(), V, 'arnoldi-again', str(payload))
        R.state((m, d, lab, np.round(V, 5)))
        # polynomial fit through Vandermonde with Arnoldi
        for j in range(min(N, 6)):
            f = lambda Y: np.prod([((np.asarray(Y, dtype=float)[:, k] - lo[k])/w[k])**idx[j][k] for k in range(m)], axis=0) + 1.
            st, o = R.attempt(VA.polyfitA, X, f(X), d)
            if not R.check(st == 'ok', 'polyfitA', '%s: %s' % (payload, o)): break
            R.close(VA.polyvalA(o[0], o[1], Q), f(Q), 'polyvalA', str(payload), atol=1e-6*sc, rtol=1e-6)
            R.close(VA.polyvalA(list(o[0]), o[1].tolist(), Q.tolist()), f(Q), 'polyvalA-list', str(payload), atol=1e-6*sc, rtol=1e-6)
            R.close(VA.polyvalA(o[0], o[1], Q[0]), f(Q[:1]), 'polyvalA-single', str(payload), atol=1e-6*sc, rtol=1e-6)
            R.step(3)
        Qm, H = VA.vandermonde_arnoldi(X, d)
        R.close(Qm.T @ Qm/len(X), np.eye(N), 'vander-orth', str(payload), atol=1e-7)
