import itertools
import numpy as np
import psdr
from psdr.geometry.cdist import cdist
from psdr.geometry import sample_sphere, unique_points, sample_simplex
from psdr.geometry.miniball import miniball
from psdr.sample.util import low_rank_L
from ..core import explore, ScriptedRandom

PID = 'G02'
BOUND = """All point sets of 1..4 (cdist, miniball) / 1..5 (unique points) points from a small lattice per dimension 1..3 with repetitions and
 near-repetitions, every weighting matrix of a menu (absent, list, diagonal, sheared, wide, tall, singular, low rank factors also of matrices with small singular values and in units from 1e-9 to 1e9), every spelling (vector or
 matrix); sphere and simplex sampling under every scripted random outcome with up to 2 deviations.  Oracle: the definition evaluated
 entry by entry in Python floats; enclosing balls by enumeration of support sets, and the same balls in units from 1e-9 to 1e9 and far from the origin."""
ASSUMPTIONS = ['the enclosing ball comes from a conic solver: radius compared to 1e-4 relative']

LM = {1: [None, [[1.]], [[2.]], [[1.], [2.]], [[0.]]],
      2: [None, [[1., 0.], [0., 1.]], [[1., 0], [0, 3.]], [[1., 2.], [0., 1.]], [[1., 2.]], [[0., 0.]], [[1., 2.], [2., 4.]], [[1., 0], [0, 2.], [1., 1.]], [[0., 0.], [0., 3.]]],
      3: [None, [[1., 0, 0], [0, 2., 0], [0, 0, .5]], [[1., 1., 0], [0, 1., 2.]], [[1., -1., 2.]], [[1., 0, 0], [0, 0, 0], [0, 0, 2.]], [[1., 0, 0], [0, 1., 0], [0, 0, 1.], [1., 1., 1.]]]}
# matrices with small but meaningful singular values
SKEW = {1: [], 2: [[[1., 0.], [0., 1e-3]], [[1., 1.], [1., 1.001]], [[1e-5, 0.], [1., 2.], [0., 0.]]], 3: [[[1., 0, 0], [0, 1e-2, 0], [0, 0, 1e-4]], [[1., 2., 3.], [1., 2., 3.0001]]]}
PT = {1: [[0.], [1.], [-2.], [.5], [100.]],
      2: [[0., 0.], [1., 0.], [0., 1.], [2., 3.], [-1., .5], [10., -4.]],
      3: [[0., 0, 0], [1., 0, 0], [0, 1., 0], [0, 0, 1.], [1., 2., 3.], [-4., .5, 2.]]}


def cases(tier):
    out = []
    K = 5 if tier == 'thorough' else 4
    for m in (1, 2, 3):
        for li in range(len(LM[m])):
            out.append(('cdist/%d-%d' % (m, li), ('cdist', m, li)))
            out.append(('low/%d-%d' % (m, li), ('low', m, li)))
            for k in range(1, K + 1):
                out.append(('ball/%d-%d-%d' % (m, li, k), ('ball', m, li, k)))
        out += [('low/%d-%d' % (m, li), ('low', m, li)) for li in range(len(LM[m]), len(LM[m]) + len(SKEW[m]))]
        for k in range(1, K + 2):
            out.append(('unique/%d-%d' % (m, k), ('unique', m, k)))
    for dim in (1, 2, 3, 4):
        for n in (1, 2, 3, 5):
            out.append(('sphere/%d-%d' % (dim, n), ('sphere', dim, n)))
            out.append(('simplex/%d-%d' % (dim, n), ('simplex', dim, n)))
    return out


def circum(Y):
    """center of the smallest ball with all rows on its boundary"""
    if len(Y) == 1: return Y[0]
    A = Y[1:] - Y[0]
    c, *_ = np.linalg.lstsq(A, .5*np.sum(A**2, axis=1), rcond=None)
    return Y[0] + c


def ball(Y):
    best = None
    for k in range(1, Y.shape[1] + 2):
        for S in itertools.combinations(range(len(Y)), k):
            c = circum(Y[list(S)])
            r = np.linalg.norm(Y - c, axis=1).max()
            if best is None or r < best: best = r
    return best


def run(p, R):
    kind = p[0]
    if kind == 'cdist':
        _, m, li = p
        L = LM[m][li]; LL = np.eye(m) if L is None else np.array(L)
        P = PT[m]
        for a in [[i] for i in range(len(P))] + [[0, 1], [1, 0, 2], list(range(len(P))), [1, 1], []]:
            for b in [[0], [3], [0, 1, 2], [2, 2], list(range(len(P)))]:
                A, B = np.array([P[i] for i in a]).reshape(-1, m), np.array([P[i] for i in b])
                want = [[float(np.sqrt(sum((sum(l*(x - y) for l, x, y in zip(row, u, v)))**2 for row in LL))) for v in B] for u in A]
                for Ls in ([None] if L is None else [np.array(L), L]):
                    for A_ in [A] + ([A[0]] if len(A) == 1 else []):
                        for B_ in [B] + ([B[0]] if len(B) == 1 else []):
                            if len(A) == 0 and A_.ndim == 1: continue
                            Ak, Bk = A_.copy(), B_.copy()
                            st, D = R.attempt(cdist, A_, B_, L=Ls)
                            if R.check(st == 'ok', 'cdist-raises', '%s %s L=%s: %s' % (A_, B_, Ls, D)):
                                R.close(D, np.array(want).reshape(len(A), len(B)), 'cdist', 'A=%s B=%s L=%s' % (A_.tolist(), B_.tolist(), L), 1e-12, 1e-12)
                                R.state((m, li, D))
                            R.check(np.array_equal(A_, Ak) and np.array_equal(B_, Bk), 'cdist-mutates')
    elif kind == 'low':
        _, m, li = p
        L = LM[m][li] if li < len(LM[m]) else SKEW[m][li - len(LM[m])]
        if L is None: return
        LL = np.array(L)
        for s in (1., 1e-3, 1e4, -1., 1e-9, 1e9):
            for arg in ([LL*s, (LL*s).tolist()] + ([LL[0]*s] if len(LL) == 1 else [])):
                st, J = R.attempt(low_rank_L, arg)
                if not R.check(st == 'ok' and np.ndim(J) == 2 and np.shape(J)[1] == m, 'low-raises', '%s %s' % (arg, J)): continue
                R.close(J.T @ J, s*s*LL.T @ LL, 'low-inner', 'L=%s' % (arg,), 1e-10, 1e-12*s*s)
                r = np.linalg.matrix_rank(LL)
                R.check(r == 0 or len(J) == r, 'low-rank', '%s gives %d rows for rank %d' % (arg, len(J), r))
                R.state((m, li, s, J.T @ J))
    elif kind == 'ball':
        _, m, li, k = p
        L = LM[m][li]; LL = np.eye(m) if L is None else np.array(L)
        N = len(PT[m])
        for S in itertools.combinations_with_replacement(range(N), k):
            if k >= 4 and m > 1 and sum(S) % 3: continue
            X = np.array([PT[m][i] for i in S])
            r = ball(X @ LL.T)
            Xk = X.copy()
            for arg in [X] + ([X.tolist()] if sum(S) % 4 == 0 else []):
                st, v = R.attempt(miniball, arg, **({} if L is None else {'L': np.array(L)}))
                if not R.check(st == 'ok', 'ball-raises', '%s L=%s %s' % (X.tolist(), L, v)): continue
                c, rad = v
                R.check(np.shape(c) == (m,) and np.ndim(rad) == 0, 'ball-shape', '%s' % (v,))
                tol = 1e-4*(1 + r)
                R.check(abs(float(rad) - r) <= tol, 'ball-radius', 'X=%s L=%s: radius %s expected %g' % (X.tolist(), L, rad, r))
                d = np.linalg.norm((X - c) @ LL.T, axis=1).max()
                R.check(d <= r + tol, 'ball-contains', 'X=%s L=%s: center %s leaves a point at %g > %g' % (X.tolist(), L, c, d, r))
                R.state((m, li, S, float(rad)))
            R.check(np.array_equal(X, Xk), 'ball-mutates')
            # the same points in other units, far away, or under a multiple of the metric
            if sum(S) % 2 and k > 2: continue
            t = np.arange(1., m + 1)
            for sx, off, sl in ((1e-6, 0., 1.), (1e6, 0., 1.), (1e9, 0., 1.), (1e-9, 0., 1.), (1., 1e5, 1.), (1., 0., 1e6), (1., 0., 1e-6), (1e3, 1e6, 1e-3)):
                if L is None and sl != 1.: continue
                Y = X*sx + off*t
                st, v = R.attempt(miniball, Y, **({} if L is None else {'L': sl*np.array(L)}))
                if not R.check(st == 'ok', 'ball-units-raises', '%s L=%s*%g %s' % (Y.tolist(), L, sl, v)): continue
                c, rad = v
                tol = 2e-4*r*sx*sl + 1e-10*off*sl + 1e-6*sx*sl
                R.check(abs(float(rad) - r*sx*sl) <= tol, 'ball-units', 'X=%s L=%s*%g: radius %s expected %g' % (Y.tolist(), L, sl, rad, r*sx*sl))
                d = sl*np.linalg.norm((Y - c) @ LL.T, axis=1).max()
                R.check(d <= r*sx*sl + tol, 'ball-units-contains', 'X=%s L=%s*%g: center %s leaves a point at %g > %g' % (Y.tolist(), L, sl, c, d, r*sx*sl))
                R.step()
    elif kind == 'unique':
        _, m, k = p
        base = np.array(PT[m])[:4]
        pool = np.vstack([base, base[:2] + 1e-10, base[1:2] - 1e-4])
        for S in itertools.product(range(len(pool)), repeat=k) if k <= 3 else itertools.combinations_with_replacement(range(len(pool)), k):
            for order in ((1,) if k <= 3 else (1, -1)):
                X = pool[list(S)][::order]
                st, I = R.attempt(unique_points, X)
                if not R.check(st == 'ok' and np.shape(I) == (k,) and np.asarray(I).dtype == bool, 'unique-raises', '%s %s' % (X.tolist(), I)): continue
                D = np.abs(X[:, None] - X[None]).max(axis=2)
                K = np.flatnonzero(I)
                R.check(len(K) > 0 and D[:, K].min(axis=1).max() < 1e-7, 'unique-lost', 'X=%s kept %s' % (X.tolist(), I))
                DK = D[np.ix_(K, K)] + np.eye(len(K))
                R.check(DK.min() > 1e-7, 'unique-dup', 'X=%s kept %s' % (X.tolist(), I))
                R.state((m, S, order, I))
            st, I2 = R.attempt(unique_points, X.tolist())
            R.check(st == 'ok', 'unique-list', str(I2))
    elif kind == 'sphere':
        _, dim, n = p
        for k in (1, 3, 100):
            def go(rng):
                X = sample_sphere(dim, n, k=k) if k != 100 else sample_sphere(dim, n)
                R.check(np.shape(X) == (n, dim) and np.all(np.isfinite(X)), 'sphere-shape', '%s' % (X,))
                R.close(np.linalg.norm(X, axis=1), np.ones(n), 'sphere-norm', 'dim=%d n=%d k=%d' % (dim, n, k), 1e-12)
                R.state((dim, n, k, X))
            explore(go, bound=2, R=R)
        # best candidate: second point is the candidate furthest from the first
        if n >= 2 and dim >= 2:
            for script in range(7):
                rng = ScriptedRandom((0, script)); seen = []
                orig = rng._norm
                def spy(size): v = orig(size); seen.append(np.array(v)); return v
                rng._norm = spy
                from ..core import scripted
                with scripted(rng): X = sample_sphere(dim, n, k=4)
                for i in range(1, n):
                    if i < len(seen) and seen[i].shape == (4, dim):
                        C = seen[i]/np.linalg.norm(seen[i], axis=1)[:, None]
                        s = (1 - C @ X[:i].T).min(axis=1)
                        R.check((1 - X[i] @ X[:i].T).min() >= s.max() - 1e-12, 'sphere-candidate', 'point %d is not the furthest candidate' % i)
    else:
        _, dim, n = p
        def go(rng):
            A = sample_simplex(dim, n)
            R.check(np.shape(A) == (n, dim) and np.all(A >= 0), 'simplex-negative', '%s' % (A,))
            R.close(np.sum(A, axis=1), np.ones(n), 'simplex-sum', 'dim=%d' % dim, 1e-12)
            R.state((dim, n, A))
        explore(go, bound=2, R=R)
        rng = ScriptedRandom(())
        from ..core import scripted
        with scripted(rng): A = sample_simplex(dim)
        R.check(np.shape(A) == (1, dim), 'simplex-default')
        if dim > 1:
            # uniform on the simplex: every coordinate has mean 1/dim (deterministic stratified stream)
            with scripted(ScriptedRandom((), base=3)): A = sample_simplex(dim, 4000)
            R.close(A.mean(axis=0), np.full(dim, 1/dim), 'simplex-mean', '', 0, .03)
