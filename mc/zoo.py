"""Domains as plain data + exhaustive reference geometry.

A Spec is the list of constraints a user would write down.  Everything the
oracle says about a domain (membership, support function, projection, extent,
emptiness, boundedness) is computed from that list by enumerating active sets;
nothing is read back from the implementation."""
import itertools
import numpy as np

BIG = 1e6
INF = np.inf


def hull_hrep(X):
    """H-representation of conv(X) by brute force over subsets of points"""
    X = np.unique(np.asarray(X, dtype=float), axis=0)
    m = X.shape[1]
    c = X.mean(axis=0)
    U, s, Vt = np.linalg.svd(X - c)
    d = int(np.sum(s > 1e-9*max(1., s[0] if len(s) else 1.))) if len(X) > 1 else 0
    Aeq = Vt[d:]
    beq = Aeq @ c
    A, b = [], []
    if d > 0:
        B = Vt[:d]
        Y = (X - c) @ B.T
        if d == 1:
            A.append(B[0]); b.append(B[0] @ c + Y.max())
            A.append(-B[0]); b.append(-B[0] @ c - Y.min())
        else:
            for S in itertools.combinations(range(len(Y)), d):
                P = Y[list(S)]
                _, sv, vt = np.linalg.svd(P[1:] - P[0])
                if sv[-1] < 1e-9: continue
                n = vt[-1]
                h = n @ P[0]
                v = Y @ n - h
                for sg in (1, -1):
                    if np.all(sg*v <= 1e-9):
                        A.append(sg*(n @ B)); b.append(sg*h + sg*(n @ B) @ c)
            # deduplicate
            rows = np.unique(np.round(np.column_stack([A, b]), 13), axis=0)
            A = list(rows[:, :-1]); b = list(rows[:, -1])
    return (np.array(A).reshape(-1, m), np.array(b).reshape(-1), Aeq.reshape(-1, m), beq.reshape(-1))


def _row(L):
    """the row of L if it acts on a single direction, else []"""
    nz = L[np.abs(L).sum(axis=1) > 0]
    return nz[0] if len(nz) == 1 else nz[:0].ravel()


class Spec:
    def __init__(self, name, build, m, lb=None, ub=None, A=None, b=None, Aeq=None, beq=None, quads=(), hull=None,
                 **tags):
        self.name = name
        self.build = build
        self.m = m
        self.lb = np.full(m, -INF) if lb is None else np.array(lb, dtype=float).reshape(m)
        self.ub = np.full(m, INF) if ub is None else np.array(ub, dtype=float).reshape(m)
        self.A = np.zeros((0, m)) if A is None else np.array(A, dtype=float).reshape(-1, m)
        self.b = np.zeros(0) if b is None else np.array(b, dtype=float).reshape(-1)
        self.Aeq = np.zeros((0, m)) if Aeq is None else np.array(Aeq, dtype=float).reshape(-1, m)
        self.beq = np.zeros(0) if beq is None else np.array(beq, dtype=float).reshape(-1)
        self.quads = [(np.array(L, dtype=float).reshape(-1, m), np.array(y, dtype=float).reshape(m), float(r)) for L, y, r in quads]
        self.hulls = []       # list of (slice, X) for display
        self.hA = np.zeros((0, m)); self.hb = np.zeros(0)
        self.hAeq = np.zeros((0, m)); self.hbeq = np.zeros(0)
        self.hull = None
        if hull is not None:
            self.hull = np.array(hull, dtype=float).reshape(-1, m)
            self.hA, self.hb, self.hAeq, self.hbeq = hull_hrep(self.hull)
        self.tags = tags
        self._faces = None

    # ------------------------------------------------------------ membership
    def violation(self, X):
        """largest constraint violation (in the constraint's own units), rowwise"""
        X = np.asarray(X, dtype=float).reshape(-1, self.m)
        v = np.full(len(X), -INF)
        for i in range(self.m):
            if np.isfinite(self.lb[i]): v = np.maximum(v, self.lb[i] - X[:, i])
            if np.isfinite(self.ub[i]): v = np.maximum(v, X[:, i] - self.ub[i])
        for A, b in ((self.A, self.b), (self.hA, self.hb)):
            for a, bi in zip(A, b): v = np.maximum(v, X @ a - bi)
        for A, b in ((self.Aeq, self.beq), (self.hAeq, self.hbeq)):
            for a, bi in zip(A, b): v = np.maximum(v, np.abs(X @ a - bi))
        for L, y, r in self.quads:
            v = np.maximum(v, np.linalg.norm((X - y) @ L.T, axis=1) - r)
        return v

    def scale(self):
        s = 1.
        for a in (self.lb, self.ub, self.b, self.beq, self.hb, self.hbeq):
            a = np.abs(a[np.isfinite(a)])
            if len(a): s = max(s, float(a.max()))
        for L, y, r in self.quads: s = max(s, float(np.abs(y).max()), r)
        return s

    # ------------------------------------------------------------ active sets
    def lin(self):
        """all linear inequalities, with the big box"""
        I = np.eye(self.m)
        rows, rhs = [], []
        for i in range(self.m):
            rows.append(I[i]); rhs.append(min(self.ub[i], BIG))
            rows.append(-I[i]); rhs.append(min(-self.lb[i], BIG))
        for L, y, r in self.quads:
            if len(_row(L)):         # |l.(x-y)| <= r is a pair of linear inequalities
                l = _row(L); rows += [l, -l]; rhs += [l @ y + r, r - l @ y]
        A = np.vstack([np.array(rows), self.A, self.hA]); b = np.hstack([rhs, self.b, self.hb])
        Ae = np.vstack([self.Aeq, self.hAeq]); be = np.hstack([self.beq, self.hbeq])
        return A, b, Ae, be

    def faces(self):
        """affine subspaces (x0, N) of all subsets of active linear constraints"""
        if self._faces is not None: return self._faces
        A, b, Ae, be = self.lin()
        out = []
        seen = set()
        m = self.m
        for k in range(0, m + 1):
            for S in itertools.combinations(range(len(A)), k):
                M = np.vstack([Ae, A[list(S)]]); r = np.hstack([be, b[list(S)]])
                if len(M) == 0:
                    x0, N = np.zeros(m), np.eye(m)
                else:
                    U, s, Vt = np.linalg.svd(M)
                    rank = int(np.sum(s > 1e-9*max(1, s[0])))
                    if k and rank <= np.linalg.matrix_rank(np.vstack([Ae, A[list(S[:-1])]]) if len(Ae) + k - 1 else np.zeros((1, m))) :
                        continue
                    x0 = np.linalg.pinv(M, rcond=1e-12) @ r
                    if np.abs(M @ x0 - r).max() > 1e-7*max(1, np.abs(r).max()): continue
                    N = Vt[rank:].T
                    # polish against the big box scale
                key = (N.shape[1], tuple(np.round(x0, 7)), tuple(np.round((N @ N.T).ravel(), 7)))
                if key in seen: continue
                seen.add(key)
                out.append((x0, N))
        self._faces = out
        return out

    def _quad_on_face(self, x0, N, q):
        L, y, r = q
        M = L @ N; c = L @ (x0 - y)
        zc = -np.linalg.pinv(M) @ c
        res = M @ zc + c
        r2 = r*r - res @ res
        return M, zc, r2

    def _faces_with_quads(self):
        """faces plus faces cut by the radical plane of pairs of balls"""
        quads = [q for q in self.quads if not len(_row(q[0]))]
        out = [(x0, N, quads) for x0, N in self.faces()]
        if len(quads) >= 2:
            for (L1, y1, r1), (L2, y2, r2) in itertools.combinations(quads, 2):
                if not (np.allclose(L1, np.eye(self.m)) and np.allclose(L2, np.eye(self.m))): continue
                a = 2*(y2 - y1); h = r1**2 - r2**2 + y2 @ y2 - y1 @ y1
                for x0, N in self.faces():
                    g = a @ N
                    if np.linalg.norm(g) < 1e-9: continue
                    x1 = x0 + N @ (g*(h - a @ x0)/(g @ g))
                    Nn = N @ np.linalg.svd(g.reshape(1, -1))[2][1:].T
                    out.append((x1, Nn, [(L1, y1, r1)]))
        return out

    def _cands_linear(self, p):
        C = []
        for x0, N, quads in self._faces_with_quads():
            if N.shape[1] == 0:
                C.append(x0); continue
            g = N.T @ p
            for q in quads:
                M, zc, r2 = self._quad_on_face(x0, N, q)
                if r2 < -1e-12: continue
                H = np.linalg.pinv(M.T @ M)
                dirs = [g] + list(np.eye(N.shape[1]))
                C.append(x0 + N @ zc)
                for gg in dirs:
                    d = H @ gg
                    e = gg @ d
                    if e < 1e-16: continue
                    s = np.sqrt(max(r2, 0)/e)
                    C += [x0 + N @ (zc + s*d), x0 + N @ (zc - s*d)]
        return C

    def feasible(self, C, tol=1e-8):
        if len(C) == 0: return np.zeros((0, self.m))
        C = np.array(C)
        v = self.violation(C)
        keep = (v <= tol*np.maximum(1, np.abs(C).max(axis=1))) & (np.abs(C).max(axis=1) <= BIG*(1 + 1e-9))
        return C[keep]

    def support(self, p):
        """(value, point) of max p.x ; value None if empty, inf if unbounded"""
        p = np.asarray(p, dtype=float)
        F = self.feasible(self._cands_linear(p))
        if len(F) == 0: return None, None
        v = F @ p
        k = int(np.argmax(v))
        if v[k] > 1e-2*BIG*np.abs(p).max() and np.abs(F[k]).max() > .5*BIG: return INF, F[k]
        return float(v[k]), F[k]

    @property
    def empty(self):
        if not hasattr(self, '_e'):
            self._e = all(len(self.feasible(self._cands_linear(p))) == 0
                          for p in np.vstack([np.eye(self.m), np.ones((1, self.m))]))
        return self._e

    @property
    def bounded(self):
        if self.empty: return True
        return all(np.isfinite(self.support(s*e)[0]) for e in np.eye(self.m) for s in (1, -1))

    def box(self):
        """coordinate-wise bounds of the set itself"""
        lo = np.array([-self.support(-e)[0] for e in np.eye(self.m)])
        hi = np.array([self.support(e)[0] for e in np.eye(self.m)])
        return lo, hi

    @property
    def is_point(self):
        if self.empty or not self.bounded: return False
        lo, hi = self.box()
        return bool(np.all(hi - lo < 1e-9))

    def min_affine(self, M, r):
        """min ||M x - r|| over the set -> (value, point)  (upper bound, attained)"""
        M = np.asarray(M, dtype=float).reshape(-1, self.m); r = np.asarray(r, dtype=float).reshape(-1)
        C = []
        for x0, N, quads in self._faces_with_quads():
            if N.shape[1] == 0:
                C.append(x0); continue
            MN = M @ N; rr = r - M @ x0
            C.append(x0 + N @ np.linalg.pinv(MN) @ rr)
            for q in quads:
                L, y, rho = q
                Q = L @ N; c = L @ (x0 - y)
                H = MN.T @ MN; K = Q.T @ Q; h = MN.T @ rr; k = -Q.T @ c
                def f(lam):
                    z = np.linalg.lstsq(H + lam*K, h + lam*k, rcond=None)[0]
                    return z, np.linalg.norm(Q @ z + c) - rho
                lo, hi = 1e-9, 1e9
                if f(lo)[1] <= 0:
                    C.append(x0 + N @ f(lo)[0]); continue
                if f(hi)[1] > 1e-6: continue
                for _ in range(200):
                    mid = np.sqrt(lo*hi)
                    if f(mid)[1] > 0: lo = mid
                    else: hi = mid
                C.append(x0 + N @ f(hi)[0])
        F = self.feasible(C)
        if len(F) == 0: return None, None
        v = np.linalg.norm(F @ M.T - r, axis=1)
        i = int(np.argmin(v))
        return float(v[i]), F[i]

    def extent(self, x, p, tang=1e-12):
        """sup{alpha >= 0: x + alpha p in D}, x in D; directions within tang of a face count as parallel to it"""
        x = np.asarray(x, dtype=float); p = np.asarray(p, dtype=float)
        al = INF
        pn = np.linalg.norm(p)
        for i in range(self.m):
            if p[i] > tang*pn and np.isfinite(self.ub[i]): al = min(al, (self.ub[i] - x[i])/p[i])
            if p[i] < -tang*pn and np.isfinite(self.lb[i]): al = min(al, (self.lb[i] - x[i])/p[i])
        for A, b in ((self.A, self.b), (self.hA, self.hb)):
            for a, bi in zip(A, b):
                s = a @ p
                if s > tang*pn*np.linalg.norm(a): al = min(al, (bi - a @ x)/s)
        for a in np.vstack([self.Aeq, self.hAeq]):
            if abs(a @ p) > max(1e-9, tang)*pn*np.linalg.norm(a): al = 0.
        for L, y, r in self.quads:
            u = L @ p; w = L @ (x - y)
            aa, bb, cc = u @ u, 2*u @ w, w @ w - r*r
            if np.sqrt(aa) > tang*pn*np.linalg.norm(L):
                disc = max(bb*bb - 4*aa*cc, 0.)
                al = min(al, (-bb + np.sqrt(disc))/(2*aa))
        return max(al, 0.)


# ---------------------------------------------------------------------------
# Builders
# ---------------------------------------------------------------------------
def _psdr():
    import psdr
    return psdr


def box(name, lb, ub, cls='BoxDomain', **kw):
    m = len(lb)
    return Spec(name, lambda: getattr(_psdr(), cls)(np.array(lb, dtype=float), np.array(ub, dtype=float)), m, lb=lb, ub=ub, **kw)


def lin(name, m, lb=None, ub=None, A=None, b=None, Aeq=None, beq=None, **kw):
    def build():
        d = {}
        if lb is not None: d['lb'] = np.array(lb, dtype=float)
        if ub is not None: d['ub'] = np.array(ub, dtype=float)
        if A is not None: d['A'] = np.array(A, dtype=float); d['b'] = np.array(b, dtype=float)
        if Aeq is not None: d['A_eq'] = np.array(Aeq, dtype=float); d['b_eq'] = np.array(beq, dtype=float)
        return _psdr().LinIneqDomain(**d)
    return Spec(name, build, m, lb, ub, A, b, Aeq, beq, **kw)


def quad(name, m, lb=None, ub=None, A=None, b=None, Aeq=None, beq=None, quads=(), **kw):
    def build():
        d = {}
        if lb is not None: d['lb'] = np.array(lb, dtype=float)
        if ub is not None: d['ub'] = np.array(ub, dtype=float)
        if A is not None: d['A'] = np.array(A, dtype=float); d['b'] = np.array(b, dtype=float)
        if Aeq is not None: d['A_eq'] = np.array(Aeq, dtype=float); d['b_eq'] = np.array(beq, dtype=float)
        if quads:
            d['Ls'] = [np.array(q[0], dtype=float).reshape(-1, m) for q in quads]
            d['ys'] = [np.array(q[1], dtype=float) for q in quads]
            d['rhos'] = [q[2] for q in quads]
        return _psdr().LinQuadDomain(**d)
    return Spec(name, build, m, lb, ub, A, b, Aeq, beq, quads, **kw)


def hull(name, X, lb=None, ub=None, A=None, b=None, Aeq=None, beq=None, quads=(), **kw):
    X = np.array(X, dtype=float)
    m = X.shape[1]
    def build():
        d = {}
        if lb is not None: d['lb'] = np.array(lb, dtype=float)
        if ub is not None: d['ub'] = np.array(ub, dtype=float)
        if A is not None: d['A'] = np.array(A, dtype=float); d['b'] = np.array(b, dtype=float)
        if Aeq is not None: d['A_eq'] = np.array(Aeq, dtype=float); d['b_eq'] = np.array(beq, dtype=float)
        if quads:
            d['Ls'] = [np.array(q[0], dtype=float).reshape(-1, m) for q in quads]
            d['ys'] = [np.array(q[1], dtype=float) for q in quads]
            d['rhos'] = [q[2] for q in quads]
        return _psdr().ConvexHullDomain(X, **d)
    return Spec(name, build, m, lb, ub, A, b, Aeq, beq, quads, hull=X, **kw)


def point(name, x, **kw):
    return Spec(name, lambda: _psdr().PointDomain(np.array(x, dtype=float)), len(x), lb=x, ub=x, **kw)


def unbounded(name, m, **kw):
    return Spec(name, lambda: _psdr().UnboundedDomain(m), m, **kw)


def chi2_isf(tau, m):
    """inverse survival function of chi^2_m by bisection on closed forms"""
    import math
    def sf(x):
        if m == 1: return math.erfc(math.sqrt(x/2))
        if m == 2: return math.exp(-x/2)
        if m == 3: return math.erfc(math.sqrt(x/2)) + math.sqrt(2*x/math.pi)*math.exp(-x/2)
        raise ValueError
    lo, hi = 0., 200.
    for _ in range(200):
        mid = (lo + hi)/2
        if sf(mid) > tau: lo = mid
        else: hi = mid
    return hi


def normal(name, mean, cov, truncate=None, **kw):
    m = len(mean)
    quads = []
    if truncate is not None:
        C = np.linalg.cholesky(np.array(cov, dtype=float))
        quads = [(np.linalg.inv(C), mean, np.sqrt(chi2_isf(truncate, m)))]
    def build():
        d = {} if truncate is None else {'truncate': truncate}
        return _psdr().NormalDomain(np.array(mean, dtype=float), np.array(cov, dtype=float), **d)
    return Spec(name, build, m, quads=quads, measure=('normal', mean, cov, truncate), **kw)


def lognormal(name, mean, cov, offset=0., scaling=1., truncate=None, **kw):
    if truncate is None:
        lb, ub = [offset], [INF]
    else:
        r = np.sqrt(chi2_isf(truncate, 1)*cov)
        lb, ub = [offset + scaling*np.exp(mean - r)], [offset + scaling*np.exp(mean + r)]
    def build():
        d = {} if truncate is None else {'truncate': truncate}
        return _psdr().LogNormalDomain(mean, cov, offset=offset, scaling=scaling, **d)
    return Spec(name, build, 1, lb=lb, ub=ub, measure=('lognormal', mean, cov, offset, scaling, truncate), **kw)


def tensor(name, parts, **kw):
    """product of specs (constraints placed on consecutive coordinates)"""
    m = sum(p.m for p in parts)
    s = Spec(name, lambda: _psdr().TensorProductDomain([p.build() for p in parts]), m,
             lb=np.hstack([p.lb for p in parts]), ub=np.hstack([p.ub for p in parts]), **kw)
    j = 0
    for p in parts:
        def pad(M):
            out = np.zeros((len(M), m)); out[:, j:j + p.m] = M; return out
        s.A = np.vstack([s.A, pad(p.A)]); s.b = np.hstack([s.b, p.b])
        s.Aeq = np.vstack([s.Aeq, pad(p.Aeq)]); s.beq = np.hstack([s.beq, p.beq])
        s.hA = np.vstack([s.hA, pad(p.hA)]); s.hb = np.hstack([s.hb, p.hb])
        s.hAeq = np.vstack([s.hAeq, pad(p.hAeq)]); s.hbeq = np.hstack([s.hbeq, p.hbeq])
        for L, y, r in p.quads:
            yy = np.zeros(m); yy[j:j + p.m] = y
            s.quads.append((pad(L), yy, r))
        j += p.m
    s.parts = parts
    return s


def restrict(name, base, build, lb=None, ub=None, A=None, b=None, Aeq=None, beq=None, quads=(), **kw):
    """spec of base with extra constraints"""
    m = base.m
    s = Spec(name, build, m, lb=np.maximum(base.lb, -INF if lb is None else np.array(lb, dtype=float)),
             ub=np.minimum(base.ub, INF if ub is None else np.array(ub, dtype=float)), **kw)
    e = Spec('x', None, m, A=A, b=b, Aeq=Aeq, beq=beq, quads=quads)
    s.A = np.vstack([base.A, e.A]); s.b = np.hstack([base.b, e.b])
    s.Aeq = np.vstack([base.Aeq, e.Aeq]); s.beq = np.hstack([base.beq, e.beq])
    s.quads = list(base.quads) + e.quads
    s.hA, s.hb, s.hAeq, s.hbeq, s.hull = base.hA, base.hb, base.hAeq, base.hbeq, base.hull
    return s


# ---------------------------------------------------------------------------
# The alphabet of domains
# ---------------------------------------------------------------------------
ROWS2 = {'d': ((1, 1), 1.), 's': ((1, -1), 0.), 'o': ((-1, -2), 1.), 'h': ((0, 2), 1.)}
EQS2 = {'e0': ((1, 1), 0.), 'e1': ((1, -1), .5), 'e2': ((0, 1), 0.)}
QUADS2 = {'B': (np.eye(2), (0, 0), 1.), 'C': (np.eye(2), (1, .5), 1.), 'E': (((1, 1), (0, 2)), (.5, 0), 1.5),
          'S': (((1, 1),), (0, .5), .75)}


def _sub(d, kmax, kmin=0):
    for k in range(kmin, kmax + 1):
        for S in itertools.combinations(sorted(d), k): yield S


def boxes():
    out = []
    I1 = {'u': (0, 1), 's': (-1, 1), 'a': (-1, 2), 'w': (100., 1100.), 'k': (0, 1e-2), 'p': (2, 2)}
    for k, (l, u) in I1.items(): out.append(box('box1-' + k, [l], [u]))
    for a, b in (('u', 's'), ('a', 'w'), ('s', 'k'), ('a', 'p'), ('w', 'k')):
        out.append(box('box2-' + a + b, [I1[a][0], I1[b][0]], [I1[a][1], I1[b][1]]))
    out.append(box('box3-usa', [0, -1, -1], [1, 1, 2]))
    out.append(box('box3-awp', [-1, 100, 2], [2, 1100, 2]))
    out.append(box('uni2', [0, -3], [2, 1], cls='UniformDomain'))
    return out


def halfboxes():
    return [box('hbox1-lo', [0], [INF]), box('hbox1-up', [-INF], [1]), box('hbox1-free', [-INF], [INF]),
            box('hbox2-mix', [0, -INF], [1, 2]), box('hbox2-q', [0, 0], [INF, INF])]


def linears(quick=True):
    out = []
    bb = {'sq': ([-1, -1], [1, 1]), 're': ([-1, 0], [2, 4])}
    for bn, (l, u) in bb.items():
        for S in _sub(ROWS2, 2, 1):
            out.append(lin('lin2-%s-%s' % (bn, ''.join(S)), 2, l, u, [ROWS2[s][0] for s in S], [ROWS2[s][1] for s in S]))
        for e in EQS2:
            for S in _sub(ROWS2, 1):
                A = [ROWS2[s][0] for s in S] or None; b = [ROWS2[s][1] for s in S] or None
                out.append(lin('lin2-%s-%s-%s' % (bn, e, ''.join(S)), 2, l, u, A, b, [EQS2[e][0]], [EQS2[e][1]]))
    # no bounds: only rows
    out.append(lin('tri2', 2, A=[(-1, 0), (0, -1), (1, 1)], b=[0, 0, 1]))
    out.append(lin('tri2w', 2, A=[(-1, 0), (0, -1), (1, 2)], b=[-10, -20, 150]))
    out.append(lin('lin2-pt', 2, [-1, -1], [1, 1], Aeq=[(1, 1), (1, -1)], beq=[.5, .5]))
    out.append(lin('lin1', 1, [-1], [2], [[2.]], [1.]))
    out.append(lin('lin1n', 1, [-1], [2], [[-1.], [3.]], [.5, 3.]))
    out.append(lin('lin3-simp', 3, A=[(-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 1, 1)], b=[0, 0, 0, 1]))
    out.append(lin('lin3-cut', 3, [-1, -1, 0], [1, 1, 2], [(1, 1, 1)], [1.]))
    out.append(lin('lin3-eq', 3, [0, 0, 0], [1, 1, 1], None, None, [(1, 1, 1)], [1.]))
    out.append(lin('lin3-eqcut', 3, [-1, -1, -1], [1, 1, 1], [(1, 0, -1)], [.5], [(1, 1, 0)], [0.]))
    out.append(lin('lin3-eq2', 3, [-1, -1, -1], [1, 1, 1], None, None, [(1, 1, 0), (0, 1, 1)], [0., .5]))
    return out


def half_linears():
    return [lin('hlin2-wedge', 2, A=[(-1, 0), (0, -1)], b=[0, 0]),
            lin('hlin2-strip', 2, A=[(1, 1), (-1, -1)], b=[1, 1]),
            lin('hlin2-eq', 2, Aeq=[(1, -1)], beq=[0.]),
            lin('hlin2-half', 2, lb=[0, -INF], ub=[1, INF], A=[(1, 1)], b=[1.]),
            quad('hquad2-slab', 2, quads=[QUADS2['S']]),
            unbounded('unb1', 1), unbounded('unb2', 2),
            normal('normal1', [1.], [[4.]]), normal('normal2', [0, 1], [[2, 1], [1, 2]]),
            tensor('tp-unb', [box('b', [-1], [1]), unbounded('u', 1)]),
            tensor('tp-nrm', [normal('n', [2.], [[1.]]), box('b', [-1, 0], [1, 3])])]


def empties():
    return [box('ebox1', [1], [0]), box('ebox2', [0, 2], [1, 1]),
            lin('elin2', 2, [-1, -1], [1, 1], [(1, 1)], [-3.]),
            lin('elin2-eq', 2, [-1, -1], [1, 1], None, None, [(1, 1)], [3.]),
            lin('elin2-rows', 2, A=[(1, 0), (-1, 0)], b=[-1., -1.], recession=True),
            quad('equad2', 2, [2, 2], [3, 3], quads=[QUADS2['B']]),
            quad('equad2-bb', 2, quads=[QUADS2['B'], (np.eye(2), (3, 0), 1.)]),
            hull('ehull2', [(0, 0), (1, 0), (0, 1)], A=[(1, 1)], b=[-1.])]


def quadratics():
    out = []
    for S in ('B', 'C', 'E', 'BC'):
        out.append(quad('quad2-%s' % S, 2, quads=[QUADS2[s] for s in S]))
    for S in ('B', 'C', 'E', 'S', 'BC'):
        out.append(quad('quad2b-%s' % S, 2, [-1, -.5], [1, 2], quads=[QUADS2[s] for s in S]))
    for r in ROWS2:
        out.append(quad('quad2-B-%s' % r, 2, A=[ROWS2[r][0]], b=[ROWS2[r][1]], quads=[QUADS2['B']]))
    for e in EQS2:
        out.append(quad('quad2-E-%s' % e, 2, [-3, -3], [3, 3], Aeq=[EQS2[e][0]], beq=[EQS2[e][1]], quads=[QUADS2['E']]))
    out.append(quad('quad1', 1, quads=[([[2.]], [1.], 3.)]))
    out.append(quad('quad1b', 1, [0.], [5.], quads=[([[1.]], [1.], 2.)]))
    out.append(quad('quad3-ball', 3, quads=[(np.eye(3), (1, 0, -1), 2.)]))
    out.append(quad('quad3-cut', 3, [-1, -1, -1], [1, 1, 1], A=[(1, 1, 1)], b=[.5], quads=[(np.diag([1., 2., 1.]), (0, 0, 0), 1.)]))
    out.append(quad('quad3-cyl', 3, [-2, -2, -1], [2, 2, 1], quads=[(((1, 0, 0), (0, 1, 0)), (0, 0, 0), 1.)]))
    out.append(quad('quad2-off', 2, quads=[(np.eye(2), (20., -10.), 3.)]))
    return out


def hulls():
    return [hull('hull1', [(0,), (2,), (1,)]),
            hull('hull2-tri', [(0, 0), (2, 0), (0, 1)]),
            hull('hull2-sq', [(0, 0), (1, 0), (0, 1), (1, 1), (.5, .5)]),
            hull('hull2-pent', [(0, 0), (2, 0), (3, 2), (1, 3), (-1, 1), (1, 1)]),
            hull('hull2-seg', [(0, 0), (2, 1)]),
            hull('hull2-seg3', [(0, 0), (2, 2), (1, 1)]),
            hull('hull2-pt', [(1, 2)]),
            hull('hull2-dup', [(0, 0), (2, 0), (0, 1), (2, 0)]),
            hull('hull2-far', [(10, 20), (12, 20), (10, 21), (13, 23)]),
            hull('hull3-tet', [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]),
            hull('hull3-oct', [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]),
            hull('hull3-flat', [(0, 0, 1), (2, 0, 1), (0, 2, 1), (2, 2, 1)]),
            hull('hull2-A', [(0, 0), (2, 0), (0, 2)], A=[(1, 0)], b=[1.]),
            hull('hull2-lb', [(0, 0), (2, 0), (0, 2)], lb=[.5, -INF], ub=[INF, 1.]),
            hull('hull2-eq', [(0, 0), (2, 0), (0, 2), (2, 2)], Aeq=[(1, -1)], beq=[0.]),
            hull('hull2-Q', [(-1, -1), (2, -1), (-1, 2), (2, 2)], quads=[QUADS2['B']]),
            hull('hull2-segA', [(0, 0), (2, 1)], A=[(1, 0)], b=[1.])]


def points():
    return [point('pt1', [2.]), point('pt2', [1., -3.]), point('pt3', [0., .5, 100.])]


def randoms():
    return [normal('tnormal1', [1.], [[4.]], .1), normal('tnormal2', [0, 1], [[2, 1], [1, 2]], .05),
            normal('tnormal2d', [3, -2], [[1, 0], [0, 9]], .01), normal('tnormal3', [0, 0, 1], [[2, 1, 0], [1, 2, 1], [0, 1, 3]], .2),
            lognormal('tlogn', 0., 1., truncate=.05), lognormal('tlogn-os', .5, .25, offset=2., scaling=3., truncate=.1),
            box('uni1', [-1], [3], cls='UniformDomain')]


def tensors():
    b1 = lambda: box('b1', [-1], [1]); b2 = lambda: box('b2', [0, 2], [3, 4])
    t2 = lambda: lin('t2', 2, A=[(-1, 0), (0, -1), (1, 1)], b=[0, 0, 1])
    q2 = lambda: quad('q2', 2, quads=[QUADS2['B']])
    e2 = lambda: lin('e2', 2, [-1, -1], [1, 1], Aeq=[(1, 1)], beq=[0.])
    h2 = lambda: hull('h2', [(0, 0), (2, 0), (0, 1)])
    p1 = lambda: point('p1', [2.])
    n1 = lambda: normal('n1', [1.], [[4.]], .1)
    n2 = lambda: normal('n2', [3, -2], [[2, 1], [1, 2]], .05)
    out = []
    for nm, parts in (('bb', (b1, b1)), ('bt', (b1, t2)), ('tb', (t2, b1)), ('qb', (q2, b1)), ('be', (b1, e2)),
                      ('hb', (h2, b1)), ('bp', (b1, p1)), ('bn', (b1, n1)), ('n2b', (n2, b1)), ('nn', (n1, n1)),
                      ('bbb', (b1, b1, b1))):
        out.append(tensor('tp-' + nm, [f() for f in parts]))
    return out


def bounded_all():
    return boxes() + points() + linears() + quadratics() + hulls() + randoms() + tensors()


def unbounded_all():
    return halfboxes() + half_linears()


def everything():
    return bounded_all() + unbounded_all() + empties()


def grid(spec, n=5, margin=.35):
    """finite grid of probe points around the set (including vertices of its box)"""
    lo, hi = np.empty(spec.m), np.empty(spec.m)
    for i, e in enumerate(np.eye(spec.m)):
        u, l = spec.support(e)[0], spec.support(-e)[0]
        l = None if l is None else -l
        hi[i] = 2. if u is None or not np.isfinite(u) else u
        lo[i] = -2. if l is None or not np.isfinite(l) else l
        if hi[i] < lo[i]: hi[i], lo[i] = lo[i], hi[i]
    w = np.where(hi - lo < 1e-9, 1., hi - lo)
    axes = [np.unique(np.hstack([np.linspace(lo[i], hi[i], n), lo[i] - margin*w[i], hi[i] + margin*w[i]])) for i in range(spec.m)]
    return np.array(list(itertools.product(*axes)))


def directions(m):
    """lattice directions {-1,0,1}^m minus 0 (all of them for m<=2), two generic ones"""
    D = [np.array(d, dtype=float) for d in itertools.product((-1, 0, 1), repeat=m) if any(d)]
    if m == 3: D = [d for k, d in enumerate(D) if np.abs(d).sum() in (1, 3)]
    D.append(np.array([2., -1., .5][:m]))
    D.append(np.array([-.3, -1.7, .9][:m]))
    return D


def inner_points(spec, k=4):
    """feasible points: vertices/extreme points, their mean and edge midpoints"""
    E = []
    for d in directions(spec.m):
        v, x = spec.support(d)
        if v is not None and np.isfinite(v): E.append(x)
    if not E: return np.zeros((0, spec.m))
    E = np.array(E)
    E = E[np.sort(np.unique(np.round(E, 7), axis=0, return_index=True)[1])]
    c = E.mean(axis=0)
    P = [c] + list(E) + [(E[i] + E[(i + 1) % len(E)])/2 for i in range(len(E))] + [.75*c + .25*e for e in E]
    P = np.array(P)
    P = P[spec.violation(P) <= 1e-9*spec.scale()]
    return P


UNITS = [(1e-3, 0.), (1e3, 0.), (1e6, 0.), (1e9, 0.), (1., 1e6)]


def rescaled(s, c, o):
    """a domain of the package: the set c*x + o for x in the set s; None for plain boxes and products"""
    import psdr
    if s.hull is None and not len(s.A) and not len(s.Aeq) and not s.quads: return None
    t = o*np.ones(s.m)
    kw = {}
    if np.isfinite(s.lb).any(): kw['lb'] = s.lb*c + t
    if np.isfinite(s.ub).any(): kw['ub'] = s.ub*c + t
    if len(s.A): kw['A'] = s.A; kw['b'] = s.b*c + s.A @ t
    if len(s.Aeq): kw['A_eq'] = s.Aeq; kw['b_eq'] = s.beq*c + s.Aeq @ t
    if s.quads: kw['Ls'] = [L/c for L, y, r in s.quads]; kw['ys'] = [y*c + t for L, y, r in s.quads]; kw['rhos'] = [r for L, y, r in s.quads]
    if s.hull is not None: return psdr.ConvexHullDomain(s.hull*c + t, **kw)
    return psdr.LinQuadDomain(**kw) if s.quads else psdr.LinIneqDomain(**kw)
