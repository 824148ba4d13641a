import itertools
import numpy as np
import psdr
from psdr.geometry import voronoi_vertex, voronoi_vertex_sample, fill_distance, fill_distance_estimate
from .. import zoo
from ..core import scripted, ScriptedRandom

PID = 'G01'
BOUND = """Alphabet: polyhedra (intervals, boxes, cut boxes, triangles, rows only, cube, simplex, cut cube) x every set of 1..4 sites (3 in 3-d)
 from a lattice of interior points, faces and vertices x weighting matrices (none, identity, diagonal, sheared, rotated, singular,
 wide for the sampling routines) x spellings, and every such set with one more site a 20th to a 500th of the domain size away; sampling routines from every start of two lattices and every scripted random direction.
 Oracle: brute force over all choices of m hyperplanes among bisectors and faces, keeping solutions in the domain whose chosen
 bisectors belong to nearest sites; fill distance = largest distance to the sites over these vertices."""
ASSUMPTIONS = ['sites closer than 1e-9 to each other or within rounding of a degenerate bisector arrangement are matched to 1e-6']
CASE_CPU_LIMIT = 120.


def polys():
    out = [zoo.box('iv', [0], [1]), zoo.box('iv2', [-3], [5]), zoo.lin('ivc', 1, [-1], [2], [[2.]], [1.]),
           zoo.box('sq', [-1, -1], [1, 1]), zoo.box('re', [0, 10], [4, 11]), zoo.lin('cut', 2, [-1, -1], [1, 1], [(1, 1)], [1.]),
           zoo.lin('tri', 2, A=[(-1, 0), (0, -1), (1, 1)], b=[0, 0, 1]), zoo.lin('wide', 2, A=[(-1, 0), (0, -1), (1, 2)], b=[-10, -20, 150]),
           zoo.lin('red', 2, [-1, -1], [1, 1], [(1, 0), (1, 1)], [5., 1.5]),
           zoo.lin('eq', 2, [-1, -1], [1, 2], Aeq=[(1, 1)], beq=[.5]), zoo.lin('eq3', 3, [0, 0, 0], [1, 1, 1], None, None, [(1, 1, 1)], [1.5]),
           zoo.lin('eq3c', 3, [-1, -1, -1], [1, 1, 1], [(1, 0, -1)], [.5], [(1, 1, 0)], [0.]), zoo.lin('eq32', 3, [-1, -1, -1], [1, 1, 1], None, None, [(1, 1, 0), (0, 1, 1)], [0., .5]),
           zoo.hull('hull', [(0, 0), (2, 0), (3, 2), (1, 3), (-1, 1), (1, 1)]), zoo.hull('hulltri', [(0, 0), (2, 0), (0, 1)]), zoo.hull('hulltet', [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]),
           zoo.hull('hullA', [(0, 0), (2, 0), (0, 2)], A=[(1, 0)], b=[1.]), zoo.hull('hullseg', [(0, 0), (2, 1)]),
           zoo.tensor('tp', [zoo.box('b', [0], [2]), zoo.lin('t', 2, A=[(-1, 0), (0, -1), (1, 1)], b=[0, 0, 1])]),
           zoo.box('cube', [0, 0, 0], [1, 1, 1]), zoo.lin('simp', 3, A=[(-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 1, 1)], b=[0, 0, 0, 1]),
           zoo.lin('cutc', 3, [-1, -1, 0], [1, 1, 2], [(1, 1, 1)], [1.])]
    return out


P = {s.name: s for s in polys()}
LS = {1: {'none': None, 'id': [[1.]], 'two': [[2.]]},
      2: {'none': None, 'id': np.eye(2), 'diag': np.diag([1., 3.]), 'shear': [[1., 1.], [0., 2.]], 'rot': [[.6, .8], [-.8, .6]], 'neg': [[0., -2.], [1., .5]]},
      3: {'none': None, 'diag': np.diag([1., 2., .5]), 'shear': [[1., 1., 0], [0., 2., .5], [0, 0, 1.]]}}
LOW = {1: {}, 2: {'row': [[1., 2.]], 'sing': np.diag([1., 0.])}, 3: {'row': [[1., 2., -1.]], 'two': [[1., 0, 1.], [0, 1., .5]], 'sing': np.diag([1., 0., 2.])}}
TALL = {2: {'tall': [[1., 0.], [0., 2.], [1., 1.]]}, 1: {'tall': [[1.], [2.]]}, 3: {'tall': [[1., 0, 0], [0., 2., 0], [1., 1., 1], [0, 0, 1]]}}


def sites(s):
    pts = zoo.inner_points(s)
    c = pts[0]
    E = [s.support(d)[1] for d in zoo.directions(s.m)]
    if s.m == 1: return [c, E[0], E[1], .3*E[0] + .7*E[1], .9*E[0] + .1*E[1], .3*E[0] + .7*E[1]]
    if s.m == 2: return [c, .55*c + .45*E[0], E[1], .5*E[2] + .5*E[3], .2*c + .8*E[4], .7*c + .3*E[-1], .35*E[0] + .65*E[2]]
    return [c, .55*c + .45*E[0], E[1], .3*c + .7*E[3], .5*E[2] + .5*E[0]]


def cases(tier):
    out = []
    for s in polys():
        n = len(sites(s))
        K = {1: 4, 2: 4 if tier == 'thorough' else 3, 3: 3 if tier == 'thorough' else 2}[s.m]
        for k in range(1, K + 1):
            for S in itertools.combinations(range(n), k):
                out.append(('vertex/%s-%s' % (s.name, ''.join(map(str, S))), ('vertex', s.name, S, tier)))
                if s.m == 1 or k in (1, K) or tier == 'thorough':
                    out.append(('sample/%s-%s' % (s.name, ''.join(map(str, S))), ('sample', s.name, S, tier)))
        # points much closer to each other than to the rest
        for g in (.05, .01, .002):
            for k in range(1, K + 1 if tier == 'thorough' else (4 if s.m < 3 else 2)):
                for S in itertools.combinations(range(n), k):
                    if s.m == 2 and k == 2 and tier != 'thorough' and sum(S) % 2: continue
                    if s.m == 2 and k == 3 and tier != 'thorough' and sum(S) % 5: continue
                    out.append(('close/%s-%s-%g' % (s.name, ''.join(map(str, S)), g), ('close', s.name, S + (g,), tier)))
        if s.m == 2:
            for S in ((0, 1, 2, 3), (1, 3, 4, 5), (2, 3, 4, 6), (0, 1, 2, 3, 4, 5, 6)):
                if ('vertex/%s-%s' % (s.name, ''.join(map(str, S)))) not in [o[0] for o in out]:
                    out.append(('vertex/%s-%s' % (s.name, ''.join(map(str, S))), ('vertex', s.name, S, tier)))
    return out


def arrangement(s, X, L):
    """all bounded Voronoi vertices by brute force"""
    m = s.m
    A, b = [], []
    for i in range(m):
        e = np.eye(m)[i]
        if np.isfinite(s.ub[i]): A.append(e); b.append(s.ub[i])
        if np.isfinite(s.lb[i]): A.append(-e); b.append(-s.lb[i])
    A = np.array(A + list(s.A) + list(s.hA)).reshape(-1, m); b = np.hstack([b, s.b, s.hb])
    E, f = np.vstack([s.Aeq, s.hAeq]), np.hstack([s.beq, s.hbeq])
    M = L.T @ L
    X = X[np.sort(np.unique(np.round(X, 9), axis=0, return_index=True)[1])]
    planes = [(a, bi, None) for a, bi in zip(A, b)]
    for i, j in itertools.combinations(range(len(X)), 2):
        n = M @ (X[j] - X[i])
        if np.linalg.norm(n) > 1e-9: planes.append((n, n @ (X[i] + X[j])/2, (i, j)))
    V = []
    for S in itertools.combinations(planes, m - len(E)):
        N = np.array([p[0]/np.linalg.norm(p[0]) for p in S] + list(E))
        if abs(np.linalg.det(N)) < 1e-9: continue
        v = np.linalg.solve(N, [p[1]/np.linalg.norm(p[0]) for p in S] + list(f))
        if s.violation(v)[0] > 1e-8*s.scale(): continue
        d = np.linalg.norm((X - v) @ L.T, axis=1)
        if all(p[2] is None or max(d[p[2][0]], d[p[2][1]]) <= d.min() + 1e-8*s.scale() for p in S): V.append(v)
    V = np.array(V).reshape(-1, m)
    return V[np.sort(np.unique(np.round(V, 7), axis=0, return_index=True)[1])]


def mind(V, X, L):
    return np.linalg.norm((np.asarray(V)[:, None, :] - X[None]) @ L.T, axis=2).min(axis=1)


def run(payload, R):
    kind, name, S, tier = payload
    s = P[name]; m = s.m
    tol = 1e-6*s.scale()
    if kind == 'close':
        S, g = S[:-1], S[-1]
        X0 = np.array(sites(s))[list(S)]
        c = zoo.inner_points(s)[0]; E = [s.support(d)[1] for d in zoo.directions(m)]
        Xs = []
        for y in (c, E[0], E[2] if len(E) > 2 else E[-1]):
            u = y - X0[0]
            if np.linalg.norm(u) > 1e-9: Xs.append(np.vstack([X0, X0[0] + g*s.scale()*u/np.linalg.norm(u)]))
        Xs = [X for X in Xs if s.violation(X).max() < 1e-12]
        tol = 1e-5*s.scale()
    else: Xs = [np.array(sites(s))[list(S)]]
    for X in Xs: one(kind, name, S, tier, s, m, X, tol, R)


def one(kind, name, S, tier, s, m, X, tol, R):
    if kind in ('vertex', 'close'):
        for lab, L in list(LS[m].items()) + list(TALL.get(m, {}).items()):
            if kind == 'close' and lab in ('id', 'rot', 'neg') and tier != 'thorough': continue
            LL = np.eye(m) if L is None else np.array(L, dtype=float)
            want = arrangement(s, X, LL)
            dom = s.build()
            keep = X.copy()
            Larg = None if L is None else (np.array(L, dtype=float))
            st, V = R.attempt(voronoi_vertex, dom, X, L=Larg)
            msg = '%s sites %s L=%s' % (name, keep.tolist(), lab)
            R.check(np.array_equal(X, keep), 'mutated', msg)
            if R.check(st == 'ok', 'vertex-raises', '%s raised %s' % (msg, V)) and R.check(np.ndim(V) == 2 and V.shape[1] == m and np.all(np.isfinite(V)), 'vertex-shape', '%s: %s' % (msg, V)):
                R.state((name, S, lab, len(V)))
                R.check(s.violation(V).max() <= 1e-5, 'vertex-outside', '%s: %s' % (msg, V[np.argmax(s.violation(V))]))
                miss = [w for w in want if np.abs(V - w).max(axis=1).min() > tol]
                R.check(not miss, 'vertex-missing', lambda: '%s: %s not reported (reported %s)' % (msg, miss[0], V.tolist()))
                extra = [v for v in V if np.abs(want - v).max(axis=1).min() > tol]
                R.check(not extra, 'vertex-extra', lambda: '%s: reported %s is no vertex' % (msg, extra[0]))
            fd = mind(want, X, LL).max()
            st, d = R.attempt(fill_distance, dom, X, L=Larg)
            if R.check(st == 'ok', 'fill-raises', '%s fill_distance raised %s' % (msg, d)):
                R.close(d, fd, 'fill', msg, rtol=1e-6, atol=tol)
            if kind == 'close': continue
            P0 = np.vstack([zoo.grid(s, 4, 0.), .37*zoo.grid(s, 3, 0.) + .63*zoo.inner_points(s)[0]])
            P0 = P0[s.violation(P0) <= 1e-9*s.scale()]
            st, d = R.attempt(fill_distance_estimate, dom, X, L=Larg, X0=P0.copy())
            if R.check(st == 'ok', 'estimate-raises', '%s fill_distance_estimate raised %s' % (msg, d)):
                R.check(isinstance(d, float) and d <= fd + tol, 'estimate-above', '%s: estimate %g > fill distance %g' % (msg, d, fd))
                R.check(d >= mind(P0, X, LL).max() - tol, 'estimate-below-start', '%s: estimate %g below the start %g' % (msg, d, mind(P0, X, LL).max()))
                if len(X) == 1 and m <= 2:
                    R.check(d >= fd - tol or lab in ('shear', 'neg', 'tall'), 'estimate-single', '%s: %g vs %g' % (msg, d, fd))
            if lab == 'none':
                for n in (1, 20):
                    with scripted(ScriptedRandom((), base=4)):
                        st, d = R.attempt(fill_distance_estimate, dom, X, Nsamp=n)
                    R.check(st == 'ok' and d <= fd + tol, 'estimate-random', '%s Nsamp=%d: %s %s' % (msg, n, st, d))
    else:
        for lab, L in list(LS[m].items()) + list(LOW[m].items()) + list(TALL.get(m, {}).items()):
            LL = np.eye(m) if L is None else np.array(L, dtype=float)
            dom = s.build()
            G = zoo.grid(s, 5, 0.)
            c = zoo.inner_points(s)[0]
            off = np.array([.0137, -.0291, .0173])[:m]*(s.box()[1] - s.box()[0])
            start = np.vstack([c + (G - c)*np.array([.837, .713, .591])[:m], c + .9*(zoo.inner_points(s) - c)*np.array([.991, .973, .957])[:m]])
            start = np.vstack([start, start + off]); isoff = np.arange(len(start)) >= len(start)//2
            eq = len(s.Aeq) + len(s.hAeq) > 0
            if eq:
                Ee = np.vstack([s.Aeq, s.hAeq]); start = start - np.linalg.lstsq(Ee, (Ee @ (start - c).T), rcond=None)[0].T
            keep = s.violation(start) < (1e-12 if eq else -1e-6)
            isoff = isoff[keep]
            start = start[keep]
            gen = (np.abs(np.linalg.norm((start[:, None] - X[None]) @ LL.T, axis=2) - mind(start, X, LL)[:, None]) < 1e-3).sum(axis=1) <= 1
            gen &= mind(start, X, LL) > 1e-3
            gen &= isoff
            # generic: not aligned with the nearest site
            near = X[np.linalg.norm((start[:, None] - X[None]) @ LL.T, axis=2).argmin(axis=1)]
            gen &= (np.abs((start - near) @ LL.T @ LL)).min(axis=1) > 1e-3
            for rnd, script in ((True, ()), (False, ()), (True, (1,)), (True, (2,)), (True, (4,)), (True, (6,))):
                if script and lab not in ('none', 'row', 'sing', 'two'): continue
                X0 = start.copy(); Xk = X.copy()
                with scripted(ScriptedRandom(script, base=6)):
                    st, V = R.attempt(voronoi_vertex_sample, dom, X, X0, L=None if L is None else np.array(L, dtype=float), randomize=rnd)
                msg = '%s sites %s L=%s randomize=%s script=%s' % (name, X.tolist(), lab, rnd, script)
                if not R.check(st == 'ok', 'sample-raises', '%s raised %s' % (msg, V)): continue
                R.check(np.array_equal(X0, start) and np.array_equal(X, Xk), 'sample-mutated', msg)
                if not R.check(np.shape(V) == np.shape(start) and np.all(np.isfinite(V)), 'sample-shape', msg): continue
                v = s.violation(V)
                R.check(v.max() <= 1e-6*s.scale(), 'sample-outside', lambda: '%s: start %s ends at %s outside by %g' % (msg, start[v.argmax()], V[v.argmax()], v.max()))
                d0, d1 = mind(start, X, LL), mind(V, X, LL)
                bad = np.flatnonzero(d1 < d0 - tol)
                R.check(len(bad) == 0, 'sample-closer', lambda: '%s: start %s at distance %g ends at %s distance %g' % (msg, start[bad[0]], d0[bad[0]], V[bad[0]], d1[bad[0]]))
                R.state((name, S, lab, rnd, script, np.round(V, 4)))
                # number of active constraints
                A = np.vstack([s.A, s.hA, np.eye(m), -np.eye(m), s.Aeq, s.hAeq]); b = np.hstack([s.b, s.hb, s.ub, -s.lb, s.beq, s.hbeq])
                D = np.linalg.norm((V[:, None] - X[None]) @ LL.T, axis=2)
                cnt = (np.abs(V @ A.T - b) < 1e-5*s.scale()).sum(axis=1) + (D < D.min(axis=1)[:, None]*(1 + 2e-5) + 1e-5*s.scale()).sum(axis=1) - 1
                need = m if rnd else min(m, np.linalg.matrix_rank(LL))
                bad = np.flatnonzero((cnt < need) & gen)
                if len(np.unique(X, axis=0)) == len(X):
                    R.check(len(bad) == 0 or len(script), 'sample-constraints', lambda: '%s: start %s ends at %s with %d of %d constraints' % (msg, start[bad[0]], V[bad[0]], cnt[bad[0]], need))
