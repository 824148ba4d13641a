import itertools
import numpy as np
from .. import zoo

PID = 'D01'
BOUND = """Alphabet: every domain of the zoo (boxes, half-infinite boxes, polyhedra from all subsets of a row menu,
 equality-constrained, quadratic, hulls, points, (truncated) normals, log-normals, tensor products, empty sets; m<=3),
 every constructor spelling of the same constraints, and every point of a lattice that reaches past all faces plus all
 extreme points, probed singly, as a list and as a batch, at tolerances {default,1e-3,1e-8}.  Oracle: the constraint list
 itself, evaluated independently; hulls by brute-force facet enumeration.  The constraint
 arrays a domain reports (A, b, A_eq, b_eq, lb, ub, Ls, ys, rhos) must have matching shapes and describe the same set.  Points whose violation lies between 0 and
 10 tol are not judged."""
ASSUMPTIONS = ['points violating a constraint by more than 0 but less than ten tolerances are not judged']


def cases(tier):
    n = 5 if tier == 'quick' else 9
    out = [('grid/%s' % s.name, ('grid', s.name, n)) for s in zoo.everything()]
    out += [('spelling/%s' % k, ('spell', k)) for k in sorted(SPELL)]
    return out


ZOO = {s.name: s for s in zoo.everything()}


def _b(x): return np.asarray(x).astype(bool)


def run(p, R):
    if p[0] == 'spell': return run_spell(p[1], R)
    _, name, n = p
    s = ZOO[name]
    d = s.build()
    R.step()
    R.check(len(d) == s.m, 'dimension', 'len=%s' % len(d))
    X = zoo.grid(s, n)
    I = zoo.inner_points(s)
    if len(I):
        # members, and members displaced by a fraction of each tolerance
        E = np.vstack([np.eye(s.m), -np.eye(s.m)])
        near = [I[:6, None, :] + .1*t*E[None, :, :] for t in (1e-5, 1e-3)]
        X = np.vstack([X, I] + [x.reshape(-1, s.m) for x in near])
    v = s.violation(X)
    sc = s.scale()
    for tol in (None, 1e-3, 1e-8):
        t = 1e-5 if tol is None else tol
        kw = {} if tol is None else {'tol': tol}
        ans = _b(d.isinside(X.copy(), **kw)); R.step()
        if not R.check(ans.shape == (len(X),), 'shape', 'batch answer has shape %s' % (ans.shape,)): return
        must = v <= .3*t
        if tol == 1e-8: must = v <= 1e-10*min(sc, 10)
        if tol == 1e-8: must &= False if s.hull is not None or getattr(s, 'parts', None) and s.hA.size else True
        mustnot = v > 10*t*max(1., 1. if s.hull is None else sc)
        for i in np.nonzero(must & ~ans)[0][:2]:
            R.fail('rejects-member', 'tol=%s point %s violation %.3g reported outside' % (tol, X[i].tolist(), v[i]))
        for i in np.nonzero(mustnot & ans)[0][:2]:
            R.fail('accepts-outsider', 'tol=%s point %s violation %.3g reported inside' % (tol, X[i].tolist(), v[i]))
        R.ok(int(np.sum(must) + np.sum(mustnot)))
        for i in range(len(X)): R.state((name, tol, i, bool(ans[i])))
        if tol is None: base = ans
    if described(s): run_description(d, s, X, v, R)
    # single, list, sub-batch, order
    step = max(1, len(X)//(40 if n <= 5 else 200))
    for i in range(0, len(X), step):
        one = _b(d.isinside(X[i].copy())); two = _b(d.isinside(X[i].tolist())); R.step(2)
        R.check(one.size == 1 and two.size == 1 and bool(one.ravel()[0]) == bool(base[i]) == bool(two.ravel()[0]),
                'single-vs-batch', 'point %s batch=%s single=%s list=%s' % (X[i], base[i], one, two))
    rev = _b(d.isinside(X[::-1].copy())); R.step()
    R.check(np.array_equal(rev[::-1], base), 'order', 'answer depends on the order of the batch')
    for w in (2, 3, 5):
        for i in range(0, len(X) - w, max(1, len(X)//(30 if n <= 5 else 150))):
            # neighbours in the lattice, and a far away companion
            J = np.arange(i, i + w); J[-1] = (i*7 + 3) % len(X)
            sub = _b(d.isinside(X[J])); R.step()
            R.check(sub.shape == (w,) and np.array_equal(sub, base[J]), 'batch-size', 'points %s together: %s, before: %s' % (X[J].tolist(), sub, base[J]))
    e = _b(d.isinside(np.zeros((0, s.m)))); R.step()
    R.check(e.shape == (0,), 'empty-batch', 'shape %s' % (e.shape,))
    # wrong dimension
    for k in (s.m + 1, s.m - 1):
        if k < 1: continue
        w = _b(d.isinside(np.zeros((3, k)))); w1 = _b(d.isinside(np.zeros(k))); R.step(2)
        R.check(w.shape == (3,) and not w.any(), 'wrong-dim', 'dimension %d: %s' % (k, w))
        R.check(not np.any(w1), 'wrong-dim', 'dimension %d single: %s' % (k, w1))


# --- the constraint arrays a domain reports describe the same set ------------
def described(s):
    if getattr(s, 'parts', None): return all(described(q) for q in s.parts)
    return s.hull is None and not (getattr(s, 'measure', None) and s.measure[0] == 'lognormal') and not s.name.startswith('pt')


def run_description(d, s, X, v, R):
    m = s.m
    A, b, Ae, be = (np.asarray(x, dtype=float) for x in (d.A, d.b, d.A_eq, d.b_eq))
    lb, ub = np.asarray(d.lb, dtype=float), np.asarray(d.ub, dtype=float)
    Ls, ys, rhos = list(d.Ls), list(d.ys), list(d.rhos)
    R.step()
    if not R.check(A.ndim == 2 and A.shape[1] == m and b.shape == (len(A),) and Ae.ndim == 2 and Ae.shape[1] == m
                   and be.shape == (len(Ae),) and lb.shape == ub.shape == (m,), 'array-shapes',
                   'A%s b%s A_eq%s b_eq%s lb%s ub%s' % (A.shape, b.shape, Ae.shape, be.shape, lb.shape, ub.shape)): return
    if not R.check(len(Ls) == len(ys) == len(rhos) and all(np.asarray(L).ndim == 2 and np.asarray(L).shape[1] == m for L in Ls),
                   'array-shapes', '%d Ls, %d ys, %d rhos' % (len(Ls), len(ys), len(rhos))): return
    w = np.zeros(len(X))
    for x in (X - ub, lb - X, X @ A.T - b, np.abs(X @ Ae.T - be)):
        if x.shape[1]: w = np.maximum(w, np.max(x, axis=1))
    for L, y, rho in zip(Ls, ys, rhos):
        w = np.maximum(w, np.linalg.norm((X - y) @ np.asarray(L).T, axis=1) - rho)
    sc = max(1., min(s.scale(), 1e6))
    for i in range(len(X)):
        if v[i] <= 1e-10: R.check(w[i] <= 1e-8*sc, 'arrays-exclude-member', 'the reported arrays exclude %s by %.3g' % (X[i].tolist(), w[i]))
        elif v[i] > 1e-4*sc: R.check(w[i] > 1e-7, 'arrays-admit-outsider', 'the reported arrays admit %s, violation %.3g' % (X[i].tolist(), v[i]))


# --- constructor spellings: the same constraint set written differently ------
def _spell():
    import psdr
    S = {}
    sq = zoo.box('sq', [-1, -1], [1, 1])
    one = zoo.box('one', [-1], [2])
    S['box-list'] = (sq, lambda: psdr.BoxDomain([-1, -1], [1, 1]))
    S['box-int'] = (sq, lambda: psdr.BoxDomain(np.array([-1, -1]), np.array([1, 1])))
    S['box-scalar'] = (one, lambda: psdr.BoxDomain(-1, 2))
    S['box-float-scalar'] = (one, lambda: psdr.BoxDomain(-1., 2.))
    S['box-as-lin'] = (sq, lambda: psdr.LinIneqDomain(A=[[1, 0], [-1, 0], [0, 1], [0, -1]], b=[1, 1, 1, 1]))
    S['box-as-quad'] = (sq, lambda: psdr.LinQuadDomain(lb=[-1, -1], ub=[1, 1]))
    S['box-as-hull'] = (sq, lambda: psdr.ConvexHullDomain([[-1, -1], [1, -1], [-1, 1], [1, 1]]))
    S['box-as-tensor'] = (sq, lambda: psdr.BoxDomain(-1, 1)*psdr.BoxDomain(-1, 1))
    S['box-uniform'] = (sq, lambda: psdr.UniformDomain([-1, -1], [1, 1]))
    S['box-quad-rows'] = (sq, lambda: psdr.LinQuadDomain(Ls=[[[1, 0]], [[0, 1]]], ys=[[0, 0], [0, 0]], rhos=[1, 1]))
    half = zoo.lin('half', 2, [-1, -1], [1, 1], [(1, 1)], [.5])
    S['row-1d'] = (half, lambda: psdr.LinIneqDomain(A=[1, 1], b=[.5], lb=[-1, -1], ub=[1, 1]))
    S['row-scalar-b'] = (half, lambda: psdr.LinIneqDomain(A=[1, 1], b=.5, lb=[-1, -1], ub=[1, 1]))
    S['row-tuple'] = (half, lambda: psdr.LinIneqDomain(A=((1, 1),), b=(.5,), lb=(-1, -1), ub=(1, 1)))
    S['row-ub-only'] = (zoo.lin('h', 2, None, [1, 1], [(1, 1)], [.5]), lambda: psdr.LinIneqDomain(A=[[1, 1]], b=[.5], ub=[1, 1]))
    S['row-lb-only'] = (zoo.lin('h', 2, [-1, -1], None, [(1, 1)], [.5]), lambda: psdr.LinIneqDomain(A=[[1, 1]], b=[.5], lb=[-1, -1]))
    S['eq-1d'] = (zoo.lin('h', 2, [-1, -1], [1, 1], None, None, [(1, 1)], [.5]), lambda: psdr.LinIneqDomain(A_eq=[1, 1], b_eq=.5, lb=[-1, -1], ub=[1, 1]))
    S['eq-quad'] = (zoo.lin('h', 2, [-1, -1], [1, 1], None, None, [(1, 1)], [.5]), lambda: psdr.LinQuadDomain(A_eq=[1, 1], b_eq=.5, lb=[-1, -1], ub=[1, 1]))
    S['eq-add'] = (zoo.lin('h', 2, [-1, -1], [1, 1], None, None, [(1, 1)], [.5]), lambda: psdr.BoxDomain([-1, -1], [1, 1]).add_constraints(A_eq=[1, 1], b_eq=.5))
    S['ball-list'] = (zoo.quad('b', 2, quads=[zoo.QUADS2['E']]), lambda: psdr.LinQuadDomain(Ls=[[[1, 1], [0, 2]]], ys=[[.5, 0]], rhos=[1.5]))
    S['ball-add'] = (zoo.quad('b', 2, [-1, -1], [1, 1], quads=[zoo.QUADS2['B']]),
                     lambda: psdr.BoxDomain([-1, -1], [1, 1]).add_constraints(Ls=[np.eye(2)], ys=[np.zeros(2)], rhos=[1]))
    S['normal-scalar'] = (zoo.normal('n', [1.], [[4.]], .1), lambda: psdr.NormalDomain(1, 4, truncate=.1))
    S['normal-float'] = (zoo.normal('n', [1.], [[4.]], .1), lambda: psdr.NormalDomain(1., 4., truncate=.1))
    S['normal-default'] = (zoo.normal('n', [1., 2.], np.eye(2), .1), lambda: psdr.NormalDomain([1, 2], truncate=.1))
    S['normal-list'] = (zoo.normal('n', [0, 1], [[2, 1], [1, 2]], .05), lambda: psdr.NormalDomain([0, 1], [[2, 1], [1, 2]], truncate=.05))
    S['tensor-nested'] = (zoo.box('t', [-1, 0, 2], [1, 1, 3]), lambda: psdr.TensorProductDomain([psdr.TensorProductDomain([psdr.BoxDomain(-1, 1), psdr.BoxDomain(0, 1)]), psdr.BoxDomain(2, 3)]))
    S['tensor-mul3'] = (zoo.box('t', [-1, 0, 2], [1, 1, 3]), lambda: psdr.BoxDomain(-1, 1)*psdr.BoxDomain(0, 1)*psdr.BoxDomain(2, 3))
    S['hull-int'] = (zoo.hull('h', [(0, 0), (2, 0), (0, 1)]), lambda: psdr.ConvexHullDomain(np.array([[0, 0], [2, 0], [0, 1]])))
    S['point-list'] = (zoo.point('p', [1., 2.]), lambda: psdr.PointDomain([1, 2]))
    S['copy'] = (half, lambda: psdr.LinIneqDomain(A=[[1, 1]], b=[.5], lb=[-1, -1], ub=[1, 1]).copy())
    return S


SPELL = _spell()


def run_spell(k, R):
    s, build = SPELL[k]
    d = build(); R.step()
    X = np.vstack([zoo.grid(s, 7), zoo.inner_points(s)])
    v = s.violation(X)
    ans = _b(d.isinside(X)); R.step()
    for i in range(len(X)):
        if v[i] <= 1e-10: R.check(ans[i], 'rejects-member', '%s violation %.3g' % (X[i], v[i]))
        elif v[i] > 1e-4: R.check(not ans[i], 'accepts-outsider', '%s violation %.3g' % (X[i], v[i]))
        R.state((k, i, bool(ans[i])))
