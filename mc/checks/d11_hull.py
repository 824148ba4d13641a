import itertools
import numpy as np
import psdr
from .. import zoo

PID = 'D11'
BOUND = """Alphabet: every nonempty subset of at most 4 points (5 thorough) of a line of 5, a 3x3 lattice and a 3-d lattice of 9 points, which
 contains every degenerate configuration (single points, segments, collinear triples, planar sets, non-extreme points), also with
 repeated points, reordered, scaled and shifted; 14 kinds of additional constraints on 6 hulls; every probe of a lattice around the hull.
 Oracle: half-space description of the hull by brute force over subsets of its points, plus the additional constraints."""
ASSUMPTIONS = ['probes closer than 1e-4 to the boundary without being on it are not judged']
LINE = [(0.,), (1.,), (2.5,), (-1.,), (1.75,)]
GRID = [(float(i), float(j)) for i in (0, 1, 2) for j in (0, 1, 2)]
CUBE = [(float(i), float(j), float(k)) for i in (0, 1) for j in (0, 1) for k in (0, 1)] + [(.5, .5, .5)]
TRANS = {'id': (lambda X: X), 'dup': (lambda X: np.vstack([X, X[:1], X[::-1]])), 'far': (lambda X: 1000 + X), 'aniso': (lambda X: X*np.array([100., .1, 7.])[:X.shape[1]] + np.array([-5., 3., 2.])[:X.shape[1]]),
         'near': (lambda X: np.vstack([X, X[-1:] + 1e-14]))}


def cases(tier):
    out = []
    K = 4 if tier == 'quick' else 5
    for nm, P in (('line', LINE), ('grid', GRID), ('cube', CUBE)):
        for k in range(1, K + 1):
            for S in itertools.combinations(range(len(P)), k):
                out.append(('%s/%s' % (nm, ''.join(map(str, S))), ('set', nm, S, tier)))
    for i in range(6):
        for c in CONS: out.append(('restricted/%d-%s' % (i, c), ('con', i, c, tier)))
    return out


BASE = [[(0, 0), (2, 0), (0, 2)], [(0, 0), (2, 0), (0, 1), (2, 1)], [(-1, -1), (2, 1)], [(1, .5)], [(0, 0), (1, 1), (2, 2)], [(-2, 0), (2, 0), (0, 3), (0, -1), (0, 0)]]
CONS = {'none': {}, 'lb': dict(lb=[.5, -np.inf]), 'ub': dict(ub=[1., .5]), 'lbub': dict(lb=[0, 0], ub=[1, 1]), 'A': dict(A=[(1, 1)], b=[1.]),
        'A2': dict(A=[(1, 0), (-1, 2)], b=[1., 1.]), 'eq': dict(Aeq=[(1, -1)], beq=[.25]), 'eqA': dict(Aeq=[(1, 1)], beq=[1.], A=[(1, 0)], b=[.75]),
        'Q': dict(quads=[(np.eye(2), (0, 0), 1.)]), 'Q2': dict(quads=[(np.eye(2), (0, 0), 1.5), (((1, 1), (0, 2)), (1, 0), 2.)]),
        'Qlb': dict(quads=[(np.eye(2), (.5, .5), 1.)], lb=[.25, 0]), 'far': dict(A=[(1, 1)], b=[100.]), 'empty': dict(A=[(1, 1)], b=[-50.]), 'all': dict(lb=[-.5, -.5], ub=[1.5, 1.5], A=[(1, 2)], b=[2.], quads=[(np.eye(2), (0, 0), 1.5)])}


def probes(s, X, n):
    lo, hi = X.min(axis=0), X.max(axis=0)
    w = np.where(hi > lo, hi - lo, 1.)
    ax = [np.linspace(l - .25*wi, h + .25*wi, n) for l, h, wi in zip(lo, hi, w)]
    G = np.array(list(itertools.product(*ax)))
    M = [X.mean(axis=0)] + list(X) + [(a + b)/2 for a, b in itertools.combinations(X[:6], 2)] + [.25*a + .75*X.mean(axis=0) for a in X[:6]]
    M += [1.25*a - .25*X.mean(axis=0) for a in X[:6]]
    return np.vstack([G, M])


def examine(R, name, s, X, dom, tier, n):
    P = probes(s, X, n)
    v = s.violation(P)
    judged = (v <= 1e-9*s.scale()) | (v > 1e-4)
    P, v = P[judged], v[judged]
    truth = v <= 1e-9*s.scale()
    R.step(2)
    got = dom.isinside(P)
    bad = np.flatnonzero(got != truth)
    R.check(len(bad) == 0, 'isinside', lambda: '%s isinside(%s) = %s, violation %g' % (name, P[bad[0]], got[bad[0]], v[bad[0]]))
    st, lin = R.attempt(dom.to_linineq)
    if R.check(st == 'ok', 'linineq-raises', '%s to_linineq raised %s' % (name, lin)):
        got = lin.isinside(P)
        bad = np.flatnonzero(got != truth)
        R.check(len(bad) == 0, 'linineq', lambda: '%s to_linineq().isinside(%s) = %s, violation %g' % (name, P[bad[0]], got[bad[0]], v[bad[0]]))
        V = getattr(lin, 'vertices', None)
        if R.check(V is not None and np.ndim(V) == 2 and len(V) > 0 and V.shape[1] == s.m, 'vertices', '%s: vertices %s' % (name, V)):
            V = np.asarray(V)
            R.check(all(np.abs(X - x).max(axis=1).min() < 1e-9 for x in V), 'vertices-member', '%s: %s' % (name, V))
            h = zoo.Spec('v', None, s.m, hull=V)
            R.check(h.violation(X).max() <= 1e-8*s.scale(), 'vertices-generate', '%s: vertices %s do not generate %s' % (name, V.tolist(), X.tolist()))
            R.check(len(np.unique(np.round(V, 9), axis=0)) == len(V), 'vertices-repeat', '%s: %s' % (name, V.tolist()))
            # none of them may be superfluous
            for i in range(len(V)):
                rest = np.delete(V, i, axis=0)
                R.check(len(rest) == 0 or zoo.Spec('v', None, s.m, hull=rest).violation(V[i])[0] > 1e-9, 'vertices-extreme', '%s: vertex %s is not extreme' % (name, V[i]))
        if s.hull is not None and not s.quads and (lin.names, len(lin)) is not None:
            R.check(list(lin.names) == list(dom.names), 'names', name)
    hull = zoo.Spec('h', None, s.m, hull=X)
    D = dom.X
    for x in P[hull.violation(P) <= 1e-9*s.scale()]:
        for lab, arg in (('array', x), ('list', x.tolist())):
            st, a = R.attempt(dom.coefficients, arg)
            if not R.check(st == 'ok', 'coef-raises', '%s coefficients(%s %s) raised %s' % (name, lab, x, a)): continue
            a = np.asarray(a)
            R.check(a.shape == (len(D),) and a.min() >= 0 and abs(a.sum() - 1) < 1e-7 and np.abs(a @ D - x).max() < 1e-7*s.scale(), 'coefficients',
                    lambda: '%s coefficients(%s) = %s' % (name, x, a))
    R.state((name, truth.sum(), len(P)))


def run(payload, R):
    if payload[0] == 'set':
        _, nm, S, tier = payload
        base = np.array({'line': LINE, 'grid': GRID, 'cube': CUBE}[nm])[list(S)]
        for t, f in TRANS.items():
            if nm == 'cube' and len(S) == 4 and t in ('far', 'near') and tier == 'quick': continue
            X = f(base)
            keep = X.copy()
            s = zoo.Spec('h', None, X.shape[1], hull=np.unique(np.round(X, 12), axis=0))
            dom = psdr.ConvexHullDomain(X)
            R.step()
            name = 'hull(%s)' % X.tolist()
            D = dom.X
            R.check(len(D) <= len(np.unique(X, axis=0)) and all(np.abs(D - x).max(axis=1).min() < 1e-9 for x in X), 'points', '%s keeps %s' % (name, D.tolist()))
            D[...] = 1e9
            R.check(np.abs(dom.X).max() < 1e8, 'aliased', name)
            examine(R, name, s, keep, dom, tier, {1: 9, 2: 7, 3: 4}[X.shape[1]])
            R.check(np.array_equal(X, keep), 'mutated', name)
            X[...] = 0
            R.check(np.all(dom.isinside(keep)), 'input-aliased', name)
    else:
        _, i, c, tier = payload
        X = np.array(BASE[i], dtype=float)
        kw = CONS[c]
        s = zoo.hull('x', X, **kw)
        d1 = s.build()
        examine(R, 'hull(%s)+%s' % (BASE[i], c), s, X, d1, tier, 9)
        # the same through add_constraints, in two steps
        d2 = psdr.ConvexHullDomain(X)
        ren = {'Aeq': 'A_eq', 'beq': 'b_eq'}
        for keys in (('lb', 'ub'), ('A', 'b'), ('Aeq', 'beq')):
            if any(k in kw for k in keys): d2 = d2.add_constraints(**{ren.get(k, k): kw[k] for k in keys if k in kw})
        for L, y, r in kw.get('quads', ()): d2 = d2.add_constraints(Ls=[np.array(L, dtype=float)], ys=[np.array(y, dtype=float)], rhos=[r])
        examine(R, 'hull(%s)+add %s' % (BASE[i], c), s, X, d2, tier, 9)
        for n in (1, 3):
            st, v = R.attempt(d1.sample, n)
            if s.empty: R.check((st, v) == ('raise', 'EmptyDomainException'), 'sample-empty', '%s %s sample answered %s %s' % (BASE[i], c, st, v))
            elif R.check(st == 'ok', 'sample-raises', '%s %s: %s' % (BASE[i], c, v)): R.check(s.violation(v).max() < 1.05e-5, 'sample', '%s %s: %s' % (BASE[i], c, v))
