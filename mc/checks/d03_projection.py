import itertools
import numpy as np
from .. import zoo
from .d01_membership import SPELL

PID = 'D03'
BOUND = """Alphabet: every domain of the zoo (m<=3, bounded, unbounded, empty) x a lattice of query points reaching past all
 faces x weighting matrices {none, diagonal, upper triangular, rank-deficient single row, tall} for closest_point, and x
 (A,b) from a menu of square, tall, wide and rank-deficient systems for constrained_least_squares.  Oracle: minimum over
 all active sets (every subset of linear constraints, every quadratic constraint active or not).
 The sets with linear or quadratic constraints and the hulls are also described in units of 1e-3, 1e3, 1e6 and 1e9 and
 moved to (1e6,...,1e6), for both problems."""
ASSUMPTIONS = ['the convex solver is trusted to about 1e-4 relative accuracy in the objective only']

ZOO = {s.name: s for s in zoo.everything()}


def Ls(m):
    out = [('I', None), ('diag', np.diag([1., 3., .5][:m])), ('tri', np.triu(np.ones((m, m)))*np.arange(1, m + 1)),
           ('row', np.array([[1., -1., 2.][:m]])), ('tall', np.vstack([np.eye(m), 2*np.ones((1, m))]))]
    return out


def systems(m):
    v = np.array([1., -2., .5][:m])
    out = [('id', np.eye(m), 3*v), ('id0', np.eye(m), 0*v), ('tall', np.vstack([np.diag([1., 2., 3.][:m]), np.ones((1, m))]), np.hstack([v, 4.])),
           ('row', np.array([[1., 2., -1.][:m]]), [5.]), ('neg', -np.eye(m)[::-1], 2*v + 1)]
    return out


def cases(tier):
    q = tier == 'quick'
    out = []
    for s in zoo.everything():
        X = queries(s, tier)
        for ln, _ in Ls(s.m):
            if s.m == 1 and ln in ('tri',): continue
            step = (1 if s.m < 3 else 3) if ln == 'I' or not q else 4
            out.append(('closest/%s/%s' % (s.name, ln), ('closest', s.name, ln, tier, step)))
        for k, sy in enumerate(systems(s.m)):
            out.append(('cls/%s/%s' % (s.name, sy[0]), ('cls', s.name, k)))
    for s in zoo.everything():
        for u, (c, o) in enumerate(zoo.UNITS):
            if zoo.rescaled(s, c, o) is not None: out.append(('units/%s/%g-%g' % (s.name, c, o), ('units', s.name, u, tier)))
    for k in sorted(SPELL): out.append(('spelling/%s' % k, ('spell', k, tier)))
    return out


def queries(s, tier):
    X = zoo.grid(s, 2 if tier == 'quick' else 3, margin=.6)
    if tier == 'quick' and s.m == 3: X = X[::3]
    I = zoo.inner_points(s)[:2]
    far = np.array([[40., -25., 10.][:s.m]])
    return np.vstack([X] + ([I] if len(I) else []) + [far])


def get(name):
    if name in ZOO: s = ZOO[name]; return s, s.build()
    s, b = SPELL[name]
    return s, b()


def judge(R, s, what, M, r, kind, x, sig):
    if s.empty:
        R.check(kind == 'EmptyDomainException', 'expected-Empty', '%s: got %s %s' % (what, kind, x)); return
    if not R.check(kind == 'ok', 'no-answer', '%s: raised %s' % (what, kind)): return
    x = np.asarray(x, dtype=float)
    if not R.check(x.shape == (s.m,) and np.all(np.isfinite(x)), 'shape', '%s = %s' % (what, x)): return
    sc = max(s.scale(), 1.)
    R.check(s.violation(x)[0] <= 2e-5*min(sc, 1e3), 'infeasible', '%s = %s violates by %g' % (what, x, s.violation(x)[0]))
    v, xs = s.min_affine(M, r)
    got = np.linalg.norm(M @ x - r)
    nM = np.linalg.norm(M, 2)
    # first order error of the solver is tol*|M|*scale; second order near zero optimum
    tol = 1e-4*nM*max(1., min(sc, 1e3)) + 1e-5*np.linalg.norm(r)
    R.check(got <= v + tol, sig, '%s = %s has distance %.8g, but %s in the domain has %.8g' % (what, x, got, xs, v))


def run(payload, R):
    if payload[0] == 'closest':
        _, name, ln, tier, step = payload
        s, d = get(name)
        L = dict(Ls(s.m))[ln]
        M = np.eye(s.m) if L is None else L
        for i, x0 in enumerate(queries(s, tier)):
            if i % step: continue
            q0 = x0.copy(); L0 = None if L is None else L.copy()
            kind, x = R.attempt(d.closest_point, x0, L=L) if L is not None else R.attempt(d.closest_point, x0)
            if kind == 'raise': kind, x = x, None
            R.check(np.array_equal(x0, q0) and (L is None or np.array_equal(L, L0)), 'mutates-input')
            judge(R, s, '%s.closest_point(%s, L=%s)' % (name, x0, ln), M, M @ x0, kind, x, 'not-closest')
            if x is not None and s.violation(x0)[0] <= 0:
                R.close(x, x0, 'member-moved', 'member of the domain moved', rtol=0, atol=1e-12)
            R.state((name, ln, i, kind, x if x is not None else 0))
            if s.empty and i > 1: break
        if ln == 'I':
            kind, x = R.attempt(d.closest_point, np.zeros(s.m + 1))
            R.check((kind, x) == ('raise', 'ValueError'), 'wrong-dim', 'got %s %s' % (kind, x))
            kind, x = R.attempt(d.closest_point, np.zeros(s.m), L=np.ones((1, s.m + 1))) if s.m > 1 else ('raise', 'ValueError')
            R.check((kind, x) == ('raise', 'ValueError'), 'wrong-dim', 'L: got %s %s' % (kind, x))
    elif payload[0] == 'units':
        # the same set described in other units or far from the origin
        _, name, u, tier = payload
        s = ZOO[name]; c, o = zoo.UNITS[u]
        M = [M for _, M, _ in systems(s.m) if len(M) >= s.m]
        for i, x0 in enumerate(queries(s, tier)):
            if i % (7 if tier == 'quick' else 2) != u % 2 or (s.empty and i > 7): continue
            d = zoo.rescaled(s, c, o)
            B = M[i % len(M)]
            far = max(1., 1e-2*o/c)
            for what, A, b, (kind, x) in (('closest_point', np.eye(s.m), x0, R.attempt(d.closest_point, x0*c + o)),
                                          ('constrained_least_squares', B, B @ x0, R.attempt(d.constrained_least_squares, B/c, B @ (x0 + o/c)))):
                what = '%s in units of 1/%g moved by %g: %s(%s)' % (name, c, o, what, x0)
                R.state((what, kind))
                if s.empty:
                    R.check((kind, x) == ('raise', 'EmptyDomainException'), 'units-expected-Empty', '%s: got %s %s' % (what, kind, x)); continue
                if not R.check(kind == 'ok', 'units-no-answer', '%s: raised %s' % (what, x)): continue
                y = (np.asarray(x) - o)/c
                sc = max(s.scale(), 1.)*far
                R.check(s.violation(y)[0] <= 2e-5*sc, 'units-infeasible', '%s = %s violates by %g in the units of the set' % (what, x, s.violation(y)[0]))
                v, xs = s.min_affine(A, b)
                R.check(np.linalg.norm(A @ y - b) <= v + 1e-4*np.linalg.norm(A, 2)*sc + 1e-5*np.linalg.norm(b)*far, 'units-not-closest',
                        '%s = %s (in the units of the set) has distance %.8g, but %s has %.8g' % (what, y, np.linalg.norm(A @ y - b), xs, v))
    elif payload[0] == 'cls':
        _, name, k = payload
        s, d = get(name)
        nm, A, b = systems(s.m)[k]
        for sc in (1., .1):
            kind, x = R.attempt(d.constrained_least_squares, A, np.array(b)*sc)
            if kind == 'raise': kind, x = x, None
            judge(R, s, '%s.constrained_least_squares(%s, %s)' % (name, nm, np.array(b)*sc), A, np.array(b)*sc, kind, x, 'not-minimal')
            R.state((name, nm, sc, kind, x if x is not None else 0))
    else:
        _, name, tier = payload
        s, d = get(name)
        for i, x0 in enumerate(queries(s, tier)):
            kind, x = R.attempt(d.closest_point, x0.tolist())
            if kind == 'raise': kind, x = x, None
            judge(R, s, '%s.closest_point(%s)' % (name, x0), np.eye(s.m), x0, kind, x, 'not-closest')
            R.state((name, i, kind, x if x is not None else 0))
        nm, A, b = systems(s.m)[0]
        kind, x = R.attempt(d.constrained_least_squares, A.tolist(), list(b))
        if kind == 'raise': kind, x = x, None
        judge(R, s, '%s.cls' % name, A, np.array(b), kind, x, 'not-minimal')
