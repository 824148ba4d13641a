import itertools
import numpy as np
from .. import zoo
from .d01_membership import SPELL

PID = 'D04'
BOUND = """Alphabet: every non-empty domain of the zoo (m<=3) x start points {extreme points in every lattice direction, their
 midpoints, centroid, points pushed exactly onto a face along every lattice direction} x directions {-1,0,1}^m, two generic
 ones, the directions from the start point to the other start points (edges, faces), the lattice directions projected into
 the equality constraints, and scalings by 1e3 and 1e-3.  Oracle: ratio test over the constraint list / largest quadratic
 root.  Points outside must be rejected."""
ASSUMPTIONS = ['extents of convex hull domains come from a convex solver and are compared to 1e-5 relative accuracy']
ZOO = {s.name: s for s in zoo.everything()}


def cases(tier):
    out = []
    for s in zoo.everything():
        if s.empty: continue
        out += [('ray/%s/%d' % (s.name, k), ('ray', s.name, k, tier)) for k in range(4)]
    out += [('spelling/%s' % k, ('spell', k)) for k in sorted(SPELL)]
    return out


def starts(s, tier):
    P = zoo.inner_points(s)
    if not len(P): P = np.array([[.5, -.25, 1.][:s.m], [0., 0, 0][:s.m]])
    P = P[s.violation(P) <= 1e-9]
    n = (10 if s.m < 3 else 6) if tier == 'quick' else 24
    if len(P) > n: P = P[np.unique(np.linspace(0, len(P) - 1, n).astype(int))]
    Q = []
    for p in zoo.directions(s.m)[:8 if tier == 'quick' else None]:
        a = s.extent(P[0], p)
        if np.isfinite(a): Q.append(P[0] + a*p)
    P = np.round(np.vstack([P] + [q[None] for q in Q]), 11)
    return P[s.violation(P) <= 1e-8*s.scale()]


def dirs(s, x, P):
    D = zoo.directions(s.m)
    Ae = np.vstack([s.Aeq, s.hAeq])
    if len(Ae):
        Q = np.linalg.svd(Ae.T)[0][:, np.linalg.matrix_rank(Ae):]
        D = D + [Q @ (Q.T @ d) for d in D] + [-Q @ (Q.T @ d) for d in D[:1]]
    D = D + [y - x for y in P]
    D = D + [1e3*D[-1], 1e-3*D[0], -1e3*D[0]]
    D = [np.round(d, 11) for d in D]
    return [d for d in D if np.linalg.norm(d) > 1e-6]


def judge(R, s, x, p, kind, a):
    # a direction within rounding of a face may be read either way
    vs = [s.extent(x, p, t) for t in (1e-15, 1e-12, 1e-9)]
    v = vs[1]
    if not R.check(kind == 'ok', 'no-answer', '%s.extent(%s,%s) raised %s' % (s.name, x, p, kind)): return
    if not R.check(np.ndim(a) == 0 and not np.isnan(float(a)) and a >= 0, 'shape', 'extent=%r' % (a,)): return
    a = float(a)
    if min(vs) != max(vs): return
    if np.isinf(v) or np.isinf(a):
        R.check(a == v, 'infinite', '%s.extent(%s,%s)=%g expected %g' % (s.name, x.tolist(), p.tolist(), a, v)); return
    pn = np.linalg.norm(p)
    tol = 1e-9*s.scale()
    if s.quads: tol = 3e-7*s.scale()         # tangent to a curved face: square root of the rounding error
    if s.hull is not None or len(s.hA): tol = 1e-5*max(s.scale(), 1.)
    # compare lengths of the steps
    R.check(abs(a - v)*pn <= tol, 'too-far' if a > v else 'too-short', '%s.extent(%s,%s)=%.10g expected %.10g' % (s.name, x.tolist(), p.tolist(), a, v))


def run(payload, R):
    if payload[0] == 'spell':
        s, build = SPELL[payload[1]]; d = build()
        P = starts(s, 'quick')[:3]
        for x in P:
            for p in zoo.directions(s.m):
                kind, a = R.attempt(d.extent, x.tolist(), p)
                judge(R, s, x, p, kind if kind == 'ok' else a, a)
                if np.all(p == np.round(p)):
                    kind, a = R.attempt(d.extent, x, p.astype(int))
                    judge(R, s, x, p, kind if kind == 'ok' else a, a)
                R.state((s.name, x, p, a))
        return
    _, name, part, tier = payload
    s = ZOO[name]; d = s.build()
    P = starts(s, tier)
    for i, x in enumerate(P):
        if i % 4 != part: continue
        for k, p in enumerate(dirs(s, x, P)):
            x0, p0 = x.copy(), p.copy()
            kind, a = R.attempt(d.extent, x, p)
            R.check(np.array_equal(x, x0) and np.array_equal(p, p0), 'mutates-input', '%s' % name)
            judge(R, s, x, p, kind if kind == 'ok' else a, a)
            R.state((name, i, k, a))
    if part == 0:
        X = zoo.grid(s, 3, .5)
        X = X[s.violation(X) > 1e-2*s.scale()]
        for x in X[:6]:
            kind, a = R.attempt(d.extent, x, np.ones(s.m))
            R.check(kind == 'raise', 'outside-accepted', '%s.extent from outside point %s = %s' % (name, x, a))
        for bad in ((np.zeros(s.m + 1), np.ones(s.m)),):
            kind, a = R.attempt(d.extent, *bad)
            R.check(kind == 'raise', 'wrong-dim', 'got %s' % a)
