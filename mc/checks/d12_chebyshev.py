import itertools
import numpy as np
import psdr
from .. import zoo
from .d08_sampling import flats

PID = 'D12'
BOUND = """Alphabet: every polyhedral domain of the zoo (boxes, inequality rows x bounds x equality rows, triangles, simplices, cubes,
 flat, thin, far away, scaled, unbounded and empty ones), every subset of up to three rows of a row alphabet with and without bounds,
 rows scaled by {1, 1e-3, 1e3}, every set also in units of 1e-3, 1e3, 1e6 and 1e9 and moved to (1e6,...,1e6).  Oracle: the largest r for which {x in D: a.x + r|a| <= b for every inequality and bound} is not empty,
 by enumeration of all active sets in (x, r) space; infinite and empty cases are recognised by the same enumeration."""
ASSUMPTIONS = ['linear programs are solved by an interior point method: radii are compared to 1e-5 relative to the size of the domain']
ROWS = [((1, 0), 1.), ((-1, 0), 2.), ((0, 1), .5), ((0, -1), 1.), ((1, 1), 1.), ((-1, 2), 1.), ((1, -1), 0.), ((-2, -1), 3.)]


def specs():
    out = [s for s in zoo.linears() + zoo.half_linears() + zoo.empties() + flats() if type(s.build()).__name__ in ('LinIneqDomain',)]
    for k in range(1, 4):
        for S in itertools.combinations(range(len(ROWS)), k):
            out.append(zoo.lin('rows-%s' % ''.join(map(str, S)), 2, A=[ROWS[i][0] for i in S], b=[ROWS[i][1] for i in S]))
            if k < 3:
                out.append(zoo.lin('rowsb-%s' % ''.join(map(str, S)), 2, [-1, -1], [1, 2], A=[ROWS[i][0] for i in S], b=[ROWS[i][1] for i in S]))
            if k == 1:
                out.append(zoo.lin('rowse-%s' % ''.join(map(str, S)), 2, [-1, -1], [1, 2], A=[ROWS[i][0] for i in S], b=[ROWS[i][1] for i in S], Aeq=[(1, 2)], beq=[1.]))
    for f in (1e-3, 1e3):
        out.append(zoo.lin('scaled-%g' % f, 2, A=[(-f, 0), (0, -1/f), (f, f)], b=[0, 0, f]))
        out.append(zoo.lin('size-%g' % f, 2, A=[(-1, 0), (0, -1), (1, 1)], b=[0, 0, f]))
        out.append(zoo.lin('shift-%g' % f, 2, [f, f], [f + 1, f + 2], [(1, 1)], [2*f + 2]))
    out.append(zoo.lin('zero-row', 2, [-1, -1], [1, 2], [(0, 0), (1, 1)], [1., 1.]))
    out.append(zoo.lin('eqpt', 2, Aeq=[(1, 1), (1, -1)], beq=[1., 0.]))
    out.append(zoo.lin('infeas-eq', 2, [-1, -1], [1, 1], Aeq=[(1, 1), (1, 1)], beq=[1., 0.]))
    return out


def cases(tier):
    return [('cheb/%s' % s.name, (s.name, tier)) for s in specs()] + [('hull/%s' % s.name, ('hull:' + s.name, tier)) for s in zoo.hulls()]


ALL = None


def lifted(s):
    """the set of (x, r) with every ball constraint"""
    m = s.m
    A, b = [], []
    for i in range(m):
        e = np.eye(m)[i]
        if np.isfinite(s.ub[i]): A.append(np.hstack([e, 1])); b.append(s.ub[i])
        if np.isfinite(s.lb[i]): A.append(np.hstack([-e, 1])); b.append(-s.lb[i])
    for a, bi in zip(np.vstack([s.A, s.hA]), np.hstack([s.b, s.hb])):
        A.append(np.hstack([a, np.linalg.norm(a)])); b.append(bi)
    Ae = np.hstack([np.vstack([s.Aeq, s.hAeq]), np.zeros((len(s.Aeq) + len(s.hAeq), 1))]); be = np.hstack([s.beq, s.hbeq])
    return zoo.Spec('lift', None, m + 1, lb=[-np.inf]*m + [0.], A=A or None, b=b or None, Aeq=Ae, beq=be)


def run(payload, R):
    global ALL
    if ALL is None:
        ALL = {s.name: s for s in specs()}; ALL.update({'hull:' + s.name: s for s in zoo.hulls()})
    name, tier = payload
    s = ALL[name]
    if s.hull is not None:
        if s.quads: return
        dom = psdr.LinIneqDomain(A=np.vstack([s.hA, s.A]), b=np.hstack([s.hb, s.b]), lb=s.lb, ub=s.ub, A_eq=np.vstack([s.hAeq, s.Aeq]), b_eq=np.hstack([s.hbeq, s.beq]))
    else:
        dom = s.build()
    e = np.zeros(s.m + 1); e[-1] = 1
    want = lifted(s).support(e)[0]
    st, v = R.attempt(dom.chebyshev_center)
    R.state((name, want, st))
    if want is None:
        R.check((st, v) == ('raise', 'EmptyDomainException'), 'empty', '%s: empty domain answered %s %s' % (name, st, v)); return
    if np.isinf(want):
        R.check((st, v) == ('raise', 'UnboundedDomainException'), 'unbounded', '%s: unlimited radius answered %s %s' % (name, st, v)); return
    if not R.check(st == 'ok', 'raises', '%s raised %s' % (name, v)): return
    x, r = v
    if not R.check(np.shape(x) == (s.m,) and np.ndim(r) == 0, 'shape', '%s %s %s' % (name, x, r)): return
    tol = 1e-5*max(1., s.scale())
    R.check(abs(r - want) <= tol, 'radius', '%s: radius %r, the largest is %r' % (name, r, want))
    R.check(s.violation(x)[0] <= tol and np.all(dom.isinside(x)), 'center-outside', '%s: center %s violates by %g' % (name, x, s.violation(x)[0]))
    # the ball: distance to every inequality
    A, b = np.vstack([s.A, s.hA, np.eye(s.m), -np.eye(s.m)]), np.hstack([s.b, s.hb, s.ub, -s.lb])
    nA = np.linalg.norm(A, axis=1)
    slack = (b - A @ x)[nA > 0]/nA[nA > 0]
    R.check(slack.min() >= want - 2*tol, 'ball', '%s: the ball of radius %g about %s leaves the domain (slack %g)' % (name, want, x, slack.min()))
    # history: properties, repeated calls and the returned arrays
    d2 = dom.copy() if hasattr(dom, 'copy') else dom
    c = np.array(dom.center)
    R.step(3)
    R.close(c, x, 'center-property', name, atol=tol); R.close(dom.radius, r, 'radius-property', name, atol=tol)
    keep = x.copy()
    x[...] = 1e7
    R.close(dom.center, keep, 'aliased', name, atol=tol)
    y = dom.center; y += 5
    R.close(dom.center, keep, 'aliased', name, atol=tol)
    fresh = s.build() if s.hull is None else None
    if fresh is not None:
        R.close(fresh.radius, r, 'radius-first', name, atol=tol)
        fresh = s.build(); R.step(2)
        cf = fresh.center
        R.check(s.violation(cf)[0] <= tol, 'center-first', name)
        # asking after other queries
        fresh = s.build()
        if s.bounded:
            fresh.corner(np.ones(s.m)); fresh.is_point; fresh.is_empty
            R.close(fresh.chebyshev_center()[1], r, 'history', name, atol=tol)
        # the same set in other units or far from the origin
    for c, o in zoo.UNITS if s.hull is None else []:
        g = zoo.rescaled(s, c, o)
        if g is None: g = psdr.LinIneqDomain(A=np.zeros((0, s.m)), b=[], lb=s.lb*c + o, ub=s.ub*c + o)
        st, v = R.attempt(g.chebyshev_center)
        if not R.check(st == 'ok', 'units-raises', '%s in units of 1/%g moved by %g: raised %s' % (name, c, o, v)): continue
        far = tol*max(1., 1e-2*o/c)
        R.check(abs(v[1]/c - want) <= far and s.violation((v[0] - o)/c)[0] <= far, 'units', '%s in units of 1/%g moved by %g: %r, the radius is %r' % (name, c, o, v, want))
    # a multiple of every row describes the same set
        if len(s.b):
            f = np.array([1e-2, 1e2, 3.])[np.arange(len(s.b)) % 3]
            g = psdr.LinIneqDomain(A=s.A*f[:, None], b=s.b*f, lb=s.lb, ub=s.ub, A_eq=s.Aeq, b_eq=s.beq)
            R.step()
            R.check(abs(g.chebyshev_center()[1] - want) <= tol, 'row-scaling', '%s: %r instead of %r' % (name, g.radius, want))
