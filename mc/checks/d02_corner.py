import itertools
import numpy as np
from .. import zoo

PID = 'D02'
BOUND = """Alphabet: every domain of the zoo (bounded, unbounded, empty; m<=3) times every direction of the lattice
 {-1,0,1}^m plus two generic ones and directions of length 1e-12, 1e-9, 1e-3, 1e3, 1e9 and 1e12.  Oracle: support function by enumeration of all active
 sets; infinite support => unbounded must be reported, no feasible active set => emptiness must be reported.  The
 sets with linear or quadratic constraints and the hulls are also described in units of 1e-3, 1e3, 1e6 and 1e9 and moved to
 (1e6,...,1e6).  Every direction is asked on a fresh object and (thorough) on an object that answered every other direction before."""
ASSUMPTIONS = ['the convex solver is trusted to about 2e-5 relative accuracy only; answers are judged at that accuracy']

def _spell():
    import psdr
    from .d01_membership import SPELL
    S = dict(SPELL)
    S['box-mixed'] = (zoo.box('m', [0, -1], [1.5, 2.25]), lambda: psdr.BoxDomain([0, -1], [1.5, 2.25]))
    S['box-mixed2'] = (zoo.box('m', [-.5, -1.5], [1, 2]), lambda: psdr.BoxDomain([-.5, -1.5], [1, 2]))
    S['lin-mixed'] = (zoo.lin('m', 2, [0, -1], [1.5, 2.25], [(1, 1)], [1.25]), lambda: psdr.LinIneqDomain(lb=[0, -1], ub=[1.5, 2.25], A=[[1, 1]], b=[1.25]))
    S['add-mixed'] = (zoo.box('m', [.25, -1], [1, 1.5]), lambda: psdr.BoxDomain([0, -1], [1, 2]).add_constraints(lb=[.25, -2], ub=[3, 1.5]))
    S['tensor-mixed'] = (zoo.box('m', [0, -1], [1.5, 2.5]), lambda: psdr.BoxDomain(0, 1.5)*psdr.BoxDomain(-1, 2.5))
    return S


SPELL = _spell()
ZOO = {s.name: s for s in zoo.everything()}


def dirs(m):
    D = zoo.directions(m)
    D += [1e3*D[-1], 1e-3*D[-2], 1e-12*D[2 % len(D)], 1e-9*D[-1], 1e9*D[-2], 1e12*D[-1]]
    return D


def cases(tier):
    out = []
    for s in zoo.everything():
        n = len(dirs(s.m))
        for k in range(n):
            if tier == 'quick' and s.m == 3 and k % 2 and s.name.startswith('tp'): continue
            out.append(('fresh/%s/%d' % (s.name, k), (s.name, [k])))
        out.append(('chain/%s' % s.name, (s.name, list(range(n)) if tier != 'quick' else list(range(0, n, max(1, n//6))))))
    for s in zoo.everything():
        for u, (c, o) in enumerate(zoo.UNITS):
            if zoo.rescaled(s, c, o) is not None: out.append(('units/%s/%g-%g' % (s.name, c, o), ('units', s.name, u, tier)))
    for k in sorted(SPELL):
        out.append(('spelling/%s' % k, (k, list(range(len(dirs(SPELL[k][0].m)))))))
    return out


def expect(s, p):
    v, x = s.support(p)
    if s.empty: return 'EmptyDomainException', None
    if not np.isfinite(v): return 'UnboundedDomainException', None
    return 'ok', v


def judge(R, s, p, kind, x):
    want, v = expect(s, p)
    if want != 'ok':
        R.check(kind == want, 'expected-%s' % want, '%s corner(%s): got %s %s' % (s.name, p, kind, x))
        return
    if not R.check(kind == 'ok', 'no-answer', '%s corner(%s): raised %s, maximum is %g' % (s.name, p, kind, v)): return
    x = np.asarray(x)
    if not R.check(x.shape == (s.m,) and np.all(np.isfinite(x)), 'shape', '%s corner(%s)=%s' % (s.name, p, x)): return
    sc = max(s.scale(), float(np.abs(x).max()))
    R.check(s.violation(x)[0] <= 2e-5*max(1, min(sc, 1e3)), 'infeasible', '%s corner(%s)=%s violates by %g' % (s.name, p, x, s.violation(x)[0]))
    pn = np.abs(p).max()
    R.check(p @ x >= v - 2e-5*pn*sc, 'not-furthest', '%s corner(%s)=%s reaches %.9g, maximum %.9g' % (s.name, p, x, p @ x, v))


def units(payload, R):
    """the same set described in other units or far from the origin"""
    _, name, u, tier = payload
    s = ZOO[name]; c, o = zoo.UNITS[u]
    D = zoo.directions(s.m)
    for k in range(0 if tier != 'quick' else u % 3, len(D), 1 if tier != 'quick' else 3):
        p = D[k]
        d = zoo.rescaled(s, c, o)
        kind, x = R.attempt(d.corner, p)
        if kind == 'raise': kind, x = x, None
        want, v = expect(s, p)
        what = '%s in units of 1/%g moved by %g: corner(%s)' % (name, c, o, p)
        R.state((name, k, u, kind, x if x is not None else 0))
        if want != 'ok':
            R.check(kind == want, 'units-expected-%s' % want, '%s: got %s %s' % (what, kind, x)); continue
        if not R.check(kind == 'ok', 'units-no-answer', '%s: raised %s, maximum is %g' % (what, kind, v)): continue
        y = (np.asarray(x) - o)/c
        sc = max(s.scale(), float(np.abs(y).max()))*max(1., 1e-2*o/c)
        R.check(s.violation(y)[0] <= 2e-5*sc, 'units-infeasible', '%s = %s violates by %g in the units of the set' % (what, x, s.violation(y)[0]))
        R.check(p @ y >= v - 2e-5*np.abs(p).max()*sc, 'units-not-furthest', '%s = %s reaches %.9g, maximum %.9g' % (what, x, p @ y, v))


def run(payload, R):
    if payload[0] == 'units': return units(payload, R)
    name, ks = payload
    if name in SPELL: s, build = SPELL[name]; d = build()
    else: s = ZOO[name]; d = s.build()
    D = dirs(s.m)
    for k in ks:
        p = D[k]
        p0 = p.copy()
        kind, x = R.attempt(d.corner, p)
        if kind == 'raise': kind, x = x, None
        R.check(np.array_equal(p, p0), 'mutates-direction', '%s' % p)
        judge(R, s, p, kind, x)
        R.state((name, k, kind, x if x is not None else 0))
    if len(ks) > 1 and not s.empty:
        kind, x = R.attempt(d.corner, [int(v) for v in np.sign(D[0])])
        if kind == 'raise': kind, x = x, None
        judge(R, s, np.sign(D[0]), kind, x)
        kind, x = R.attempt(d.corner, np.zeros(s.m + 1))
        R.check((kind, x) == ('raise', 'ValueError'), 'wrong-dim', 'corner with a direction of the wrong dimension: %s %s' % (kind, x))
