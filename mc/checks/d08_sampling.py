import itertools
import numpy as np
from .. import zoo
from ..core import explore, persistent, scripted, ScriptedRandom

PID = 'D08'
CASE_CPU_LIMIT = 60.
BOUND = """Alphabet: every bounded domain of the zoo (m<=3, including flat, degenerate, thin and point-like ones, plus
 implicit equalities) x number of samples {0,1,2,5} x every outcome of the random number generator with at most one
 deviation (quick; two in thorough) from an ordinary stream within the first draws, the deviations being the extreme answers
 (all zero, almost one, one half, alternating, axis aligned, diagonal, large, every permutation type).
 A stubborn adversary additionally repeats one extreme answer k times (k up to 32) before an ordinary stream resumes.  Sweeps: every inner
 point, face point and vertex x direction x n x corner flag.  The sets with linear or quadratic constraints
 and the hulls are also described in units of 1e-3 and 1e3 and moved to (1e3,...,1e3).  Oracle: constraint violation of each returned point computed
 from the constraints given; grids by enumeration; order and spacing by recomputation."""
ASSUMPTIONS = ['points returned by the convex solver may violate a constraint by up to 1e-5 (the tolerance of isinside)']


def flats():
    B = (np.eye(2), (0, 0), 1.)
    return [zoo.lin('flat2-op', 2, [-1, -1], [1, 1], [(1, 1), (-1, -1)], [.5, -.5]),
            zoo.lin('flat2-lbub', 2, [0, 2], [1, 2], [(1, 0)], [.5]),
            zoo.lin('flat3-lbub', 3, [0, 0, 2], [1, 1, 2], [(1, 1, 0)], [1.]),
            zoo.lin('flat3-imp', 3, [0, 0, -1], [1, 1, 1], [(1, 1, 0)], [0.]),
            zoo.lin('flat2-mix', 2, [0, 0], [2, 2], [(-1, 0)], [-2.]),
            zoo.quad('flat2-quad', 2, [-2, .5], [2, .5], quads=[B]),
            zoo.lin('thin2', 2, [0, 0], [1, 1e-3], [(1, 1)], [1.]),
            zoo.quad('qpt2', 2, quads=[B, (np.eye(2), (2, 0), 1.)]) if False else
            zoo.quad('qpt2', 2, [0, 0], [0, 0], quads=[B]),
            zoo.hull('hull3-seg', [(0, 0, 0), (1, 2, 2)]),
            zoo.hull('hull3-lb', [(0, 0, 0), (2, 0, 0), (0, 2, 0), (0, 0, 2)], lb=[.5, -np.inf, .25])]


def specs():
    return [s for s in zoo.bounded_all() + flats() if not s.empty]


ZOO = {s.name: s for s in specs()}


def cases(tier):
    out = []
    for s in specs():
        out.append(('sample/%s' % s.name, ('sample', s.name, tier)))
        out.append(('sweep/%s' % s.name, ('sweep', s.name, tier)))
        out.append(('rsweep/%s' % s.name, ('rsweep', s.name, tier)))
        out.append(('boundary/%s' % s.name, ('boundary', s.name, tier)))
        out.append(('grid/%s' % s.name, ('grid', s.name, tier)))
    for s in specs():
        for u, (c, o) in enumerate(UNITS):
            if zoo.rescaled(s, c, o) is not None: out.append(('units/%s/%g-%g' % (s.name, c, o), ('units', s.name, (tier, u))))
    for s in zoo.everything():
        if s.empty: out.append(('empty/%s' % s.name, ('empty', s.name, tier)))
    for s in zoo.half_linears():
        if s.name.startswith(('normal', 'tp-nrm')): out.append(('sample/%s' % s.name, ('sample', s.name, tier)))
    return out


ALL = dict(ZOO); ALL.update({s.name: s for s in zoo.everything()})
BIGN = ('gen', 'e0', '-e0', 'elast', 'ones', 'alt', 'tiny', 'big')


def inside(s, dom, X, R, sig, msg):
    v = s.violation(X)
    R.check(np.all(v <= 1.05e-5), sig + '-outside', lambda: '%s %s: point %s violates by %.3g' % (s.name, msg, X.reshape(-1, s.m)[int(np.argmax(v))], v.max()))
    R.check(np.all(dom.isinside(X)), sig + '-isinside', lambda: '%s %s isinside rejects a sample' % (s.name, msg))


# isinside has an absolute tolerance, so larger domains would need points more accurate than the solver provides
UNITS = [(1e-3, 0.), (1e3, 0.), (1., 1e3)]


def units(s, tier, u, R):
    """the same set described in other units or far from the origin"""
    c, o = UNITS[u]
    what = '%s in units of 1/%g moved by %g' % (s.name, c, o)
    far = max(1., 1e-2*o/c)
    tol = 2e-5*max(1., s.scale())*far
    P = zoo.inner_points(s)[:2]

    def good(X, shape, sig, msg):
        if not R.check(np.shape(X) == shape, sig + '-shape', '%s %s: shape %s' % (what, msg, np.shape(X))): return False
        v = s.violation((np.atleast_2d(X) - o)/c)
        return R.check(v.max() <= tol, sig + '-outside', lambda: '%s %s: point %s violates by %.3g in the units of the set' % (what, msg, (np.atleast_2d(X)[int(np.argmax(v))] - o)/c, v.max()))

    def one(rng):
        d = zoo.rescaled(s, c, o)
        st, X = R.attempt(d.sample, 5)
        R.state((s.name, u, rng.prefix, st))
        if R.check(st == 'ok', 'units-sample', '%s: sample(5) raised %s' % (what, X)) and good(X, (5, s.m), 'units-sample', 'sample(5) script %s' % (rng.prefix,)):
            if not s.is_point and not rng.prefix:
                R.check(np.ptp(X, axis=0).max()/c > 1e-6, 'units-stuck', '%s: all samples equal' % what)
    explore(one, bound=1 if tier == 'thorough' else 0, max_points=4, menus={'normal': BIGN}, R=R, cap=200)
    if s.is_point: return
    with scripted(ScriptedRandom((), base=5)):
        d = zoo.rescaled(s, c, o)
        for x in P:
            for corner in (False, True):
                p = zoo.directions(s.m)[-1]
                st, X = R.attempt(d.sweep, n=4, x=x*c + o, p=p, corner=corner)
                if R.check(st == 'ok', 'units-sweep', '%s: sweep from %s raised %s' % (what, x, X)): good(X[0], (4, s.m), 'units-sweep', 'sweep from %s' % x)
        st, X = R.attempt(d.sample_boundary, 3)
        if R.check(st == 'ok', 'units-boundary', '%s: sample_boundary raised %s' % (what, X)) and good(X, (3, s.m), 'units-boundary', 'sample_boundary'):
            A, b, Ae, be = s.lin()
            for x in (X - o)/c:
                sl = [(b - A @ x)/np.maximum(np.linalg.norm(A, axis=1), 1e-300)] if len(A) else []
                for L, yy, r in s.quads: sl.append([r - np.linalg.norm(L @ (x - yy))])
                sl = np.hstack(sl) if sl else np.array([np.inf])
                R.check(sl.min() <= tol, 'units-interior', '%s: boundary sample %s has slack %.3g' % (what, x, sl.min()))


def run(payload, R):
    kind, name, tier = payload
    s = ALL[name]
    if kind == 'units': return units(s, *tier, R)
    dom = s.build()
    deep = tier == 'thorough'
    if kind == 'sample':
        slow = s.hull is not None or len(s.quads) or len(s.b) or len(s.beq) or hasattr(s, 'parts')
        for draw in ((0, 1, 2, 5) if not deep else (0, 1, 2, 3, 5, 8)):
            def one(rng, draw=draw):
                d = dom.copy()
                X = d.sample(draw)
                want = (s.m,) if draw == 1 else (draw, s.m)
                if R.check(np.shape(X) == want, 'sample-shape', '%s sample(%d) shape %s' % (name, draw, np.shape(X))) and draw:
                    inside(s, d, X, R, 'sample', 'sample(%d) script %s' % (draw, rng.prefix))
                    R.state((name, draw, np.round(X, 4)))
                    if draw == 2 and not slow and not s.is_point:
                        R.check(rng.prefix or not np.allclose(X[0], X[1]), 'sample-repeat', '%s two samples identical' % name)
            lim = 4 if slow else None
            explore(one, bound=(1 if draw in (1, 2) or deep else 0), max_points=8 if deep else lim, menus={'normal': BIGN}, R=R,
                    cap=4000)
            # a stubborn adversary repeats one extreme answer k times: rejection loops must not give up
            if draw in (1, 5):
                persistent(one, lengths=(((6, 25) if draw == 5 else ()) if slow and not deep else (2, 4, 8, 16, 32)),
                           entries=((7,) if slow and not deep else range(1, 8)), menus={'normal': BIGN}, R=R)
        # consecutive draws on the same object (walker state) stay inside and move
        rng = ScriptedRandom((), base=3)
        with scripted(rng):
            X = np.array([dom.sample() for _ in range(6)])
        R.step(6)
        inside(s, dom, X, R, 'walk', 'six single draws')
        if not s.is_point:
            R.check(np.ptp(X, axis=0).max() > 0, 'walk-stuck', '%s: all samples equal' % name)
    elif kind == 'sweep':
        P = zoo.inner_points(s)
        if not deep: P = P[:6]
        # directions of the affine hull of the set
        E = np.array([s.support(d)[1] for d in zoo.directions(s.m)])
        U, sv, Vt = np.linalg.svd(E - E.mean(axis=0))
        T = Vt[:int(np.sum(sv > 1e-7*max(1, sv[0])))]
        for ix, x in enumerate(P):
            for p in zoo.directions(s.m)[:(None if deep else 6)]:
                for n, corner in ((2, False), (5, False), (3, True)) if ix < 2 else ((3, False),):
                    q = T.T @ (T @ p)
                    if np.linalg.norm(q) < 1e-9: continue
                    if name == 'flat3-imp' and not corner: continue    # the direction itself leaves the domain at once
                    x0, p0 = x.copy(), p.copy()
                    X, y = dom.sweep(n=n, x=x0, p=p0, corner=corner)
                    R.step()
                    R.state((name, ix, p, n, corner, np.round(X, 4)))
                    m_ = '%s sweep(n=%d,x=%s,p=%s,corner=%s)' % (name, n, x, p, corner)
                    R.check(np.array_equal(x0, x) and np.array_equal(p0, p), 'sweep-mutates', m_)
                    if not R.check(np.shape(X) == (n, s.m) and np.shape(y) == (n,), 'sweep-shape', m_): continue
                    inside(s, dom, X, R, 'sweep', m_)
                    sc = s.scale()
                    R.close(X, np.array([X[0] + t*(X[-1] - X[0]) for t in np.linspace(0, 1, n)]), 'sweep-line', m_, atol=1e-7*sc)
                    L = np.linalg.norm(X[-1] - X[0])
                    if L > 1e-9:
                        R.close(np.abs(y[1:] - y[0]), np.linalg.norm(X[1:] - X[0], axis=1), 'sweep-length', m_, atol=1e-7*sc)
                        R.check(np.all(np.diff(y) > 0) or np.all(np.diff(y) < 0), 'sweep-order', m_)
                    a1, a2 = s.extent(x, q, tang=1e-9), s.extent(x, -q, tang=1e-9)
                    if corner:
                        sup = [(s.support(p)[0]), -s.support(-p)[0]]
                        R.close(sorted([X[0] @ p, X[-1] @ p]), sorted(sup), 'sweep-corner', m_, atol=2e-5*sc)
                    else:
                        ends = sorted([(X[0] - x) @ q/(q @ q), (X[-1] - x) @ q/(q @ q)])
                        R.close(ends, [-a2, a1], 'sweep-ends', m_, atol=2e-5*sc, rtol=1e-4)
                        if L > 1e-9:
                            r = x - X[0]; t = (X[-1] - X[0])/L
                            R.check(np.linalg.norm(r - (r @ t)*t) < 1e-6*sc, 'sweep-through', m_)
        # spellings
        if len(P):
            x = P[0]; p = zoo.directions(s.m)[0]
            Xa, ya = dom.sweep(n=3, x=x.copy(), p=p.copy())
            for lab, xx, pp in (('list', list(x), list(p)), ('int', x.copy(), p.astype(int)), ('intlist', x.copy(), [int(v) for v in p])):
                st, val = R.attempt(dom.sweep, n=3, x=xx, p=pp)
                if R.check(st == 'ok', 'sweep-spelling', '%s %s: %s' % (name, lab, val)):
                    R.close(val[0], Xa, 'sweep-spelling-value', '%s %s' % (name, lab), atol=1e-6)
            st, val = R.attempt(dom.sweep, n=1, x=x.copy(), p=p.copy())
            if R.check(st == 'ok', 'sweep-one', '%s n=1: %s' % (name, val)):
                R.check(np.shape(val[0]) == (1, s.m) and s.violation(val[0])[0] <= 1e-5, 'sweep-one', name)
    elif kind == 'rsweep':
        def one(rng):
            d = dom.copy()
            X, y = d.sweep(n=4)
            inside(s, d, X, R, 'rsweep', 'sweep() script %s' % rng.prefix)
            R.check(X.shape == (4, s.m) and np.all(np.isfinite(y)), 'rsweep-shape', name)
            R.state((name, np.round(X, 4)))
            X, y = d.sweep(n=4, corner=True)
            inside(s, d, X, R, 'rsweep', 'sweep(corner) script %s' % rng.prefix)
        explore(one, bound=1 if deep else 0, max_points=6, menus={'normal': BIGN}, R=R, cap=500)
    elif kind == 'boundary':
        if s.is_point: return
        A, b, Ae, be = s.lin()
        def one(rng):
            d = dom.copy()
            for draw in (1, 3):
                X = d.sample_boundary(draw)
                R.step()
                want = (s.m,) if draw == 1 else (draw, s.m)
                if not R.check(np.shape(X) == want, 'boundary-shape', '%s %s' % (name, np.shape(X))): return
                inside(s, d, X, R, 'boundary', 'sample_boundary(%d) script %s' % (draw, rng.prefix))
                for x in np.atleast_2d(X).reshape(-1, s.m):
                    sl = [(b - A @ x)/np.maximum(np.linalg.norm(A, axis=1), 1e-300)] if len(A) else []
                    for L, yy, r in s.quads: sl.append([r - np.linalg.norm(L @ (x - yy))])
                    sl = np.hstack(sl) if sl else np.array([np.inf])
                    R.check(sl.min() <= 2e-5*s.scale(), 'boundary-interior', '%s %s slack %.3g' % (name, x, sl.min()))
                R.state((name, np.round(X, 4)))
        explore(one, bound=1, max_points=(4 if deep else 2), menus={'normal': BIGN}, R=R, cap=500)
        # random_direction can be followed
        P = zoo.inner_points(s)[:(None if deep else 8)]
        for x in P:
            def two(rng, x=x):
                st, p = R.attempt(dom.random_direction, x.copy())
                if R.check(st == 'ok', 'direction', '%s at %s: %s' % (name, x, p)):
                    n = np.linalg.norm(p)
                    if R.check(n > 0, 'direction-zero', '%s at %s' % (name, x)):
                        step = min(1e-3*s.scale(), dom.extent(x, p)*n)
                        R.check(step > 0 and s.violation(x + step*p/n)[0] < 1.05e-5, 'direction-leaves', '%s at %s p=%s' % (name, x, p))
            explore(two, bound=1, max_points=2, menus={'normal': BIGN}, R=R, cap=100)
    elif kind == 'grid':
        if not (np.all(np.isfinite(dom.lb)) and np.all(np.isfinite(dom.ub))): return
        for n in (1, 2, 3, 4):
            X = dom.sample_grid(n)
            R.step()
            ax = [np.linspace(l, u, n) for l, u in zip(dom.lb, dom.ub)]
            R.close(dom.lb, s.lb, 'lb', name); R.close(dom.ub, s.ub, 'ub', name)
            G = np.array(list(itertools.product(*ax)))
            v = s.violation(G)
            G1 = G[v <= 1e-9*s.scale()]; G2 = G[v <= 1e-4]
            if not R.check(X.ndim == 2 and X.shape[1] == s.m and len(G1) <= len(X) <= len(G2), 'grid-shape', '%s n=%d %s expected %d' % (name, n, X.shape, len(G1))): continue
            if len(X) == len(G1): R.close(np.array(sorted(map(tuple, X))), np.array(sorted(map(tuple, G1))), 'grid-points', name)
            R.state((name, n, X))
    elif kind == 'empty':
        for what in ('sample', 'sweep'):
            st, v = R.attempt(getattr(dom, what), *(3,) if what == 'sample' else ())
            R.check(st == 'raise', 'empty-%s' % what, '%s: %s returned %s' % (name, what, v))
            R.state((name, what, v))
