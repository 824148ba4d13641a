import itertools
import numpy as np
import psdr
from .. import zoo

PID = 'D06'
BOUND = """Alphabet: all ordered pairs of 19 two-dimensional and 10 one-dimensional base domains of every kind (box, half box,
 unbounded, polyhedron, equality constrained, quadratic, hull, segment, restricted hull, normal, log-normal, point, tensor
 products) under intersection; chains of three; every base domain x every kind of added constraint, added one by one in
 every order and all at once; all products of two and three base domains; every class x spelling of names x derived domain.  Each result is compared with the conjunction
 (concatenation) of the constraint lists by membership on a lattice, corners and emptiness; operands re-examined after."""
ASSUMPTIONS = ['points violating a constraint by more than 0 but less than ten tolerances are not judged']


def base2():
    Q = zoo.QUADS2
    return [zoo.box('box', [-1, 0], [1, 2]), zoo.box('uni', [-1, -1], [1, 1], cls='UniformDomain'), zoo.box('half', [0, -zoo.INF], [zoo.INF, 1.]),
            zoo.unbounded('unb', 2),
            zoo.lin('tri', 2, A=[(-1, 0), (0, -1), (1, 1)], b=[0, 0, 1]),
            zoo.lin('lin', 2, [-1, -1], [1, 1], [(1, -1)], [.5]),
            zoo.lin('eq', 2, [-1, -1], [1, 1], Aeq=[(1, 1)], beq=[.5]),
            zoo.quad('ball', 2, quads=[Q['B']]), zoo.quad('ell', 2, [-1, -1], [2, 2], quads=[Q['E']]),
            zoo.quad('slab', 2, [-2, -2], [2, 2], quads=[Q['S']]),
            zoo.hull('hull', [(-1, -1), (1.5, 0), (0, 1.5)]), zoo.hull('seg', [(-1, 0), (1, 1)]),
            zoo.hull('hullA', [(-1, -1), (2, -1), (-1, 2)], lb=[-.5, -zoo.INF], ub=[zoo.INF, 1.]),
            zoo.normal('nrm', [0, .5], [[1, .5], [.5, 1]], .1), zoo.point('pt', [.25, .25]),
            zoo.tensor('tbb', [zoo.box('b', [-1], [1]), zoo.box('b', [0], [2])]),
            zoo.tensor('tqb', [zoo.quad('q', 1, quads=[([[2.]], [0.], 1.5)]), zoo.box('b', [0], [2])]),
            zoo.tensor('thl', [zoo.hull('h', [(-.5,), (1.,)]), zoo.lin('l', 1, [-1], [2], [[2.]], [1.])]),
            zoo.tensor('tun', [zoo.unbounded('u', 1), zoo.box('b', [0], [1])])]


def base1():
    return [zoo.box('box', [-1], [2]), zoo.box('half', [0], [zoo.INF]), zoo.unbounded('unb', 1), zoo.lin('lin', 1, [-1], [2], [[2.]], [1.]),
            zoo.quad('quad', 1, quads=[([[2.]], [1.], 3.)]), zoo.hull('hull', [(0,), (1.5,)]), zoo.point('pt', [.5]),
            zoo.normal('nrm', [1.], [[4.]], .1), zoo.lognormal('logn', 0., 1., truncate=.05), zoo.box('uni', [-.5], [1.25], cls='UniformDomain')]


B = {2: {s.name: s for s in base2()}, 1: {s.name: s for s in base1()}}
ADD = {'lb': dict(lb=[-.5, -.25]), 'ub': dict(ub=[.5, .75]), 'A': dict(A=[(1, 2)], b=[1.]), 'Aeq': dict(A_eq=[(1, -1)], b_eq=[.25]),
       'Q': dict(Ls=[np.array([[1., 1.], [0, 2.]])], ys=[np.array([.25, 0.])], rhos=[1.])}


NAMED = {'box': (2, lambda n: psdr.BoxDomain([0, 1], [1, 3], names=n)), 'box1': (1, lambda n: psdr.BoxDomain([0], [2], names=n)), 'uniform': (2, lambda n: psdr.UniformDomain([0, 1], [1, 3], names=n)),
         'linineq': (2, lambda n: psdr.LinIneqDomain(A=[[1, 1.]], b=[1.], lb=[-1, -1], ub=[1, 2], names=n)), 'eq': (2, lambda n: psdr.LinIneqDomain(A_eq=[[1, 1.]], b_eq=[1.], lb=[-1, -1], ub=[1, 2], names=n)),
         'linquad': (2, lambda n: psdr.LinQuadDomain(Ls=[np.eye(2)], ys=[np.zeros(2)], rhos=[1.], names=n)), 'hull': (2, lambda n: psdr.ConvexHullDomain([[0, 0], [1, 0], [0, 1.]], names=n)),
         'hull1': (1, lambda n: psdr.ConvexHullDomain([[0.], [1.]], names=n)), 'point': (2, lambda n: psdr.PointDomain([1., 2.], names=n)), 'unbounded': (2, lambda n: psdr.UnboundedDomain(2, names=n)),
         'normal': (2, lambda n: psdr.NormalDomain([0., 1], [[1, 0], [0, 4.]], names=n)), 'normalt': (1, lambda n: psdr.NormalDomain([0.], [[4.]], truncate=.1, names=n)),
         'lognormal': (1, lambda n: psdr.LogNormalDomain(0., 1., names=n)), 'lognormalt': (1, lambda n: psdr.LogNormalDomain(0., 1., truncate=.1, names=n))}


def named(R, key):
    m, mk = NAMED[key]
    for given, want in ((None, ['x%d' % i for i in range(m)]), (['b', 'a'][:m], ['b', 'a'][:m]), ('h', ['h'] if m == 1 else ['h 1', 'h 2'])):
        def look(what, want, get):
            st, v = R.attempt(lambda: list(get().names)); R.step()
            R.check(st == 'ok' and v == want, 'names', '%s names=%s, %s: %s, expected %s' % (key, given, what, v, want))
        look('as constructed', want, lambda: mk(given)); look('copied', want, lambda: mk(given).copy())
        # (an untruncated log-normal domain is its own normalized domain)
        if key != 'lognormal': look('normalized', [w + ' (normalized)' for w in want], lambda: mk(given).normalized_domain())
        look('constrained', want, lambda: mk(given).add_constraints(lb=[-5.]*m))
        look('intersected', want, lambda: mk(given) & psdr.BoxDomain([-3.]*m, [3.]*m, names=['z']*m))
        two = ['u', 'v']
        look('left factor', want + two, lambda: mk(given)*psdr.BoxDomain([0, 0], [1, 1], names=two))
        look('right factor', two + want, lambda: psdr.BoxDomain([0, 0], [1, 1], names=two)*mk(given))
        look('inner factor', two + want + ['x0'], lambda: psdr.BoxDomain([0, 0], [1, 1], names=two)*(mk(given)*psdr.BoxDomain([0], [1])))
        look('product of its own', want + want, lambda: psdr.TensorProductDomain([mk(given), mk(given)]))
        if key != 'lognormal': look('product, normalized', [w + ' (normalized)' for w in want + two], lambda: (mk(given)*psdr.BoxDomain([0, 0], [1, 1], names=two)).normalized_domain())
        look('product, constrained', want + two, lambda: (mk(given)*psdr.BoxDomain([0, 0], [1, 1], names=two)).add_constraints(lb=[-5.]*(m + 2)))
        if key.startswith('hull'): look('by its rows', want, lambda: mk(given).to_linineq())
        def old():
            a = mk(given); b = a & psdr.BoxDomain([-3.]*m, [3.]*m, names=['z']*m); c = a.normalized_domain(); d = a*b; d.names, c.names, b.names
            return a
        look('after others were derived from it', want, old); R.state((key, given if isinstance(given, str) else tuple(given or ())))
    st, v = R.attempt(mk, ['a', 'b', 'c']); R.check(st == 'raise', 'names-accepted', '%s with three names' % key)


def conj(name, specs):
    m = specs[0].m
    s = zoo.Spec(name, None, m)
    for t in specs:
        s.lb = np.maximum(s.lb, t.lb); s.ub = np.minimum(s.ub, t.ub)
        for k in ('A', 'b', 'Aeq', 'beq', 'hA', 'hb', 'hAeq', 'hbeq'):
            a = getattr(s, k), getattr(t, k)
            setattr(s, k, np.concatenate(a, axis=0))
        s.quads = s.quads + t.quads
        if t.hull is not None: s.hull = t.hull
    return s


def addspec(k, m=2):
    d = ADD[k]
    return zoo.Spec(k, None, m, lb=d.get('lb'), ub=d.get('ub'), A=d.get('A'), b=d.get('b'), Aeq=d.get('A_eq'), beq=d.get('b_eq'),
                    quads=list(zip(d.get('Ls', []), d.get('ys', []), d.get('rhos', []))))


def cases(tier):
    out = []
    for m in (1, 2):
        for a, b in itertools.product(B[m], repeat=2): out.append(('and%d/%s/%s' % (m, a, b), ('and', m, (a, b), tier)))
    tr = ['box', 'lin', 'eq', 'ball', 'hull', 'seg', 'tqb', 'unb', 'nrm'] if tier == 'quick' else list(B[2])
    for t in itertools.permutations(tr, 3):
        if tier == 'quick' and tr.index(t[0]) % 3 and tr.index(t[1]) % 2: continue
        out.append(('chain/%s' % '/'.join(t), ('and', 2, t, tier)))
    for a in B[2]:
        for k in (1, 2):
            for S in itertools.permutations(sorted(ADD), k): out.append(('add/%s/%s' % (a, '.'.join(S)), ('add', a, S, tier)))
        out.append(('addall/%s' % a, ('add', a, ('+'.join(sorted(ADD)),), tier)))
    alld = [(m, n) for m in (1, 2) for n in B[m]]
    for x, y in itertools.product(alld, repeat=2): out.append(('mul/%d%s/%d%s' % (x + y), ('mul', (x, y), tier)))
    tr3 = [(1, 'box'), (1, 'hull'), (2, 'eq'), (2, 'tqb'), (1, 'pt'), (1, 'unb')] + ([(2, 'hull'), (1, 'logn')] if tier != 'quick' else [])
    for t in itertools.product(tr3, repeat=3):
        if sum(x[0] for x in t) <= 4: out.append(('mul3/%s' % '/'.join('%d%s' % x for x in t), ('mul', t, tier)))
    out += [('names/%s' % k, ('names', k, tier)) for k in sorted(NAMED)]
    return out


def snapshot(d, X):
    f = [np.asarray(d.isinside(X)).astype(bool), np.array(d.lb), np.array(d.ub), np.array(d.A), np.array(d.b), np.array(d.A_eq), np.array(d.b_eq), list(d.names), type(d).__name__]
    return f


def same(a, b): return all(np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y for x, y in zip(a, b))


def judge_set(R, s, d, what, X, corners=True):
    v = s.violation(X)
    ans = np.asarray(d.isinside(X)).astype(bool); R.step()
    if not R.check(ans.shape == (len(X),) and len(d) == s.m, 'shape', '%s: %s' % (what, ans.shape)): return
    must = v <= 1e-9; mustnot = v > 2e-4*max(1., s.scale())
    for i in np.nonzero(must & ~ans)[0][:1]: R.fail('rejects-member', '%s: %s violation %.2g' % (what, X[i], v[i]))
    for i in np.nonzero(mustnot & ans)[0][:1]: R.fail('accepts-outsider', '%s: %s violation %.2g' % (what, X[i], v[i]))
    R.ok(int(must.sum() + mustnot.sum()))
    R.state((what, [bool(a) for a in ans[::5]]))
    if not corners: return
    n = 0
    for p in zoo.directions(s.m)[::3]:
        n += 1
        if n > 2: break
        val, _ = s.support(p)
        kind, x = R.attempt(d.corner, p)
        if val is None:
            # touching sets: emptiness within rounding is not judged
            t = conj('loose', [s]); t.lb = t.lb - 1e-4; t.ub = t.ub + 1e-4; t.b = t.b + 1e-4; t.hb = t.hb + 1e-4
            t.quads = [(L, y, r + 1e-4) for L, y, r in t.quads]; t._faces = None
            if t.support(p)[0] is None and not len(t.Aeq) and not len(t.hAeq):
                R.check((kind, x) == ('raise', 'EmptyDomainException'), 'expected-empty', '%s corner(%s): %s %s' % (what, p, kind, x))
        elif np.isinf(val):
            R.check((kind, x) == ('raise', 'UnboundedDomainException'), 'expected-unbounded', '%s corner(%s): %s %s' % (what, p, kind, x))
        elif not s.is_point and robust(s):
            if R.check(kind == 'ok', 'no-answer', '%s corner(%s) raised %s, maximum %g' % (what, p, x, val)):
                R.check(s.violation(x)[0] < 1e-4 and p @ x >= val - 1e-4*np.abs(p).max()*max(1, s.scale()), 'corner', '%s corner(%s)=%s reaches %.8g of %.8g' % (what, p, x, p @ x, val))


def robust(s):
    """has an interior relative to its equality constraints that a solver can see"""
    t = conj('tight', [s])
    # implicit equalities (flat boxes) stay as they are
    w = 1e-3*(s.ub - s.lb > 1e-6)
    t.lb = t.lb + np.where(np.isfinite(w), w, 0); t.ub = t.ub - np.where(np.isfinite(w), w, 0); t.b = t.b - 1e-3; t.hb = t.hb - 1e-3
    t.quads = [(L, y, r - 1e-3) for L, y, r in t.quads]
    t._faces = None
    return all(t.support(e)[0] is not None for e in np.eye(s.m))


def grid(specs, n=6):
    m = specs[0].m
    P = np.array(list(itertools.product(np.linspace(-2.25, 2.75, n if m == 2 else 4*n), repeat=m)))
    I = [zoo.inner_points(s)[:6] for s in specs]
    return np.vstack([P] + [i for i in I if len(i)])


def run(payload, R):
    if payload[0] == 'names': named(R, payload[1])
    elif payload[0] == 'and':
        _, m, names, tier = payload
        specs = [B[m][n] for n in names]
        ds = [s.build() for s in specs]
        X = grid(specs, 6 if tier == 'quick' else 11)
        before = [snapshot(d, X) for d in ds]; R.step(len(ds))
        for d, k in zip(ds, range(9)): d._names = ['%s%d' % (names[k], i) for i in range(m)] if type(d).__name__ != 'TensorProductDomain' else None
        nm = list(ds[0].names)
        r = ds[0]
        for d in ds[1:]: r = r & d; R.step()
        s = conj('&'.join(names), specs)
        judge_set(R, s, r, ' & '.join(names), X, corners=True)
        R.check(list(r.names) == nm, 'names', '%s: names %s, first operand has %s' % ('&'.join(names), r.names, nm))
        for d, b, n in zip(ds, before, names):
            a = snapshot(d, X)
            R.check(same(a[:-2], b[:-2]) and a[-1] == b[-1], 'operand-changed', '%s in %s' % (n, '&'.join(names)))
    elif payload[0] == 'add':
        _, a, S, tier = payload
        s0 = B[2][a]; d0 = s0.build()
        parts = [s0] + [addspec(k) for w in S for k in w.split('+')]
        s = conj('add', parts)
        X = np.vstack([grid([s0], 7 if tier == 'quick' else 13)] + [x for x in [zoo.inner_points(s)] if len(x)])
        b0 = snapshot(d0, X)
        d = d0
        for w in S:
            kw = {}
            for k in w.split('+'): kw.update(ADD[k])
            keep = {k: np.array(v, dtype=object if k in ('Ls',) else None).tolist() for k, v in kw.items() if k not in ('Ls', 'ys')}
            d = d.add_constraints(**kw); R.step()
        judge_set(R, s, d, '%s+%s' % (a, '+'.join(S)), X)
        R.check(same(b0, snapshot(d0, X)), 'operand-changed', '%s + %s' % (a, S))
        R.check(list(d.names) == list(d0.names), 'names', '%s' % d.names)
    else:
        _, names, tier = payload
        specs = [B[m][n] for m, n in names]
        ds = [s.build() for s in specs]
        for k, d in enumerate(ds):
            if type(d).__name__ != 'TensorProductDomain': d._names = ['f%d_%d' % (k, i) for i in range(len(d))]
        want = [n for d in ds for n in d.names]
        G = [np.vstack([zoo.inner_points(s)[:4] if len(zoo.inner_points(s)) else np.zeros((1, s.m)),
                        zoo.grid(s, 2, .6)[::(1 if s.m == 1 else 3)]]) for s in specs]
        if len(ds) > 2: G = [g[::max(1, len(g)//5)] for g in G]
        X = np.array([np.hstack(t) for t in itertools.product(*G)])
        r = ds[0]
        for d in ds[1:]: r = r*d; R.step()
        s = zoo.tensor('x', specs)
        judge_set(R, s, r, ' * '.join(n for _, n in names), X, corners=len(X) < 400 and s.m <= 3)
        R.check(list(r.names) == want, 'names', '%s expected %s' % (r.names, want))
        lb = np.hstack([sp.lb for sp in specs]); ub = np.hstack([sp.ub for sp in specs])
        plain = [sp.hull is None for sp in specs]
        if all(plain):
            R.check(np.allclose(r.lb, lb) and np.allclose(r.ub, ub), 'bounds', '%s %s' % (r.lb, r.ub))
