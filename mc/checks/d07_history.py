import copy, itertools
import numpy as np
from .. import zoo
from ..core import ScriptedRandom, scripted, canon, NoAnswer

PID = 'D07'
CASE_CPU_LIMIT = 400.
BOUND = """Explicit-state search over the internal state of real domain objects.  State = canonical form of every attribute the
 object holds (memoised flags, cached bounds and bases, walker position abstracted to present/absent; recursively for the factors
 of a product).  Transitions = every query of the alphabet (emptiness, pointness, boundedness, corners, closest points, least
 squares, single and batch samples, bounds and normalization, sweeps, intersection, product, restriction, copy, membership,
 extent).  All states reachable within depth 2 (quick) / 3 (thorough) are visited once each, and at each the full probe (flags in
 every order, corners, closest point, membership lattice, normalization, restricted child) is compared with the reference geometry and with
 a freshly built domain.  The sets with linear or quadratic constraints and the hulls are also described in
 units of 1e-3, 1e3, 1e6 and 1e9 and moved to (1e6,...,1e6), where the flags are asked in every order, fresh and after another
 query.  Every array passed in or handed out along the way is compared bitwise at the end."""
ASSUMPTIONS = ['two internal states with the same attributes up to 5 significant digits are explored once',
               'the walker position influences samples only, whose validity is checked']


def pick():
    names = ['box1-u', 'box1-p', 'box2-us', 'box2-ap', 'box3-awp', 'uni2', 'hbox1-lo', 'hbox1-free', 'hbox2-mix', 'hbox2-q',
             'lin2-sq-d', 'lin2-re-e1-', 'lin2-pt', 'lin2-re-os', 'lin1n', 'lin3-eq2', 'lin3-simp', 'hlin2-wedge', 'hlin2-strip', 'hlin2-eq', 'tri2w',
             'unb1', 'unb2', 'normal1', 'normal2', 'tp-unb', 'tp-nrm', 'ebox1', 'ebox2', 'elin2', 'elin2-eq', 'elin2-rows',
             'equad2', 'equad2-bb', 'ehull2', 'quad2-B', 'quad2-BC', 'quad2b-E', 'quad2-E-e1', 'quad1b', 'hquad2-slab',
             'hull1', 'hull2-tri', 'hull2-seg', 'hull2-pt', 'hull2-lb', 'hull2-Q', 'hull3-flat', 'pt1', 'pt2',
             'tnormal1', 'tnormal2', 'tlogn', 'tlogn-os', 'tp-bb', 'tp-hb', 'tp-be', 'tp-bp', 'tp-bn', 'tp-tb']
    Z = {s.name: s for s in zoo.everything()}
    Z['hpt'] = zoo.box('hpt', [0, 0], [np.inf, 0])
    Z['eunb'] = zoo.box('eunb', [1, -np.inf], [0, np.inf])
    Z['qpt'] = zoo.quad('qpt', 2, [0, 0], [0, 0], quads=[(np.eye(2), (0, 0), 1.)])
    Z['lpt'] = zoo.lin('lpt', 2, [1, 2], [1, 2], [(1, 1)], [4.])
    return Z, [n for n in names if n in Z] + ['hpt', 'eunb', 'qpt', 'lpt']


Z, QUICK = pick()


def cases(tier):
    names = QUICK if tier == 'quick' else sorted(Z)
    out = [('state/%s' % n, (n, tier)) for n in names]
    for s in zoo.everything():
        for u, (c, o) in enumerate(zoo.UNITS):
            if zoo.rescaled(s, c, o) is not None: out.append(('units/%s/%g-%g' % (s.name, c, o), ('units', s.name, u, tier)))
    return out


def key(obj, depth=0):
    if hasattr(obj, '__dict__') and depth < 4 and type(obj).__module__.startswith('psdr'):
        d = []
        for k, v in sorted(vars(obj).items()):
            if k in ('_hit_and_run_state',): d.append((k, v is not None))
            elif k in ('kwargs', '_extent'): continue
            else: d.append((k, key(v, depth + 1)))
        return (type(obj).__name__, tuple(d))
    if isinstance(obj, (list, tuple)): return tuple(key(v, depth + 1) for v in obj)
    return canon(obj)


def ops(s):
    m = s.m
    e = np.eye(m)[0]
    far = np.full(m, 7.) + np.arange(m)
    halfA, halfb = np.ones((1, m)), np.array([.75])
    from psdr import BoxDomain
    return {
        'empty': lambda d: d.is_empty,
        'point': lambda d: d.is_point,
        'unbounded': lambda d: d.is_unbounded,
        'corner+': lambda d, p=e: d.corner(p),
        'corner-': lambda d, p=-np.ones(m): d.corner(p),
        'closest': lambda d, x=far: d.closest_point(x),
        'cls': lambda d, A=np.eye(m), b=far: d.constrained_least_squares(A, b),
        'sample1': lambda d: d.sample(),
        'sample2': lambda d: d.sample(2),
        'norm': lambda d, x=far: d.normalize(x),
        'ndom': lambda d: d.normalized_domain(),
        'ub': lambda d: (d.norm_ub, d.norm_lb),
        'sweep': lambda d: d.sweep(n=3),
        'and': lambda d, A=halfA, b=halfb: d & BoxDomain(-far, far),
        'add': lambda d, A=halfA, b=halfb: d.add_constraints(A=A, b=b),
        'mul': lambda d: d*BoxDomain([0.], [1.]),
        'inside': lambda d, x=far: d.isinside(np.vstack([x, -x])),
        'copy': lambda d: d.copy(),
        'misc': lambda d: (d.lb, d.ub, d.A_aug, d.b_aug, d.names, d.is_box_domain, d.is_linineq_domain, str(d)),
        'extent': lambda d, x=far: d.extent(d.closest_point(x), -np.ones(m)),
        'center': lambda d: d.chebyshev_center(),
    }


def arrays(v):
    if isinstance(v, np.ndarray): return [v]
    if isinstance(v, tuple): return [x for x in v if isinstance(x, np.ndarray)]
    return []


def probe(s, d, R, msg, geo, child=True):
    """every answer of a clone of d against the reference"""
    for order in itertools.permutations(('is_empty', 'is_point', 'is_unbounded')):
        if not child and order[0] == 'is_unbounded' and order[1] == 'is_point': continue
        c = copy.deepcopy(d)
        for f in order:
            st, v = R.attempt(getattr, c, f)
            R.check(st == 'ok' and bool(v) == geo[f], f, '%s: %s after %s, should be %s (order %s)' % (msg, v, d.__class__.__name__, geo[f], order))
            if st != 'ok': return
    c = copy.deepcopy(d)
    for p, val in geo['sup']:
        st, v = R.attempt(c.corner, p)
        if val is None: R.check((st, v) == ('raise', 'EmptyDomainException'), 'corner-empty', '%s corner(%s) %s' % (msg, p, v))
        elif np.isinf(val): R.check((st, v) == ('raise', 'UnboundedDomainException'), 'corner-unb', '%s corner(%s) %s' % (msg, p, v))
        elif R.check(st == 'ok', 'corner-fails', '%s corner(%s): %s' % (msg, p, v)):
            R.close(v @ p, val, 'corner-value', '%s corner(%s)' % (msg, p), rtol=1e-5, atol=2e-5*s.scale())
            R.check(s.violation(v)[0] <= 2e-5*s.scale(), 'corner-outside', msg)
    for x, val in geo['near']:
        x0 = x.copy()
        st, v = R.attempt(c.closest_point, x)
        R.check(np.array_equal(x, x0), 'closest-mutates', msg)
        if val is None: R.check((st, v) == ('raise', 'EmptyDomainException'), 'closest-empty', '%s closest_point(%s) %s' % (msg, x, v))
        elif R.check(st == 'ok', 'closest-fails', '%s closest_point(%s): %s' % (msg, x, v)):
            R.close(np.linalg.norm(v - x), val, 'closest-value', msg, rtol=1e-5, atol=5e-5*s.scale())
    R.check(np.array_equal(c.isinside(geo['grid']), geo['member']), 'isinside', msg)
    if geo['normalized'] is not None: R.close(c.normalize(geo['grid']), geo['normalized'], 'normalize', msg, atol=1e-6*s.scale(), rtol=1e-5)
    R.check(list(c.names) == geo['names'] and len(c) == s.m, 'names', msg)
    # restricted child answers like a fresh one
    if child and geo['child'] is not None:
        c = copy.deepcopy(d)
        A, b = geo['child']['A']
        st, ch = R.attempt(c.add_constraints, A=A, b=b)
        if R.check(st == 'ok', 'child', '%s add_constraints: %s' % (msg, ch)):
            probe(geo['child']['spec'], ch, R, msg + ' restricted', geo['child'], child=False)
    c = copy.deepcopy(d)
    if not s.empty and s.bounded:
        X = c.sample(2)
        R.check(np.all(s.violation(X) <= 2e-5*s.scale()), 'sample-outside', msg)


def geometry(s, fresh, child=True):
    m = s.m
    g = {'is_empty': s.empty, 'is_point': s.is_point, 'is_unbounded': not s.bounded}
    g['sup'] = [(p, s.support(p)[0]) for p in (np.eye(m)[0], -np.eye(m)[-1])] + ([(np.ones(m), s.support(np.ones(m))[0])] if child else [])
    far = np.full(m, 7.) + np.arange(m)
    g['near'] = [(x, s.min_affine(np.eye(m), x)[0]) for x in ([far, -far] if child else [far])]
    G = zoo.grid(s, 3)
    v = s.violation(G)
    G = G[(v <= 1e-9) | (v > 1e-3*s.scale())]
    g['grid'] = G
    g['member'] = s.violation(G) <= 1e-9
    g['normalized'] = None if s.empty else fresh.normalize(G)
    g['names'] = list(fresh.names)
    g['child'] = None
    if child and not s.empty and hasattr(fresh, 'add_constraints'):
        A = np.ones((1, m))
        c = s.support(np.ones(m))[0]; lo = s.support(-np.ones(m))[0]
        c = 1. if not np.isfinite(c) else c; lo = 1. if not np.isfinite(lo) else lo
        b = np.array([(c - lo)/2])
        sp = zoo.restrict('child', s, None, A=A, b=b)
        if not (abs(c + lo) < 1e-9 and not s.is_point):
            g['child'] = geometry(sp, s.build().add_constraints(A=A, b=b), child=False)
            g['child']['A'] = (A, b); g['child']['spec'] = sp
    return g


FLAGS = ('is_empty', 'is_point', 'is_unbounded')


def units(payload, R):
    """flags asked in every order of the same set in other units or far from the origin"""
    _, name, u, tier = payload
    s = Z[name]; c, o = zoo.UNITS[u]
    want = {'is_empty': s.empty, 'is_point': s.is_point, 'is_unbounded': not s.bounded}
    pre = (lambda d: None, lambda d: d.corner(np.ones(s.m)), lambda d: d.closest_point(np.full(s.m, 7.)*c + o), lambda d: (d.norm_lb, d.norm_ub), lambda d: d.sample(2))
    orders = list(itertools.permutations(FLAGS))
    for k, q in enumerate(pre):
        for j, order in enumerate(orders):
            if tier == 'quick' and (j + k + u) % (2 if k == 0 else 6): continue
            d = zoo.rescaled(s, c, o)
            R.attempt(q, d)
            for f in order:
                st, v = R.attempt(getattr, d, f)
                R.state((name, u, k, order, f, st, v))
                R.check(st == 'ok' and bool(v) == want[f], 'units-' + f, '%s in units of 1/%g moved by %g: %s answered %s (order %s after query %d)' % (name, c, o, f, v, order, k))


def run(payload, R):
    if payload[0] == 'units': return units(payload, R)
    name, tier = payload
    s = Z[name]
    depth = 2 if tier == 'quick' else 3
    geo = geometry(s, s.build())
    O = ops(s)
    with scripted(ScriptedRandom((), base=11)):
        d0 = s.build()
        seen = {key(d0)}
        frontier = [((), d0, [])]
        probe(s, d0, R, name + ' fresh', geo)
        for lev in range(depth):
            nxt = []
            for path, d, held in frontier:
                for o in O:
                    c = copy.deepcopy(d)
                    args = [a for a in (O[o].__defaults__ or ())]
                    before = [a.copy() for a in args]
                    st, v = R.attempt(O[o], c)
                    if o == 'copy' and st == 'ok': c = v
                    msg = '%s after %s' % (name, '>'.join(path + (o,)))
                    for a, a0 in zip(args, before):
                        R.check(np.array_equal(a, a0), 'argument-modified', msg)
                    # everything handed out so far is untouched (objects are shared with c through its history)
                    k = key(c)
                    R.state((name, o, k, st))
                    if st == 'raise' and v not in ('EmptyDomainException', 'UnboundedDomainException'):
                        if not geo['is_empty'] and not geo['is_unbounded'] and o != 'center' and v != 'AttributeError':
                            R.fail('query-fails', '%s raised %s' % (msg, v))
                    if k in seen: continue
                    seen.add(k)
                    probe(s, c, R, msg, geo)
                    if len(R.violations) >= 5: return
                    nxt.append((path + (o,), c, []))
            frontier = nxt
            if not frontier: break
        # points handed out belong to the caller, who may overwrite them
        mine = ('closest', 'corner+', 'corner-', 'cls', 'sample1', 'sample2', 'sweep', 'norm', 'center')
        d = s.build()
        for o in mine:
            st, v = R.attempt(O[o], d)
            for a in arrays(v) if st == 'ok' else []:
                if a.flags.writeable: a[...] = 1e3 + np.arange(a.size).reshape(a.shape)
            if st == 'ok' and o in ('closest', 'corner-', 'sample2', 'center'): probe(s, copy.deepcopy(d), R, '%s after its answers to %s were overwritten' % (name, '>'.join(mine[:mine.index(o) + 1])), geo)
        # handed out arrays: one object, every ordered pair of queries, results compared bitwise afterwards
        names = list(O)
        d = s.build()
        held = []
        for o in names + names[::-1]:
            st, v = R.attempt(O[o], d)
            if st == 'ok': held += [(o, a, a.copy()) for a in arrays(v)]
            for o0, a, a0 in held:
                R.check(np.array_equal(a, a0, equal_nan=True), 'result-modified', '%s: result of %s changed by %s' % (name, o0, o))
