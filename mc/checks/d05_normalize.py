import itertools
import numpy as np
from .. import zoo
from .d01_membership import SPELL

PID = 'D05'
BOUND = """Alphabet: every domain of the zoo (bounded, half-infinite, unbounded; m<=3) and every constructor spelling x every
 probe point of a lattice reaching past all faces.  Checked on each: exact inverse on points and batches, affinity, image of
 the coordinate-wise extremes = -1/+1, membership / corner / extent / closest point of the normalized domain against the
 oracle of the original domain, and idempotence.  Oracle: bounds given, or support function by active-set enumeration."""
ASSUMPTIONS = ['coordinate extremes found by the convex solver are compared to 1e-5 relative accuracy']
ZOO = {s.name: s for s in zoo.everything()}


def cases(tier):
    out = [('map/%s' % s.name, ('map', s.name, tier)) for s in zoo.everything() if not s.empty]
    out += [('set/%s' % s.name, ('set', s.name, tier)) for s in zoo.everything() if not s.empty]
    out += [('spelling/%s' % k, ('map', k, tier)) for k in sorted(SPELL)]
    out += [('spelling-set/%s' % k, ('set', k, tier)) for k in sorted(SPELL)]
    return out


def get(name):
    if name in ZOO: return ZOO[name], ZOO[name].build
    return SPELL[name]


def bounds(s):
    """bounds normalization is defined by: those given, else the extremes of the set; a hull uses its points"""
    lo, hi = np.empty(s.m), np.empty(s.m)
    for i, e in enumerate(np.eye(s.m)):
        lo[i] = s.lb[i] if np.isfinite(s.lb[i]) else -s.support(-e)[0]
        hi[i] = s.ub[i] if np.isfinite(s.ub[i]) else s.support(e)[0]
    if s.hull is not None: lo, hi = s.hull.min(axis=0), s.hull.max(axis=0)
    if getattr(s, 'parts', None):
        return tuple(np.hstack([bounds(p)[k] for p in s.parts]) for k in (0, 1))
    return lo, hi


def run(payload, R):
    kind, name, tier = payload
    s, build = get(name)
    d = build(); R.step()
    lo, hi = bounds(s)
    span = hi - lo
    both = np.isfinite(span) & (span > 1e-9)
    sc = s.scale()
    X = zoo.grid(s, 3 if tier == 'quick' else 5)
    I = zoo.inner_points(s)
    X = np.vstack([X] + ([I] if len(I) else []))
    if kind == 'map': run_map(R, s, d, X, I, lo, hi, both, sc)
    else: run_set(R, s, d, X, I, lo, hi, both, sc, tier)


def run_map(R, s, d, X, I, lo, hi, both, sc):
    X0 = X.copy()
    Z = d.normalize(X); Y = d.unnormalize(Z); R.step(2)
    R.check(np.array_equal(X, X0), 'mutates-input')
    if not R.check(np.shape(Z) == X.shape and np.shape(Y) == X.shape, 'shape', '%s %s' % (np.shape(Z), np.shape(Y))): return
    if not R.check(np.all(np.isfinite(Z)), 'not-finite', 'normalize gives %s' % Z[0]): return
    R.close(Y, X, 'not-inverse', 'unnormalize(normalize(x))', rtol=1e-10, atol=1e-10*sc)
    W = np.array(list(itertools.product((-1., 0., 1.5), repeat=s.m)))
    V = d.unnormalize(W); R.step()
    R.close(d.normalize(V), W, 'not-inverse', 'normalize(unnormalize(z))', rtol=1e-9, atol=1e-9*max(1, sc if not both.all() else 1)); R.step()
    # single points, integer points, lists
    for i in range(0, len(X), max(1, len(X)//12)):
        z = d.normalize(X[i]); y = d.unnormalize(Z[i]); zl = d.normalize(X[i].tolist()); R.step(3)
        R.close(z, Z[i], 'single-vs-batch', 'normalize', rtol=1e-13, atol=1e-13); R.close(zl, Z[i], 'single-vs-batch', 'list', rtol=1e-13, atol=1e-13)
        R.close(y, Y[i], 'single-vs-batch', 'unnormalize', rtol=1e-13, atol=1e-13)
        R.state((s.name, i, z))
    xi = np.round(X[0]).astype(int)
    R.close(d.normalize(xi), d.normalize(xi.astype(float)), 'integer-input'); R.step(2)
    R.check(np.shape(d.normalize(np.zeros((0, s.m)))) == (0, s.m), 'empty-batch'); R.step()
    # affine and diagonal, slope and center as documented
    a, b = X[0], X[-1]
    R.close(d.normalize((a + 3*b)/4), (Z[0] + 3*Z[-1])/4, 'not-affine', '', rtol=1e-9, atol=1e-9*sc)
    for i in range(s.m):
        if not both[i]: continue
        e = a.copy()
        e[i] = lo[i]; zl = d.normalize(e)[i]
        e[i] = hi[i]; zu = d.normalize(e)[i]; R.step(2)
        R.check(abs(zl + 1) <= 2e-5 and abs(zu - 1) <= 2e-5, 'bounds-not-unit', '%s coordinate %d: [%g,%g] -> [%.9g,%.9g]' % (s.name, i, lo[i], hi[i], zl, zu))
        R.state((s.name, 'bound', i, zl, zu))
    for e in np.eye(s.m):
        dz = d.normalize(a + e) - d.normalize(a)
        R.check(np.all(np.abs(dz[e == 0]) <= 1e-9) and np.all(dz[e == 1] > 0), 'not-diagonal', '%s' % dz)
    # reported normalization bounds
    R.close(np.where(np.isfinite(lo), d.norm_lb, -1), np.where(np.isfinite(lo), lo, -1), 'norm_lb', '', rtol=2e-5, atol=2e-5*sc)
    R.close(np.where(np.isfinite(hi), d.norm_ub, 1), np.where(np.isfinite(hi), hi, 1), 'norm_ub', '', rtol=2e-5, atol=2e-5*sc)
    R.check(np.all(d.norm_lb[~np.isfinite(lo)] == -np.inf) and np.all(d.norm_ub[~np.isfinite(hi)] == np.inf), 'norm-infinite', '%s %s' % (d.norm_lb, d.norm_ub))
    R.step(2)
    if len(I):
        Zi = d.normalize(I)
        R.check(np.all(np.abs(Zi[:, both]) <= 1 + 3e-5) if s.hull is None else True, 'outside-unit-box', '%s' % Zi)


def run_set(R, s, d, X, I, lo, hi, both, sc, tier):
    n = d.normalized_domain(); R.step()
    R.check(len(n) == s.m and len(n.names) == s.m, 'dimension', '%s' % (n.names,))
    Z = d.normalize(X)
    v = s.violation(X)
    ans = np.asarray(n.isinside(Z)).astype(bool); R.step()
    slope = np.array([np.abs(d.normalize(X[0] + e)[i] - d.normalize(X[0])[i]) for i, e in enumerate(np.eye(s.m))])
    # a violation v in application units is at least v*min(slope) in the normalized bound rows, v for the other rows
    must = v <= 1e-9*min(sc, 1e3) if s.hull is None else v <= 1e-10
    mustnot = v*min(1., slope.min()) > 2e-4*max(1., min(sc, 10.))
    for i in np.nonzero(must & ~ans)[0][:2]: R.fail('normalized-rejects-member', '%s %s -> %s (violation %.3g)' % (s.name, X[i], Z[i], v[i]))
    for i in np.nonzero(mustnot & ans)[0][:2]: R.fail('normalized-accepts-outsider', '%s %s -> %s (violation %.3g)' % (s.name, X[i], Z[i], v[i]))
    R.ok(int(must.sum() + mustnot.sum()))
    for i in range(len(X)): R.state((s.name, 'n', i, bool(ans[i])))
    dirs = zoo.directions(s.m)
    if tier == 'quick': dirs = dirs[::(2 if s.m < 3 else 3)]
    for k, p in enumerate(dirs):
        # max p.z over normalized = max (p*slope).(x - c)
        val, _ = s.support(p*slope)
        kind, z = R.attempt(n.corner, p)
        if np.isinf(val):
            R.check((kind, z) == ('raise', 'UnboundedDomainException'), 'normalized-corner', '%s %s: expected unbounded, got %s %s' % (s.name, p, kind, z)); continue
        if not R.check(kind == 'ok', 'normalized-corner', '%s %s raised %s' % (s.name, p, z)): continue
        x = d.unnormalize(np.asarray(z))
        R.check(s.violation(x)[0] <= 5e-5*min(sc, 1e3) and (p*slope) @ x >= val - 5e-5*np.abs(p*slope).max()*max(sc, 1), 'normalized-corner',
                '%s corner(%s) -> %s reaches %.8g of %.8g' % (s.name, p, x, (p*slope) @ x, val))
        R.state((s.name, 'c', k, x))
    for x in I[:2]:
        for k, p in enumerate(dirs[:4]):
            vs = [s.extent(x, p, t) for t in (1e-13, 1e-10, 1e-8)]
            if min(vs) != max(vs): continue
            if not np.all(n.isinside(d.normalize(x))): continue
            kind, a = R.attempt(n.extent, d.normalize(x), p*slope)
            if not R.check(kind == 'ok', 'normalized-extent', '%s %s raised %s' % (s.name, p, a)): continue
            v0 = vs[0]
            R.check((np.isinf(v0) and np.isinf(a)) or abs(a - v0)*np.linalg.norm(p) <= 3e-5*max(1., min(sc, 1e3)), 'normalized-extent', '%s extent(%s,%s)=%s expected %s' % (s.name, x, p, a, v0))
    nn = n.normalized_domain(); R.step()
    a2 = np.asarray(nn.isinside(n.normalize(Z))).astype(bool); R.step()
    for i in np.nonzero((must & ~a2) | (mustnot & a2))[0][:2]: R.fail('renormalized-differs', '%s %s' % (s.name, X[i]))
    # normalizing does not change the original
    R.check(np.array_equal(np.asarray(d.isinside(X)).astype(bool)[must], np.ones(must.sum(), dtype=bool)), 'original-changed')
