import itertools
import numpy as np
import psdr
from .. import zoo
from ..core import scripted, ScriptedRandom, explore
from .g01_voronoi import P as POLY, LS, LOW, TALL, sites, arrangement, mind

PID = 'S03'
BOUND = """Alphabet: polyhedra of dimension 1-3 (boxes, cut boxes, triangles, rows only, equality constrained, hulls, cube, simplex)
 x 1..5 points x metrics (none, identity, diagonal, sheared, singular, single row, tall) x spellings (full / sampled vertices, with
 and without starting designs, tolerances) x every outcome of the random draws up to one deviation from three base streams.  Every
 answer: promised count, in the domain, inputs unmodified; and the routine's own guarantee against a brute-force oracle - exact
 bounded Voronoi vertices by enumeration for separation and covering radii, exhaustive search over subsets for coverings,
 closed forms in one dimension, local optimality (bounded Voronoi vertices of the others) of block designs, cell occupancy for projection designs."""
ASSUMPTIONS = ['metric ties and solver tolerances below 1e-5 of the domain size are not distinguished']
CASE_CPU_LIMIT = 300.

EPS = 1e-5


def meta(name):
    s = POLY[name]
    L = dict(LS[s.m]); L.update(LOW[s.m]); L.update(TALL.get(s.m, {}))
    if s.m == 1: L['row'] = [[2.]]
    return s, {k: (np.eye(s.m) if v is None else np.array(v, dtype=float)) for k, v in L.items()}


def arg(lab, L): return None if lab == 'none' else L.copy()
def sep(X, L): return min([np.linalg.norm((X[i] - X[j]) @ L.T) for i, j in itertools.combinations(range(len(X)), 2)] or [np.inf])
def cover(s, X, L): return mind(arrangement(s, X, L), X, L).max()


def feasible(R, s, X, N, msg, tol=EPS):
    """N finite points in the domain"""
    if not R.check(isinstance(X, np.ndarray) and X.shape == (N, s.m), 'shape', lambda: '%s: %s, expected %s' % (msg, np.shape(X), (N, s.m))): return False
    if not R.check(np.all(np.isfinite(X.astype(float))), 'finite', lambda: '%s: %s' % (msg, X.tolist())): return False
    v = s.violation(X.astype(float))
    return R.check(len(v) == 0 or v.max() <= tol*s.scale(), 'outside', lambda: '%s: %s leaves the domain by %g' % (msg, X[np.argmax(v)].tolist(), v.max()))


def same(R, a, b, msg):
    R.check(np.array_equal(np.asarray(a), np.asarray(b)), 'mutated', lambda: '%s: the caller\'s array became %s' % (msg, np.asarray(a).tolist()))


def lattice(s, n=4):
    G = np.vstack([zoo.grid(s, n, 0.), .9*zoo.inner_points(s) + .1*zoo.inner_points(s)[0]])
    return G[s.violation(G) <= 1e-9*s.scale()]


ONE = ('iv', 'iv2', 'ivc')
TWO = ('sq', 're', 'cut', 'tri', 'wide', 'hull', 'eq')
THREE = ('cube', 'cutc', 'simp')
RANDOM = ('initial', 'coffee', 'coffee-sub', 'lloyd-free', 'poisson', 'cluster', 'pso', 'projection', 'design', 'stretch', 'seq-free', 'block-free')


def cases(tier):
    T = tier == 'thorough'
    out = []
    for name in ONE + TWO + THREE:
        s, L = meta(name)
        low = [k for k in L if np.linalg.matrix_rank(L[k]) < s.m]
        full = [k for k in L if k not in low and (T or k not in ('rot', 'neg', 'id'))]
        for k in L:
            out.append(('line/%s-%s' % (name, k), ('line', name, k, tier)))
        for k in full + low:
            for N in (1, 2, 3) if s.m < 3 and not T else (1, 2, 3, 4):
                if s.m == 3 and N > 2 and not T: continue
                out.append(('block/%s-%s-%d' % (name, k, N), ('block', name, k, N, tier)))
                if N in ((1, 3) if s.m < 3 else (2,)): out.append(('initial/%s-%s-%d' % (name, k, N), ('initial', name, k, N, tier)))
                if N > 1 and (s.m < 3 or T or k in ('none', 'row')): out.append(('seq/%s-%s-%d' % (name, k, N), ('seq', name, k, N, tier)))
                if N == 2 or T: out.append(('stretch/%s-%s-%d' % (name, k, N), ('stretch', name, k, N, tier)))
                if name not in ('eq',): out.append(('poisson/%s-%s-%d' % (name, k, N), ('poisson', name, k, N, tier)))
                out.append(('cluster/%s-%s-%d' % (name, k, N), ('cluster', name, k, N, tier)))
                if N in (2, 3): out.append(('pso/%s-%s-%d' % (name, k, N), ('pso', name, k, N, tier)))
        for k in full:
            for N in (1, 2, 3, 4) if s.m < 3 or T else (1, 3):
                out.append(('coffee/%s-%s-%d' % (name, k, N), ('coffee', name, k, N, tier)))
                if s.m < 3 or N < 3 or T:
                    out.append(('lloyd/%s-%s-%d' % (name, k, N), ('lloyd', name, k, N, tier)))
                    out.append(('scale/%s-%s-%d' % (name, k, N), ('scale', name, k, N, tier)))
        for k in low:
            out.append(('coffee/%s-%s-%d' % (name, k, 3), ('coffee', name, k, 3, tier)))
        if s.m > 1:
            for N in (1, 2, 3) + ((4,) if T or s.m == 2 else ()):
                out.append(('projection/%s-%d' % (name, N), ('projection', name, N, tier)))
    for n in range(1, 8 if T else 7):
        out.append(('discrete/%d' % n, ('discrete', n, tier)))
    for name in ('iv', 'sq', 'tri', 're', 'cube'):
        for q in (.45, .8):
            out.append(('covering/%s-%g' % (name, q), ('covering', name, q, tier)))
            out.append(('optimal/%s-%g' % (name, q), ('optimal', name, q, tier)))
    out.append(('bisect/all', ('bisect', tier)))
    for c in (1., 1/32., 40.):
        for kind in ('box', 'long', 'tri', 'cube'):
            for j in range(4 if T else 1 if kind == 'cube' else 2): out.append(('seqscale/%s-%g-%d' % (kind, c, j), ('seqscale', kind, c, j, tier)))
    return out


def run(p, R):
    globals()['do_' + p[0]](R, *p[1:])


def streams(tier): return range(3 if tier == 'thorough' else 1)


def outcomes(R, go, tier, mp=3, cap=60):
    for b in streams(tier):
        explore(go, bound=1, max_points=mp if tier != 'thorough' else 2*mp, cap=cap if tier != 'thorough' else 4*cap, base=b, R=R)


# ---------------------------------------------------------------------------
def do_line(R, name, k, tier):
    """closed-form designs in one (projected) dimension"""
    s, Ls = meta(name)
    for N in (1, 2, 3, 5):
        for fn, short in ((psdr.maximin_design_1d, 'maximin'), (psdr.minimax_design_1d, 'minimax'), (psdr.maximin_block, 'block'), (psdr.minimax_lloyd, 'lloyd'), (psdr.minimax_design, 'design')):
            L = Ls[k]
            if L.shape[0] != 1 and short in ('maximin', 'minimax', 'design'): continue
            if np.linalg.matrix_rank(L) > 1 or (L.shape[0] > 1 and short != 'block'): continue
            msg = '%s %s N=%d L=%s' % (short, name, N, k)
            d = s.build()
            a = None if k == 'none' and s.m == 1 else L.copy()
            kw = {'verbose': False} if short == 'lloyd' else {}
            with scripted(ScriptedRandom()):
                st, X = R.attempt(fn, d, N, L=a, **kw)
            if not R.check(st == 'ok', 'raises', '%s raises %s' % (msg, X)): continue
            if a is not None: same(R, a, L, msg)
            if not feasible(R, s, X, N, msg): continue
            l = np.linalg.svd(L)[2][0]
            hi, lo = s.support(l)[0], -s.support(-l)[0]
            if short in ('maximin', 'block'):
                want = np.linspace(lo, hi, N) if N > 1 else None
            else: want = lo + (hi - lo)*(np.arange(N) + .5)/N
            if want is not None:
                R.close(np.sort(X @ l), want, 'spacing', msg, rtol=0, atol=EPS*s.scale())
            R.state((name, N, short, k))


def do_initial(R, name, k, N, tier):
    s, Ls = meta(name); L = Ls[k]
    for n in (N, 7*N) if tier == 'thorough' else (N,) if N < 3 else (11,):
        def go(rng):
            a = L.copy()
            st, X = R.attempt(psdr.initial_sample, s.build(), a, Nsamp=n)
            msg = 'initial_sample %s L=%s Nsamp=%d outcomes %s' % (name, k, n, rng.prefix)
            if not R.check(st == 'ok', 'raises', '%s raises %s' % (msg, X)): return
            same(R, a, L, msg)
            if feasible(R, s, X, n, msg): R.state((name, k, n, np.round(X, 4)))
        outcomes(R, go, tier, cap=9)


def starts(s, N):
    S = sites(s)
    out = [c for c in itertools.combinations(range(len(S)), N)]
    return [np.array(S)[list(c)] for c in (out[:2] + out[-1:] if len(out) > 3 else out)]


def do_block(R, name, k, N, tier):
    s, Ls = meta(name); L = Ls[k]
    if np.linalg.matrix_rank(L) <= 1 and s.m > 1:
        return
    for X0 in starts(s, N):
        for maxiter in (1, 2, 20):
            keep = X0.copy(); a = L.copy()
            msg = 'maximin_block %s L=%s N=%d X0=%s maxiter=%d' % (name, k, N, X0.tolist(), maxiter)
            with scripted(ScriptedRandom()):
                st, X = R.attempt(psdr.maximin_block, s.build(), N, L=arg(k, a), X0=X0, maxiter=maxiter)
            if not R.check(st == 'ok', 'raises', '%s raises %s' % (msg, X)): break
            same(R, X0, keep, msg); same(R, a, L, msg)
            if not feasible(R, s, X, N, msg): break
            if N > 1:
                R.check(sep(X, L) >= sep(keep, L) - EPS*s.scale(), 'worse', lambda: '%s: separation %g below the start %g' % (msg, sep(X, L), sep(keep, L)))
            R.state((name, k, N, np.round(X, 4)))
            if N > 1 and maxiter == 1 and sep(keep, L) > 0: vertices(R, s, X, L, [N - 1], msg)
    # once the sweeps no longer change the design, every point is a bounded Voronoi vertex of the others
    T = tier == 'thorough'
    for X0 in starts(s, N) + settled(s, L, N, 400 if T else 12) if 1 < N < (4 if T else 3 + (s.m < 3)) else []:
        if sep(X0, L) == 0: continue
        msg = 'maximin_block %s L=%s N=%d X0=%s' % (name, k, N, X0.tolist())
        with scripted(ScriptedRandom()): st, X = R.attempt(psdr.maximin_block, s.build(), N, L=arg(k, L), X0=X0)
        with scripted(ScriptedRandom()): st2, Y = R.attempt(psdr.maximin_block, s.build(), N, L=arg(k, L), X0=X0, maxiter=499)
        if not R.check(st == st2 == 'ok', 'raises', '%s raises %s %s' % (msg, X, Y)): continue
        if np.abs(X - Y).max() <= 1e-6: vertices(R, s, X, L, range(N), msg)
    if N == 2 or tier == 'thorough':
        def go(rng):
            msg = 'maximin_block %s L=%s N=%d outcomes %s' % (name, k, N, rng.prefix)
            st, X = R.attempt(psdr.maximin_block, s.build(), N, L=arg(k, L), maxiter=10)
            if R.check(st == 'ok', 'raises', '%s raises %s' % (msg, X)): feasible(R, s, X, N, msg)
        outcomes(R, go, tier, mp=2, cap=8)
    if len(np.unique(s.box()[0] % 1)) == 1 and N == 2 and s.m < 3 and name not in ('tri', 'eq'):
        # integer typed start
        X0 = np.array([s.support(np.eye(s.m)[0])[1], s.support(-np.eye(s.m)[0])[1]]); X0 = np.round(X0)
        if s.violation(X0).max() <= 1e-9:
            st, A = R.attempt(psdr.maximin_block, s.build(), 2, L=arg(k, L), X0=X0.astype(int), maxiter=5)
            st2, B = R.attempt(psdr.maximin_block, s.build(), 2, L=arg(k, L), X0=X0, maxiter=5)
            R.check(st == st2 == 'ok' and np.allclose(A, B, atol=EPS*s.scale()), 'integers', lambda: 'maximin_block %s: %s from integers, %s from floats' % (name, A, B))


def settled(s, L, N, cap):
    """starts of which some points are already vertices of the others while another one is not"""
    S = np.array(sites(s)); out = []
    for c in itertools.permutations(range(len(S)), N):
        X = S[list(c)]
        at = [on_vertex(s, X, L, i) for i in range(N)]
        if sep(X, L) > 0 and any(at[:-1]) and not all(at): out.append(X)
        if len(out) >= cap: break
    return out


def on_vertex(s, X, L, i, tol=1e-9):
    return np.min(np.linalg.norm(arrangement(s, np.delete(X, i, axis=0), L) - X[i], axis=1)) <= tol*s.scale()


def stationary(s, X, L, i):
    """the gradient of the distance to the nearest points vanishes along the active constraints (exact symmetry)"""
    x, Y = X[i], np.delete(X, i, axis=0)
    rows = [r for r in np.vstack([s.Aeq, s.hAeq])]
    for a, b in list(zip(s.A, s.b)) + list(zip(s.hA, s.hb)) + [(e, u) for e, u in zip(np.eye(s.m), s.ub)] + [(-e, -l) for e, l in zip(np.eye(s.m), s.lb)]:
        if np.isfinite(b) and abs(a @ x - b) <= 1e-7*s.scale()*np.linalg.norm(a): rows.append(a)
    d = np.linalg.norm((Y - x) @ L.T, axis=1); near = Y[d <= d.min() + 1e-7*s.scale()]
    rows += [L.T @ L @ (y - near[0]) for y in near[1:]]
    g = L.T @ L @ (x - near[0])
    if len(rows): A = np.array(rows); g = g - A.T @ np.linalg.lstsq(A.T, g, rcond=None)[0]
    return np.linalg.norm(g) <= 1e-7*s.scale()


def vertices(R, s, X, L, idx, msg):
    if np.linalg.matrix_rank(L) < s.m: return
    for i in idx:
        R.check(on_vertex(s, X, L, i, 1e-3) or stationary(s, X, L, i), 'not-vertex', lambda: '%s: design %s, point %d is not a bounded Voronoi vertex of the others' % (msg, X.tolist(), i))


def do_coffee(R, name, k, N, tier):
    s, Ls = meta(name); L = Ls[k]
    rank = np.linalg.matrix_rank(L)
    for full in (None, True, False):
        if rank < s.m and full is True: continue
        def go(rng):
            a = L.copy()
            msg = 'maximin_coffeehouse %s L=%s N=%d full=%s outcomes %s' % (name, k, N, full, rng.prefix)
            st, X = R.attempt(psdr.maximin_coffeehouse, s.build(), N, L=arg(k, a), full=full, verbose=False)
            if not R.check(st == 'ok', 'raises', '%s raises %s' % (msg, X)): return
            same(R, a, L, msg)
            if not feasible(R, s, X, N, msg): return
            R.state((name, k, N, full, np.round(X, 4)))
            d = [mind(X[j:j + 1], X[:j], L)[0] for j in range(1, N)]
            if full is not False and rank == s.m:
                for j in range(1, N):
                    best = cover(s, X[:j], L)
                    R.check(abs(d[j - 1] - best) <= EPS*s.scale()*max(1, np.linalg.norm(L, 2)), 'farthest', lambda: '%s: point %d at distance %g of the others, %g possible' % (msg, j, d[j - 1], best))
            else:
                R.check(any(rng.prefix) or all(x > 1e-8 for x in d), 'repeated', lambda: '%s: %s' % (msg, X.tolist()))
        outcomes(R, go, tier, mp=2, cap=5)


def do_seq(R, name, k, N, tier):
    s, Ls = meta(name); L = Ls[k]
    tol = EPS*s.scale()*max(1, np.linalg.norm(L, 2))
    d = s.build()
    # without samples: a corner in a dominant direction of the metric
    def first(rng):
        msg = 'seq_maximin_sample %s L=%s no samples, outcomes %s' % (name, k, rng.prefix)
        st, x = R.attempt(psdr.seq_maximin_sample, s.build(), np.zeros((0, s.m)), Ls=None if k == 'none' else [L.copy()])
        if not R.check(st == 'ok' and np.shape(x) == (s.m,), 'raises', '%s: %s' % (msg, x)): return
        R.check(s.violation(x)[0] <= EPS*s.scale(), 'outside', lambda: '%s: %s' % (msg, x))
        sv, VT = np.linalg.svd(L)[1:]
        if len(sv) == 1 or sv[0] > sv[1]*(1 + 1e-3):
            h = [s.support(VT[0])[0], s.support(-VT[0])[0]]
            R.check(min(abs(x @ VT[0] - h[0]), abs(-x @ VT[0] - h[1])) <= EPS*s.scale(), 'corner', lambda: '%s: %s is no corner' % (msg, x))
    if N == 2: outcomes(R, first, tier, mp=1)
    G = lattice(s)
    for Xhat in starts(s, N)[:None if tier == 'thorough' else 2]:
        for form in ('array', 'list', 'lists'):
            if form != 'array' and (not np.array_equal(Xhat, starts(s, N)[0]) or k not in ('row', 'diag')): continue
            for slack in (.9, .5) if tier == 'thorough' or form == 'array' and k == 'none' else (.9,):
                keep = Xhat.copy(); Lk = [L.copy()]; X0 = G.copy()
                msg = 'seq_maximin_sample %s L=%s Xhat=%s slack=%g %s' % (name, k, keep.tolist(), slack, form)
                st, x = 'x', None
                with scripted(ScriptedRandom()):
                    st, x = R.attempt(psdr.seq_maximin_sample, d, Xhat if form == 'array' else Xhat.tolist(), Ls=Lk if form != 'lists' else [L.tolist()], X0=X0, slack=slack)
                if not R.check(st == 'ok' and np.shape(x) == (s.m,), 'raises', '%s: %s %s' % (msg, st, x)): continue
                same(R, Xhat, keep, msg); same(R, Lk[0], L, msg); same(R, X0, G, msg)
                R.check(s.violation(x)[0] <= EPS*s.scale(), 'outside', lambda: '%s: %s' % (msg, x))
                got = mind([x], keep, L)[0]
                best = mind(G, keep, L).max()
                R.check(got >= slack*best - 10*tol, 'near', lambda: '%s: distance %g of the samples, a starting point was at %g' % (msg, got, best))
                if np.linalg.matrix_rank(L) == s.m:
                    top = cover(s, keep, L)
                    R.check(got <= top + 10*tol, 'far', lambda: '%s: distance %g, at most %g possible' % (msg, got, top))
                R.state((name, k, N, slack, np.round(x, 4)))
    if s.m > 1 and k in ('none', 'row', 'diag'):
        # several metrics
        rows = [np.eye(s.m)[i:i + 1] for i in range(s.m)] + [L]
        for Lset in (rows[:2], rows[-2:], rows):
            Xhat = starts(s, N)[0]
            def go(rng):
                msg = 'seq_maximin_sample %s Ls=%s outcomes %s' % (name, [l.tolist() for l in Lset], rng.prefix)
                st, x = R.attempt(psdr.seq_maximin_sample, s.build(), Xhat, Ls=[l.copy() for l in Lset], Nsamp=20)
                if not R.check(st == 'ok' and np.shape(x) == (s.m,), 'raises', '%s: %s' % (msg, x)): return
                R.check(s.violation(x)[0] <= EPS*s.scale(), 'outside', lambda: '%s: %s' % (msg, x))
            outcomes(R, go, tier, mp=1, cap=2)


def do_seqscale(R, kind, c, j, tier):
    """the slack is relative to the best score, whatever the units of the domain"""
    m = 3 if kind == 'cube' else 2
    ub = np.array([1., 4.] if kind == 'long' else [1.]*m)
    G = np.array(list(itertools.product(*[np.linspace(0, u, 6 if m == 2 else 4) for u in ub])))
    P = np.array([[0., 0.], [.4, 0.], [1., 1.], [1., 0.], [0., 1.], [.4, .9]]) if m == 2 else np.array([[0., 0, 0], [.4, 0, 0], [1., 1., 1.], [1., 0, 1], [0, 1., .5], [1., 0, 0]])
    if kind == 'tri': G = G[G.sum(axis=1) <= 1 + 1e-9]; P = np.array([[0., 0.], [.4, 0.], [0, 1.], [1., 0.], [.4, .6], [.2, .2]])
    G = G*c; P = P*(ub if kind == 'long' else 1)*c
    mk = lambda: psdr.LinIneqDomain(A=[[1., 1.]], b=[c], lb=np.zeros(2), ub=np.full(2, c)) if kind == 'tri' else psdr.BoxDomain(np.zeros(m), c*ub)
    rows = [np.eye(m)[:1], np.eye(m)[-1:], np.eye(m)[:1] + .5*np.eye(m)[1:2], np.diag([1., 3.] + [1.]*(m - 2))]
    sets = [S for n in (2, 3, 4) for S in itertools.combinations(range(len(P)), n)]
    for n, S in enumerate(sets):
        if tier != 'thorough' and n % (5 if m == 2 else 17) != 2*j: continue
        Xhat = P[list(S)]
        for L in (rows if tier == 'thorough' else rows[j::2]):
            for slack in (.9, .99) if m == 2 or tier == 'thorough' else (.9,):
                msg = 'seq_maximin_sample %s of size %g, Xhat=%s L=%s slack=%g' % (kind, c, Xhat.tolist(), L.tolist(), slack)
                with scripted(ScriptedRandom()): st, x = R.attempt(psdr.seq_maximin_sample, mk(), Xhat, Ls=[L.copy()], X0=G.copy(), slack=slack)
                if not R.check(st == 'ok' and np.shape(x) == (m,), 'raises', '%s: %s' % (msg, x)): continue
                R.check(np.all(mk().isinside(x, tol=EPS*c)), 'outside', lambda: '%s: %s' % (msg, x))
                got, best = mind([x], Xhat, L)[0], mind(G, Xhat, L).max()
                R.check(got >= slack*best - 1e-4*c, 'near', lambda: '%s: %s at distance %g of the samples, a starting point was at %g' % (msg, x, got, best))
                R.state((kind, c, S, L.tobytes(), np.round(x/c, 4)))


def do_lloyd(R, name, k, N, tier):
    s, Ls = meta(name); L = Ls[k]
    tol = EPS*s.scale()*max(1, np.linalg.norm(L, 2))
    if s.m == 1: return
    for X0 in starts(s, N):
        last = cover(s, X0, L)
        for maxiter in (1, 2, 4):
            keep = X0.copy(); a = L.copy()
            msg = 'minimax_lloyd %s L=%s M=%d Xhat=%s maxiter=%d' % (name, k, N, keep.tolist(), maxiter)
            with scripted(ScriptedRandom()):
                st, X = R.attempt(psdr.minimax_lloyd, s.build(), N, L=arg(k, a), Xhat=X0, maxiter=maxiter, full=True, verbose=False)
            if not R.check(st == 'ok', 'raises', '%s raises %s' % (msg, X)): break
            same(R, X0, keep, msg); same(R, a, L, msg)
            if not feasible(R, s, X, N, msg): break
            c = cover(s, X, L)
            R.check(c <= last + 10*tol, 'worse', lambda: '%s: covering radius %g, with fewer iterations %g' % (msg, c, last))
            last = min(c, last)
            R.state((name, k, N, np.round(X, 4)))
    for full in (True, False):
        if N > 2 and tier != 'thorough': break
        def go(rng):
            msg = 'minimax_lloyd %s L=%s M=%d full=%s outcomes %s' % (name, k, N, full, rng.prefix)
            st, X = R.attempt(psdr.minimax_lloyd, s.build(), N, L=arg(k, L), maxiter=2, full=full, verbose=False)
            if R.check(st == 'ok', 'raises', '%s raises %s' % (msg, X)): feasible(R, s, X, N, msg)
        outcomes(R, go, tier, mp=1, cap=4)


def do_scale(R, name, k, N, tier):
    s, Ls = meta(name); L = Ls[k]
    tol = EPS*s.scale()*max(1, np.linalg.norm(L, 2))
    for X0 in starts(s, N):
        for npoints in (2, 3, 8):
            keep = X0.copy(); a = L.copy()
            msg = 'minimax_scale %s L=%s Xhat=%s npoints=%d' % (name, k, keep.tolist(), npoints)
            with scripted(ScriptedRandom()):
                st, X = R.attempt(psdr.minimax_scale, s.build(), X0, L=arg(k, a), npoints=npoints, full=True, verbose=False)
            if st == 'raise' and X == 'AttributeError' and not hasattr(s.build(), 'center'): break
            if not R.check(st == 'ok', 'raises', '%s raises %s' % (msg, X)): break
            same(R, X0, keep, msg); same(R, a, L, msg)
            if not feasible(R, s, X, N, msg): break
            c, c0 = cover(s, X, L), cover(s, keep, L)
            R.check(c <= c0 + tol, 'worse', lambda: '%s: covering radius %g, before %g' % (msg, c, c0))
            # scaled towards one point with one factor
            D, D0 = X - X[0], keep - keep[0]
            if N > 1:
                f = np.sum(D*D0)/np.sum(D0*D0)
                R.close(D, f*D0, 'shape', msg, rtol=0, atol=10*tol)
                R.check(-1e-9 <= f <= 1 + 1e-9, 'factor', '%s: %g' % (msg, f))
            R.state((name, k, N, np.round(X, 4)))
        with scripted(ScriptedRandom()):
            st, X = R.attempt(psdr.minimax_scale, s.build(), X0, L=arg(k, L), npoints=2, full=False, verbose=False)
        if st == 'raise' and X == 'AttributeError' and not hasattr(s.build(), 'center'): break
        if R.check(st == 'ok', 'raises', 'minimax_scale %s L=%s sampled raises %s' % (name, k, X)): feasible(R, s, X, N, 'minimax_scale %s L=%s full=False' % (name, k))


def do_poisson(R, name, k, N, tier):
    s, Ls = meta(name); L = Ls[k]
    if N < 2 or N > 3: return
    for fn in (psdr.poisson_disk_sample, psdr.poisson_disk_sample_grid):
        # radius: fraction of the largest extent in the metric
        E = zoo.inner_points(s)
        diam = max(np.linalg.norm((x - y) @ L.T) for x in E for y in E)
        for q in ({2: (.7, 1.5), 3: (.3,)}[N] if s.m < 3 else (.7,)):
            if fn is psdr.poisson_disk_sample_grid and L.shape[0] > 2 and q < .5: continue
            r = q*diam
            def go(rng):
                a = L.copy()
                msg = '%s %s L=%s r=%g outcomes %s' % (fn.__name__, name, k, r, rng.prefix)
                st, X = R.attempt(fn, s.build(), r, L=arg(k, a), Ntries=8)
                if not R.check(st == 'ok', 'raises', '%s raises %s' % (msg, X)): return
                same(R, a, L, msg)
                if not R.check(np.ndim(X) == 2 and len(X) >= 1, 'count', '%s: %s' % (msg, X)): return
                if not feasible(R, s, X, len(X), msg): return
                R.check(sep(X, L) > r*(1 - 1e-9), 'separation', lambda: '%s: points %g apart' % (msg, sep(X, L)))
                R.state((name, k, q, np.round(X, 4)))
            outcomes(R, go, tier, mp=10, cap=14 if name != 'hull' else 6)


def do_cluster(R, name, k, N, tier):
    s, Ls = meta(name); L = Ls[k]
    G = lattice(s, 4 if s.m < 3 else 3)
    if len(G) < N: return
    tol = EPS*s.scale()*max(1, np.linalg.norm(L, 2))
    for X0 in starts(s, N)[:2 if tier != 'thorough' else 3]:
        last = mind(G, X0, L).max()
        for maxiter in (1, 3):
            keep = X0.copy(); a = L.copy(); g = G.copy(); so = {}
            msg = 'minimax_cluster %s L=%s N=%d Xhat=%s maxiter=%d' % (name, k, N, keep.tolist(), maxiter)
            st, X = R.attempt(psdr.minimax_cluster, s.build(), N, L=arg(k, a), X=g, Xhat=X0, maxiter=maxiter, verbose=False, solver_opts=so)
            if not R.check(st == 'ok', 'raises', '%s raises %s' % (msg, X)): break
            same(R, X0, keep, msg); same(R, a, L, msg); same(R, g, G, msg)
            R.check(so == {}, 'options', '%s: solver_opts became %s' % (msg, so))
            if not feasible(R, s, X, N, msg, 1e-4): break
            c = mind(G, X, L).max()
            R.check(c <= last + tol, 'worse', lambda: '%s: largest distance %g, before %g' % (msg, c, last))
            last = min(last, c)
            R.state((name, k, N, np.round(X, 3)))
    if not any([len(s.Aeq), len(s.hAeq)]) and N == 2:
        for kw in ({'X': G}, {'N0': 30}):
            st, X = R.attempt(psdr.minimax_cluster, s.build(), N, L=arg(k, L), maxiter=2, verbose=False, **kw)
            msg = 'minimax_cluster %s L=%s %s' % (name, k, list(kw))
            if R.check(st == 'ok', 'raises', '%s raises %s' % (msg, X)): feasible(R, s, X, N, msg, 1e-4)


def do_pso(R, name, k, N, tier):
    s, Ls = meta(name); L = Ls[k]
    if tier != 'thorough' and N == 3 and k not in ('none', 'row'): return
    G = lattice(s, 4 if s.m < 3 else 3)
    for a4 in (0, 5):
        def go(rng):
            g = G.copy()
            msg = 'minimax_cluster_pso %s L=%s N=%d a4=%g outcomes %s' % (name, k, N, a4, rng.prefix)
            st, v = R.attempt(psdr.minimax_cluster_pso, s.build(), N, L=arg(k, L), X=g, maxiter=2, n_particles=2, a4=a4, verbose=False)
            if not R.check(st == 'ok', 'raises', '%s raises %s' % (msg, v)): return
            X, score = v
            same(R, g, G, msg)
            if not feasible(R, s, X, N, msg, 1e-4): return
            R.close(score, mind(G, X, L).max(), 'score', msg, rtol=0, atol=1e-6*s.scale()*max(1, np.linalg.norm(L, 2)))
            R.state((name, k, N, a4, np.round(X, 3)))
        b = range(2 if tier != 'thorough' else 4)
        for base in b: explore(go, bound=1 if tier == 'thorough' else 0, max_points=4, cap=10, base=base, R=R)


def do_discrete(R, n, tier):
    # every set of n points out of a small lattice (up to a cap on the lattice size), every threshold
    pts = [np.array(p, dtype=float) for p in itertools.product((0, 1, 2.5), (0, 1.))] + [np.array([.4, 2.])]
    fam = list(itertools.combinations(range(len(pts)), n))
    Ls = {'none': np.eye(2), 'diag': np.diag([1., 3.]), 'row': np.array([[1., 2.]])}
    for S in fam[::1 if tier == 'thorough' or len(fam) < 10 else 3]:
        X = np.array([pts[i] for i in S])
        for k, L in Ls.items():
            Y = X @ L.T
            D = np.linalg.norm(Y[:, None] - Y[None], axis=2)
            lev = np.unique(np.round(D[np.triu_indices(n, 1)], 9))
            rs = [.1] + [(a + b)/2 for a, b in zip(lev[:-1], lev[1:])][::2 if tier != 'thorough' else 1] + ([lev[-1] + 1] if len(lev) else [])
            for r in rs:
                keep = X.copy()
                msg = 'minimax_covering_discrete %s L=%s r=%g' % (keep.tolist(), k, r)
                st, I = R.attempt(psdr.minimax_covering_discrete, X, r, L=arg(k, L))
                if not R.check(st == 'ok', 'raises', '%s raises %s' % (msg, I)): continue
                same(R, X, keep, msg)
                if not R.check(np.shape(I) == (n,) and np.asarray(I).dtype == bool, 'shape', '%s: %s' % (msg, I)): continue
                C = D < r
                R.check(np.any(I) and np.all(C[I].any(axis=0)), 'uncovered', lambda: '%s: %s leaves a point uncovered' % (msg, I))
                best = next(c for c in range(1, n + 1) if any(C[list(T)].any(axis=0).all() for T in itertools.combinations(range(n), c)))
                R.check(np.sum(I) == best, 'size', lambda: '%s: %d points, %d are enough' % (msg, np.sum(I), best))
                R.state((S, k, r, int(np.sum(I))))


def do_covering(R, name, q, tier):
    s, Ls = meta(name)
    for k in ('none', 'diag', 'shear'):
        if k not in Ls: continue
        L = Ls[k]
        E = zoo.inner_points(s)
        diam = max(np.linalg.norm((x - y) @ L.T) for x in E for y in E)
        r = diam*q
        if s.m == 3 and q < .5: continue
        for b in streams(tier):
            with scripted(ScriptedRandom((), base=b)):
                st, X = R.attempt(psdr.minimax_covering, s.build(), r, L=arg(k, L))
            msg = 'minimax_covering %s L=%s r=%g stream %d' % (name, k, r, b)
            if not R.check(st == 'ok', 'raises', '%s raises %s' % (msg, X)): continue
            if not R.check(np.ndim(X) == 2 and len(X) > 0, 'count', '%s: %s' % (msg, X)): continue
            if feasible(R, s, X, len(X), msg) and (s.m < 3 or len(X) <= 4) and len(X) <= 9:
                c = cover(s, X, L)
                R.check(c <= r + EPS*s.scale(), 'covering', lambda: '%s: covering radius %g' % (msg, c))
                R.state((name, q, k, len(X)))


def do_optimal(R, name, q, tier):
    s, Ls = meta(name)
    if s.m == 3: return
    for k in ('none', 'diag', 'shear'):
        if k not in Ls: continue
        L = Ls[k]
        G = lattice(s, 5)
        E = zoo.inner_points(s)
        r = q*.8*max(np.linalg.norm((x - y) @ L.T) for x in E for y in E)
        g = G.copy()
        with scripted(ScriptedRandom()):
            st, X = R.attempt(psdr.minimax_optimal_cover, s.build(), r, L=arg(k, L), X=g, maxiter=3)
        msg = 'minimax_optimal_cover %s L=%s r=%g' % (name, k, r)
        if not R.check(st == 'ok', 'raises', '%s raises %s' % (msg, X)): continue
        same(R, g, G, msg)
        if feasible(R, s, X, len(X), msg, 1e-4):
            R.check(mind(G, X, L).max() <= r*(1 + 1e-9), 'covering', lambda: '%s: distance %g' % (msg, mind(G, X, L).max()))
            R.state((name, q, k, len(X)))


def do_bisect(R, tier):
    """integer bisection used by the covering search, where it is available"""
    try: from psdr.sample.minimax import _int_bisect
    except ImportError: return
    for n1 in range(0, 4):
        for n in range(n1 + 1, n1 + (12 if tier == 'thorough' else 9)):
            for c in range(n1, n):
                calls = []
                def f(x): calls.append(x); return 1. if x > c else -1.
                st, v = R.attempt(_int_bisect, f, n1, n, verbose=False)
                R.check(st == 'ok' and v == c + 1, 'bisect', 'first positive at %d in [%d,%d]: %s' % (c + 1, n1, n, v))
                R.check(all(n1 <= x <= n for x in calls), 'bisect-range', str(calls))
                R.state((n1, n, c))


def do_projection(R, name, N, tier):
    s, _ = meta(name)
    E = np.eye(s.m)
    lo, hi = s.box()
    eq = len(s.Aeq) + len(s.hAeq)
    fams = [('e1', [E[:1]]), ('axes', [E[:1], E[1:2]]), ('skew', [np.array([[1., 1., .5][:s.m]]), np.array([[1., -1., 0][:s.m]])])]
    if s.m == 3: fams += [('21', [E[:2], E[2:]]), ('three', [E[:1], E[1:2], E[2:]]), ('plane', [np.array([[1., 1, 0], [0, 1., 1.]])])]
    if s.m == 2: fams += [('full', [np.eye(2)])]
    for fam, Ls in fams:
        for fn, short in ((psdr.projection_sample, 'sample'), (psdr.projection_design, 'design')):
            if short == 'design' and (fam in ('21', 'plane', 'full')): continue
            def go(rng):
                keep = [l.copy() for l in Ls]
                msg = 'projection_%s %s N=%d Ls=%s outcomes %s' % (short, name, N, fam, rng.prefix)
                kw = {'verbose': False} if short == 'design' else {}
                st, X = R.attempt(fn, s.build(), N, keep, maxiter=4, **kw)
                if not R.check(st == 'ok', 'raises', '%s raises %s' % (msg, X)): return
                for a, b in zip(keep, Ls): same(R, a, b, msg)
                if X is None: return          # no arrangement of the cells is feasible
                if not feasible(R, s, X, N, msg): return
                for l in Ls:
                    if len(l) > 1: continue
                    h, g = s.support(l[0])[0], -s.support(-l[0])[0]
                    if h - g < 1e-6: continue
                    z = np.sort((X @ l[0] - g)/(h - g))
                    edge = (np.arange(1, N) - .5)/(N - 1) if short == 'sample' and N > 1 else np.arange(1, N)/N
                    ed = np.hstack([0, edge, 1])
                    R.check(all(ed[i] - EPS <= z[i] <= ed[i + 1] + EPS for i in range(N)), 'cells', lambda: '%s: projections %s are not one per cell %s' % (msg, z.tolist(), ed.tolist()))
                R.state((name, N, fam, short, np.round(X, 4)))
            outcomes(R, go, tier, mp=2, cap=2 if s.m == 3 else 4)


def do_stretch(R, name, k, N, tier):
    s, Ls = meta(name); L = Ls[k]
    X0 = starts(s, N)[0]
    E = np.eye(s.m)
    for lab, fam in (('one', [L]), ('pair', [L, E[:1]]), ('axes', [E[i:i + 1] for i in range(s.m)]), ('many', [E[:1], L, np.ones((1, s.m))])):
        if tier != 'thorough' and k not in ('none', 'row', 'diag') and lab != 'one': continue
        for fn in (psdr.stretch_sample, psdr.stretch_sample_domain):
            def go(rng):
                fk = [l.copy() for l in fam]; X = X0.copy(); nfam = len(fk)
                msg = '%s %s Ls=%s/%s X=%s outcomes %s' % (fn.__name__, name, lab, k, X0.tolist(), rng.prefix)
                st, v = R.attempt(fn, s.build(), X, fk)
                if not R.check(st == 'ok', 'raises', '%s raises %s' % (msg, v)): return
                same(R, X, X0, msg)
                R.check(len(fk) == nfam and all(np.array_equal(a, b) for a, b in zip(fk, fam)), 'mutated', msg)
                if fn is psdr.stretch_sample_domain:
                    st, Y = R.attempt(v.sample, 3)
                    if not R.check(st == 'ok', 'domain', '%s: sampling the returned domain raises %s' % (msg, Y)): return
                    feasible(R, s, np.atleast_2d(Y), 3, msg)
                    return
                if not R.check(np.shape(v) == (s.m,), 'shape', '%s: %s' % (msg, v)): return
                R.check(s.violation(v)[0] <= EPS*s.scale(), 'outside', lambda: '%s: %s' % (msg, v))
                R.check(any(rng.prefix) or mind([v], X0, np.eye(s.m))[0] > 1e-6*s.scale(), 'repeated', lambda: '%s: %s is a given sample' % (msg, v))
                R.state((name, k, N, lab, np.round(v, 4)))
            outcomes(R, go, tier, mp=1, cap=3)
