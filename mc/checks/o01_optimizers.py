"""O01: optimizers"""
import itertools
import numpy as np
from scipy.optimize import linprog, minimize
import cvxpy as cp
import psdr
from psdr.gn import gauss_newton, linesearch_armijo, trajectory_linear
from psdr.seqlp import sequential_lp
from psdr import minimax

PID = 'O01'
BOUND = """Alphabet: Gauss-Newton on 9 residuals (linear full rank / rank deficient / underdetermined, Rosenbrock, exponential
 and rational fits, zero and nonzero residual) x residual scale {1e-4,1,1e3,1e5} x lattice of starts x maxiter {0,1,2,5,100} x verbosity x
 {default, user supplied} direction solver, line search, trajectory x spelling of the start.  Sequential LP on affine and
 smooth residuals x norm {1,2,inf,None,hinge} x one-sided bounds x domain {none, box, polytope, ball} x constraints x
 verbosity x maxiter {0,1,2,100}.  Minimax on affine and quadratic families x domains x trust region x starts.  Oracle:
 objective and feasibility recomputed; optimal values of the convex problems from LP (HiGHS) or an independent descent."""
ASSUMPTIONS = ['a point accepted by the optimizer may violate a constraint by the tolerance of the conic solver (1e-4 for second-order cone domains solved inaccurately, 1e-6 otherwise)',
               'stationarity after Gauss-Newton stops for lack of progress is required up to 1e-5 of |J||f|']
CASE_CPU_LIMIT = 100.


# ---------------------------------------------------------------------- Gauss-Newton
def gn_problems():
    t = np.array([0., .5, 1., 2., 3.])
    s = np.array([0.038, 0.194, 0.425, 0.626, 1.253, 2.500, 3.740]); r = np.array([0.050, 0.127, 0.094, 0.2122, 0.2729, 0.2665, 0.3317])
    A = np.array([[1., 2], [3, 4], [5, 7], [0, 1]]); b = np.array([1., 0, 2, -1])
    A3 = np.array([[1., 2], [2, 4], [-1, -2]])
    P = {}
    P['linear'] = (2, lambda x: A @ x - b, lambda x: A)
    P['square'] = (2, lambda x: A[:2] @ x - b[:2], lambda x: A[:2])
    P['deficient'] = (2, lambda x: A3 @ x - b[:3], lambda x: A3)
    P['under'] = (3, lambda x: np.array([x[0] + x[1] - 1, x[1] - 2*x[2]]), lambda x: np.array([[1., 1, 0], [0, 1, -2]]))
    P['rosen'] = (2, lambda x: np.array([10*(x[1] - x[0]**2), 1 - x[0]]), lambda x: np.array([[-20*x[0], 10.], [-1., 0]]))
    P['expfit'] = (2, lambda x: x[0]*np.exp(-x[1]*t) - np.array([2., 1.3, .8, .2, .1]), lambda x: np.array([np.exp(-x[1]*t), -t*x[0]*np.exp(-x[1]*t)]).T)
    P['quadres'] = (1, lambda x: np.array([x[0]**2 - 2., x[0] - 1.]), lambda x: np.array([[2*x[0]], [1.]]))
    P['rate'] = (2, lambda x: x[0]*s/(x[1] + s) - r, lambda x: np.array([s/(x[1] + s), -x[0]*s/(x[1] + s)**2]).T)
    P['circle'] = (2, lambda x: np.array([np.hypot(*(x - c)) - 1. for c in ((0, 2.), (2., 0), (3., 3.))]),
                   lambda x: np.array([(x - c)/np.hypot(*(x - c)) for c in ((0, 2.), (2., 0), (3., 3.))]))
    return P


def gn_starts(name, n, deep):
    if name == 'rate': return [np.array([.9, .2]), np.array([.3, .5]), np.array([1., 1.])]
    if name == 'expfit': return [np.array(v) for v in ((1., 1.), (2., .5), (1., 0.), (3., 2.))]
    if name == 'circle': return [np.array(v) for v in ((1., 1.), (.5, 1.5), (2., 2.5), (-1., -1.))]
    if n == 1: return [np.array([v]) for v in (-3., -1., 0., .5, 2., 10.)]
    L = (-2., 0., 1.5) if not deep else (-2., -1., 0., 1., 3.)
    return [np.array(v) for v in itertools.product(L, repeat=n)]


# ---------------------------------------------------------------------- sequential LP
def slp_problems():
    x = np.array([-1., -.5, 0, .3, .8, 1.2]); V = np.array([x**0, x, x**2]).T; y = np.array([1., -.3, .2, .7, -1., 2.])
    B = np.array([[1., 2.], [-1., 1.], [0, -3.], [2., 0]]); c = np.array([1., 2., -1., 0.])
    P = {}
    P['poly'] = (3, lambda u: V @ u - y, lambda u: V, True)
    P['affine'] = (2, lambda u: B @ u - c, lambda u: B, True)
    P['line'] = (1, lambda u: np.array([u[0] - 2., 3*u[0] + 1.]), lambda u: np.array([[1.], [3.]]), True)
    P['exp'] = (2, lambda u: u[0]*np.exp(u[1]*x) - np.array([.5, .6, 1., 1.2, 2.1, 3.]), lambda u: np.array([np.exp(u[1]*x), u[0]*x*np.exp(u[1]*x)]).T, False)
    P['quadr'] = (2, lambda u: np.array([u[0]**2 + u[1] - 1, u[0] - u[1]**2, u[0]*u[1]]), lambda u: np.array([[2*u[0], 1.], [1., -2*u[1]], [u[1], u[0]]]), False)
    return P


def domains(n):
    one = np.ones(n)
    D = [('none', None, lambda x: 0.)]
    lb, ub = -.5*one, .75*one
    D.append(('box', lambda: psdr.BoxDomain(lb, ub), lambda x: max((lb - x).max(), (x - ub).max())))
    D.append(('poly', lambda: psdr.LinIneqDomain(A=[list(one)], b=[.5], lb=-one, ub=one), lambda x: max((-one - x).max(), (x - one).max(), x.sum() - .5)))
    D.append(('ball', lambda: psdr.LinQuadDomain(Ls=[np.eye(n)], ys=[np.zeros(n)], rhos=[.9]), lambda x: np.linalg.norm(x) - .9))
    return D


def obj(fx, norm):
    fx = np.asarray(fx, dtype=float)
    if norm == 'hinge': return np.maximum(fx, 0).sum()
    if norm is None: return float(fx)
    return np.linalg.norm(fx, norm)


def convex_opt(B, c, norm, dname, n, lo=None, up=None):
    """independent optimum of ||B x - c|| (LP), or None"""
    A, b = [], []
    bounds = [(None, None)]*n
    if dname == 'box': bounds = [(-.5, .75)]*n
    elif dname == 'poly': bounds = [(-1, 1)]*n; A.append(np.ones((1, n))); b.append([.5])
    elif dname == 'ball': return None
    if lo is not None: A.append(-B); b.append(-(lo + c))
    if up is not None: A.append(B); b.append(up + c)
    M = len(B)
    if norm == 1: T = np.eye(M); w = np.ones(M)
    elif norm == np.inf: T = np.ones((M, 1)); w = np.ones(1)
    elif norm == 'hinge': T = np.eye(M); w = np.ones(M)
    else: return None
    k = T.shape[1]
    AA = [np.hstack([a, np.zeros((len(a), k))]) for a in A]; bb = list(b)
    AA.append(np.hstack([B, -T])); bb.append(c)
    if norm != 'hinge': AA.append(np.hstack([-B, -T])); bb.append(-c)
    r = linprog(np.hstack([np.zeros(n), w]), A_ub=np.vstack(AA), b_ub=np.hstack(bb), bounds=bounds + [(0, None)]*k)
    return r.fun if r.status == 0 else None


# ---------------------------------------------------------------------- minimax
class Fam(psdr.BaseFunction):
    def __init__(self, n, f, g): self.n = n; self._f = f; self._g = g
    def eval(self, x, **kw): return self._f(np.asarray(x, dtype=float))
    def grad(self, x): return self._g(np.asarray(x, dtype=float))


def mm_problems():
    B = np.array([[1., 2.], [-1., 1.], [0, -3.], [2., -1.]]); c = np.array([1., 2., -1., 0.])
    P = {}
    P['affine'] = Fam(2, lambda x: B @ x + c, lambda x: B)
    P['abs1'] = Fam(1, lambda x: np.array([x[0] - 1., 1. - x[0]]), lambda x: np.array([[1.], [-1.]]))
    P['quad'] = Fam(2, lambda x: np.array([x[0] + x[1], x[0]**2 + x[1]**2]), lambda x: np.array([[1., 1.], 2*x]))
    P['two'] = Fam(2, lambda x: np.array([(x[0] - 1)**2 + x[1]**2, (x[0] + 1)**2 + x[1]**2, (x[1] - .5)**2 + x[0]**2]),
                   lambda x: np.array([[2*(x[0] - 1), 2*x[1]], [2*(x[0] + 1), 2*x[1]], [2*x[0], 2*(x[1] - .5)]]))
    P['cb2'] = Fam(2, lambda x: np.array([x[0]**2 + x[1]**4, (2 - x[0])**2 + (2 - x[1])**2, 2*np.exp(-x[0] + x[1])]),
                   lambda x: np.array([[2*x[0], 4*x[1]**3], [-2*(2 - x[0]), -2*(2 - x[1])], [-2*np.exp(-x[0] + x[1]), 2*np.exp(-x[0] + x[1])]]))
    return P


def cases(tier):
    out = []
    for p in gn_problems():
        for sc in (1., 1e-4, 1e3, 1e5):
            out.append(('gn/%s/%g' % (p, sc), ('gn', p, sc, tier)))
    out.append(('armijo', ('armijo', tier)))
    out.append(('gn-custom', ('gncustom', tier)))
    for p, (n, f, J, lin) in slp_problems().items():
        for norm in (1, 2, np.inf, 'hinge'):
            for d, _, _ in domains(n):
                for bd in ('', 'lo', 'up'):
                    if bd and (norm == 'hinge' or d == 'ball' or p == 'quadr'): continue
                    out.append(('slp/%s/%s/%s/%s' % (p, norm, d, bd or 'free'), ('slp', p, norm, d, bd, tier)))
    out.append(('slp-none', ('slpnone', tier)))
    for norm in (1, 2, np.inf): out.append(('slp-con/%s' % norm, ('slpcon', norm, tier)))
    out.append(('slp-random', ('slprand', tier)))
    for p, fam in mm_problems().items():
        for d, _, _ in domains(fam.n):
            for tr in (True, False):
                if not tr and d == 'none' and p in ('quad', 'two', 'cb2'): continue      # linear models unbounded: documented exception
                out.append(('minimax/%s/%s/%s' % (p, d, tr), ('mm', p, d, tr, tier)))
    return out


def run(payload, R):
    kind = payload[0]
    deep = payload[-1] == 'thorough'
    if kind == 'gn':
        _, name, sc, tier = payload
        n, f0, F0 = gn_problems()[name]
        f = lambda x: sc*f0(np.asarray(x, dtype=float)); F = lambda x: sc*F0(np.asarray(x, dtype=float))
        for x0 in gn_starts(name, n, deep):
            prev = None
            for maxiter in (0, 1, 2, 5, 100):
                xs = x0.copy()
                ref = None
                msg = '%s scale %g from %s maxiter=%d' % (name, sc, x0, maxiter)
                for verbose in (0, 1, 2):
                    st, o = R.attempt(gauss_newton, f, F, xs, maxiter=maxiter, verbose=verbose)
                    if not R.check(st == 'ok' and len(o) == 2, 'gn-raise', '%s: %s' % (msg, o)): break
                    x, info = o
                    if ref is None: ref = o
                    else: R.check(np.array_equal(x, ref[0]) and info == ref[1], 'gn-verbose', '%s: verbose=%d changes the answer %s -> %s' % (msg, verbose, ref, o))
                if ref is None: continue
                x, info = ref
                R.check(np.array_equal(xs, x0), 'gn-mutates', msg)
                if not R.check(np.shape(x) == (n,) and np.all(np.isfinite(x)), 'gn-shape', msg): continue
                n0, n1 = np.linalg.norm(f(x0)), np.linalg.norm(f(x))
                R.check(n1 <= n0, 'gn-increase', '%s: %g -> %g' % (msg, n0, n1))
                g0 = np.linalg.norm(F(x0).T @ f(x0)); g = np.linalg.norm(F(x).T @ f(x))
                if info == 0: R.check(g <= max(1e-10*g0, 1e-14)*(1 + 1e-6), 'gn-not-stationary', '%s: info 0 but gradient %g of %g' % (msg, g, g0))
                elif maxiter > 0 and g <= max(1e-10*g0, 1e-14)*(1 - 1e-6): R.fail('gn-info', '%s: converged (gradient %g) but info=%s' % (msg, g, info))
                if maxiter == 0: R.check(np.array_equal(x, x0), 'gn-zero', msg)
                elif g0 > 0 and maxiter >= 1 and not n1 < n0:
                    R.check(g <= 1e-6*np.linalg.norm(F(x))*n0 + 1e-14, 'gn-stuck', '%s: no progress, gradient %g' % (msg, g))
                if prev is not None: R.check(n1 <= prev*(1 + 1e-12), 'gn-monotone', '%s: more iterations are worse %g -> %g' % (msg, prev, n1))
                prev = n1
                if maxiter == 100:
                    R.check(info in (0, 1, 2, 3), 'gn-code', '%s %s' % (msg, info))
                    R.check(g <= 1e-5*np.linalg.norm(F(x))*max(n1, 1e-9*n0) + 1e-13*sc**2, 'gn-final', '%s: final gradient %g, |J||f| %g, info %s' % (msg, g, np.linalg.norm(F(x))*n1, info))
                    if name in ('linear', 'deficient', 'square', 'under'):
                        b0 = -f0(np.zeros(n)); A = F0(np.zeros(n))
                        opt = np.linalg.norm(A @ np.linalg.lstsq(A, b0, rcond=1e-10)[0] - b0)
                        R.check(abs(n1/sc - opt) < 1e-7, 'gn-linear', '%s: %g optimal %g' % (msg, n1/sc, opt))
                R.state((name, sc, x0, maxiter, np.round(x, 5), info))
            # spellings of the start
            for xs in (list(x0), tuple(x0)) + ((x0.astype(int),) if np.all(x0 == np.round(x0)) else ()):
                st, o = R.attempt(gauss_newton, f, F, xs)
                a = gauss_newton(f, F, x0.copy())
                if R.check(st == 'ok', 'gn-spelling', '%s %s: %s' % (name, xs, o)): R.close(o[0], a[0], 'gn-spelling-value', '%s %s' % (name, xs), atol=1e-12)
        return
    if kind == 'armijo':
        for name, (n, f, F) in gn_problems().items():
            for x0 in gn_starts(name, n, deep):
                fx = f(x0); J = F(x0); g = J.T @ fx
                if np.linalg.norm(g) < 1e-12: continue
                for p in (-g, -100*g, -1e-3*g):
                    for kw in ({}, {'bt_factor': .1}, {'fx0': fx}, {'trajectory': lambda a, b, t: a + t*b}, {'maxiter': 3}):
                        x, al, fv = linesearch_armijo(f, g, p, x0.copy(), **kw); R.step()
                        R.check(0 <= al <= 1, 'armijo-alpha', '%s %s' % (name, al))
                        R.close(x, x0 + al*p, 'armijo-x', name); R.close(fv, f(x), 'armijo-f', name)
                        R.check(np.linalg.norm(fv) <= np.linalg.norm(fx), 'armijo-increase', '%s' % name)
                        if kw.get('maxiter') != 3: R.check(al > 0 and np.linalg.norm(fv) < np.linalg.norm(fx), 'armijo-fail', '%s from %s along %s: no step found' % (name, x0, p))
                        R.state((name, x0, al))
                st, o = R.attempt(linesearch_armijo, f, g, g, x0.copy())
                R.check(st == 'raise', 'armijo-ascent', 'ascent direction accepted')
        R.close(trajectory_linear(np.array([1., 2]), np.array([3., -1]), .5), [2.5, 1.5], 'trajectory', '')
        return
    if kind == 'gncustom':
        for name, (n, f, F) in gn_problems().items():
            for x0 in gn_starts(name, n, deep):
                ref = gauss_newton(f, F, x0.copy())
                calls = []
                def solver(J, r): calls.append(1); return (-np.linalg.pinv(J, rcond=1e-12) @ r, np.linalg.svd(J)[1])
                if name != 'under' and name != 'deficient':
                    x, info = gauss_newton(f, F, x0.copy(), gnsolver=solver)
                    R.check(len(calls) > 0, 'gn-solver', 'user supplied solver not called')
                    R.close(f(x) @ f(x), f(ref[0]) @ f(ref[0]), 'gn-solver-value', name, atol=1e-7)
                x, info = gauss_newton(f, F, x0.copy(), trajectory=lambda a, p, t: a + t*p)
                R.close(x, ref[0], 'gn-trajectory', name)
                # ascent / useless directions are replaced
                x, info = gauss_newton(f, F, x0.copy(), gnsolver=lambda J, r: (np.linalg.pinv(J) @ r, np.ones(n)), maxiter=20)
                R.check(np.linalg.norm(f(x)) <= np.linalg.norm(f(x0)), 'gn-bad-direction', name)
                st, o = R.attempt(gauss_newton, f, F, x0.copy(), gnsolver=lambda J, r: (np.full(n, np.nan), np.ones(n)))
                R.check(st == 'raise', 'gn-nan', 'NaN direction accepted')
                ls = []
                def mine(*a, **k): ls.append(1); return linesearch_armijo(*a, **k)
                x, info = gauss_newton(f, F, x0.copy(), linesearch=mine)
                R.check(len(ls) > 0 and np.allclose(x, ref[0]), 'gn-linesearch', name)
                R.step(5); R.state((name, x0, np.round(x, 5)))
        # circle trajectory: stays on the circle, never increases
        f = lambda x: np.array([x[0] - .3, 2*x[1] + .1]); F = lambda x: np.diag([1., 2.])
        for a in np.arange(0, 6.2, .37):
            x0 = np.array([np.cos(a), np.sin(a)])
            def traj(x, p, t):
                q = p - x*(x @ p); s = np.linalg.norm(q)
                return x if s == 0 else np.cos(t*s)*x + np.sin(t*s)*q/s
            sol = lambda J, r: ((lambda T: T @ np.linalg.lstsq(J @ T, -r, rcond=None)[0])(cur()), np.ones(1))
            state = {'x': x0}
            def cur(): x = state['x']; return np.array([[-x[1]], [x[0]]])
            def FF(x): state['x'] = x; return F(x)
            st, o = R.attempt(gauss_newton, f, FF, x0.copy(), trajectory=traj, gnsolver=sol)
            if R.check(st == 'ok', 'gn-circle', str(o)):
                R.check(abs(np.linalg.norm(o[0]) - 1) < 1e-9 and np.linalg.norm(f(o[0])) <= np.linalg.norm(f(x0)), 'gn-circle-value', str(o))
                th = np.linspace(0, 2*np.pi, 2001); gr = f(o[0]) @ F(o[0]) @ np.array([-o[0][1], o[0][0]])
                R.check(abs(gr) < 1e-4, 'gn-circle-stationary', 'from angle %g: tangential gradient %g' % (a, gr))
        return
    if kind == 'slp':
        _, name, norm, dname, bd, tier = payload
        n, f, J, lin = slp_problems()[name]
        dmk, viol = {d[0]: (d[1], d[2]) for d in domains(n)}[dname]
        starts = [np.zeros(n), .15*np.ones(n)] + [np.array(v) for v in itertools.product([-.4, .2], repeat=n)][1:(None if deep else 3)]
        for x0 in starts:
            f0 = f(x0); kw = {}
            if bd == 'lo': kw['obj_lb'] = np.minimum(f0 - .1, -.2)
            if bd == 'up': kw['obj_ub'] = np.maximum(f0 + .1, .2)
            if dmk: kw['domain'] = dmk()
            ref = None; prev = None
            for maxiter, verbose in ((100, False), (100, True), (0, False), (1, False), (1, True), (2, False)):
                xs = x0.copy()
                msg = 'slp %s norm=%s %s %s from %s maxiter=%d verbose=%s' % (name, norm, dname, bd, x0, maxiter, verbose)
                st, x = R.attempt(sequential_lp, f, xs, J, norm=norm, maxiter=maxiter, verbose=verbose, **kw)
                if not R.check(st == 'ok', 'slp-raise', '%s: %s' % (msg, x)): continue
                R.check(np.array_equal(xs, x0), 'slp-mutates', msg)
                if not R.check(np.shape(x) == (n,) and np.all(np.isfinite(x)), 'slp-shape', msg): continue
                o0, o1 = obj(f0, norm), obj(f(x), norm)
                R.check(o1 <= o0, 'slp-increase', '%s: %g -> %g' % (msg, o0, o1))
                R.check(viol(x) <= 1e-4, 'slp-domain', '%s: leaves the domain by %g' % (msg, viol(x)))
                if bd == 'lo': R.check((kw['obj_lb'] - f(x)).max() <= 1e-6, 'slp-lo', msg)
                if bd == 'up': R.check((f(x) - kw['obj_ub']).max() <= 1e-6, 'slp-up', msg)
                if maxiter == 0: R.check(np.array_equal(x, x0), 'slp-zero', msg)
                if maxiter == 100:
                    if ref is None: ref = x
                    else: R.check(np.array_equal(x, ref), 'slp-verbose', '%s: verbose changes the answer' % msg)
                    if lin:
                        B, c = J(x0), -f(np.zeros(n))
                        opt = convex_opt(B, c, norm, dname, n, kw.get('obj_lb'), kw.get('obj_ub'))
                        if norm == 2 and dname == 'none' and not bd: opt = np.linalg.norm(B @ np.linalg.lstsq(B, c, rcond=None)[0] - c)
                        if opt is not None: R.check(o1 <= opt + 1e-6*(1 + opt), 'slp-optimal', '%s: %g, optimal %g' % (msg, o1, opt))
                    # no first-order descent direction left (convex model around x cannot be improved)
                    elif not bd and o1 < o0 - 1e-6:
                        p = np.array(list(itertools.product([-1, 0, 1], repeat=n)), dtype=float)
                        for q in p:
                            y = x + 1e-3*q
                            if viol(y) <= 0: R.check(obj(f(y), norm) >= o1 - 1e-5*(1 + o1), 'slp-stationary', '%s: %s is worse than %s (%g, %g)' % (msg, x, y, o1, obj(f(y), norm)))
                R.state((name, norm, dname, bd, x0, maxiter, np.round(x, 4)))
            # lists of functions are the same problem
            if dname in ('none', 'box') and not bd:
                fl = [lambda u, i=i: f(u)[i] for i in range(len(f0))]; Jl = [lambda u, i=i: J(u)[i] for i in range(len(f0))]
                st, x = R.attempt(sequential_lp, fl, x0.copy(), Jl, norm=norm, **kw)
                if R.check(st == 'ok', 'slp-list', str(x)) and ref is not None: R.check(abs(obj(f(x), norm) - obj(f(ref), norm)) < 1e-6, 'slp-list-value', str((name, norm, dname, x, ref)))
                st, x = R.attempt(sequential_lp, f, x0.tolist(), J, norm=norm, **kw)
                R.check(st == 'ok' and (ref is None or np.allclose(x, ref, atol=1e-6)), 'slp-start-list', '%s' % (x,))
                st, x = R.attempt(sequential_lp, f, x0.copy(), J, norm=norm, trajectory=lambda a, b, t: a + t*b, search_constraints=lambda a, b: [], **kw)
                R.check(st == 'ok' and (ref is None or np.allclose(x, ref, atol=1e-9)), 'slp-options', '%s' % (x,))
                # search constraint: first coordinate frozen
                st, x = R.attempt(sequential_lp, f, x0.copy(), J, norm=norm, search_constraints=lambda a, b: [b[0] == 0], **kw)
                R.check(st == 'ok' and abs(x[0] - x0[0]) < 1e-6 and obj(f(x), norm) <= obj(f0, norm), 'slp-frozen', '%s' % (x,))
        return
    if kind == 'slpnone':
        # scalar objectives (norm=None)
        probs = {'lin': (2, lambda x: x[0] + 2*x[1], lambda x: np.array([1., 2.])),
                 'quad': (2, lambda x: (x[0] - .2)**2 + 2*(x[1] + .1)**2, lambda x: np.array([2*(x[0] - .2), 4*(x[1] + .1)])),
                 'rosen': (2, lambda x: 4*(x[1] - x[0]**2)**2 + (1 - x[0])**2, lambda x: np.array([-16*x[0]*(x[1] - x[0]**2) - 2*(1 - x[0]), 8*(x[1] - x[0]**2)]))}
        for name, (n, f, g) in probs.items():
            for dname, dmk, viol in domains(n)[1:]:
                best = min(f(v) for v in itertools.product(np.linspace(-1, 1, 201), repeat=2) if viol(np.array(v)) <= 0)
                for x0 in (np.zeros(2), np.array([.2, .2]), np.array([-.4, .1])):
                    ref = None
                    for verbose in (False, True):
                        st, x = R.attempt(sequential_lp, f, x0.copy(), g, norm=None, domain=dmk(), verbose=verbose)
                        msg = 'scalar %s on %s from %s verbose=%s' % (name, dname, x0, verbose)
                        if not R.check(st == 'ok', 'slp-raise', '%s: %s' % (msg, x)): continue
                        R.check(f(x) <= f(x0) and viol(x) < 1e-6, 'slp-scalar', '%s -> %s' % (msg, x))
                        if ref is not None: R.check(np.array_equal(ref, x), 'slp-verbose', msg)
                        ref = x
                        tol = 1e-6 if name == 'lin' else 2e-3
                        R.check(f(x) <= best + tol, 'slp-scalar-optimal', '%s: %s value %g, grid %g' % (msg, x, f(x), best))
                        R.state((name, dname, x0, np.round(x, 4)))
        return
    if kind == 'slpcon':
        # additional constraints (affine and convex), feasible starts
        f = lambda x: x - np.array([2., 1.]); J = lambda x: np.eye(2)
        cons = {'aff': (lambda x: x[0] + x[1], lambda x: np.array([1., 1.]), -np.inf, 1.),
                'band': (lambda x: x[0] - x[1], lambda x: np.array([1., -1.]), -.5, .5),
                'ball': (lambda x: x[0]**2 + x[1]**2, lambda x: 2*np.asarray(x), -np.inf, 1.),
                'hyper': (lambda x: x[1] - x[0]**2, lambda x: np.array([-2*x[0], 1.]), -.5, np.inf)}
        for norm in (payload[1],):
            for k in (1, 2):
                for comb in itertools.combinations(cons, k):
                    if not set(comb) & {'ball', 'hyper'}:
                        best = min(obj(f(np.array(v)), norm) for v in itertools.product(np.linspace(-1, 2, 121), repeat=2) if all(cons[c][2] <= cons[c][0](v) <= cons[c][3] for c in comb))
                    for x0 in (np.zeros(2), np.array([.3, .2]), np.array([-.5, -.1])):
                        ref = None
                        for verbose in (False, True):
                            st, x = R.attempt(sequential_lp, f, x0.copy(), J, norm=norm, constraints=[cons[c][0] for c in comb], constraint_grads=[cons[c][1] for c in comb],
                                              constraints_lb=[cons[c][2] for c in comb], constraints_ub=[cons[c][3] for c in comb], verbose=verbose, maxiter=8 if set(comb) & {'ball', 'hyper'} else 100)
                            msg = 'constraints %s norm %s from %s verbose=%s' % (comb, norm, x0, verbose)
                            if not R.check(st == 'ok', 'slpcon-raise', '%s: %s' % (msg, x)): continue
                            R.check(obj(f(x), norm) <= obj(f(x0), norm), 'slpcon-increase', msg)
                            for c in comb:
                                v = cons[c][0](x)
                                R.check(cons[c][2] - 1e-5 <= v <= cons[c][3] + 1e-5, 'slpcon-infeasible', '%s: %s gives %s = %g not in [%g,%g]' % (msg, x, c, v, cons[c][2], cons[c][3]))
                            if ref is not None: R.check(np.array_equal(ref, x), 'slp-verbose', msg)
                            ref = x
                            if not set(comb) & {'ball', 'hyper'}:
                                R.check(obj(f(x), norm) <= best + 1e-6, 'slpcon-optimal', '%s: %s %g, grid %g' % (msg, x, obj(f(x), norm), best))
                            R.state((norm, comb, x0, np.round(x, 4)))
        st, x = R.attempt(sequential_lp, f, np.zeros(2), J, constraints=[lambda x: x[0]])
        R.check(st == 'raise', 'slpcon-mismatch', 'constraint without gradient accepted')
        st, x = R.attempt(sequential_lp, f, np.zeros(2), J, norm=3)
        R.check(st == 'raise', 'slp-norm', 'norm 3 accepted')
        return
    if kind == 'slprand':
        # affine residuals over lattices of scales with bounds or constraints active at the optimum
        for k in range(12 if not deep else 60):
            rs = np.random.RandomState(k)
            n, sc = 3, 10.**(k % 6 - 2)
            A = rs.randint(-3, 4, (8, n))*sc; b = A @ rs.randint(-3, 4, n) + rs.randint(-20, 21, 8)
            f = lambda x: A @ x - b; J = lambda x: A
            C = rs.randint(-2, 3, (2, n)); z = np.zeros(n); f0 = f(z)
            for norm in (1, 2, np.inf):
                for w in ('lb', 'ub', 'con'):
                    p = cp.Variable(n)
                    if w == 'lb': kw = dict(obj_lb=np.minimum(f0, 0)); con = [A @ p - b >= kw['obj_lb']]
                    elif w == 'ub': kw = dict(obj_ub=np.maximum(f0, 0)); con = [A @ p - b <= kw['obj_ub']]
                    else:
                        kw = dict(constraints=[lambda x, i=i: C[i] @ x for i in range(2)], constraint_grads=[lambda x, i=i: C[i] for i in range(2)], constraints_ub=[.1, .2])
                        con = [C @ p <= np.array([.1, .2])]
                    st, x = R.attempt(sequential_lp, f, z.copy(), J, norm=norm, **kw)
                    msg = 'affine problem %d norm %s %s' % (k, norm, w)
                    if not R.check(st == 'ok', 'slp-raise', '%s: %s' % (msg, x)): continue
                    pr = cp.Problem(cp.Minimize(cp.norm(A @ p - b, norm)), con)
                    try: pr.solve(solver='ECOS')
                    except cp.error.SolverError: continue
                    if pr.status != 'optimal': continue
                    o = obj(f(x), norm); tol = 1e-6*max(1, abs(f0).max())
                    R.check(o <= pr.value + 1e-5*(abs(pr.value) + abs(f0).max()), 'slp-bounded-optimal', '%s: stops at %g, optimal %g' % (msg, o, pr.value))
                    if w == 'lb': R.check((kw['obj_lb'] - f(x)).max() <= tol, 'slp-lo', msg)
                    if w == 'ub': R.check((f(x) - kw['obj_ub']).max() <= tol, 'slp-up', msg)
                    if w == 'con': R.check((C @ x - np.array([.1, .2])).max() <= 1e-5, 'slpcon-infeasible', msg)
                    R.state((k, norm, w, np.round(x, 3)))
        return
    if kind == 'mm':
        _, name, dname, tr, tier = payload
        fam = mm_problems()[name]; n = fam.n
        dmk, viol = {d[0]: (d[1], d[2]) for d in domains(n)}[dname]
        starts = [np.zeros(n), .15*np.ones(n)] + [np.array(v) for v in itertools.product([-.4, .2], repeat=n)][1:(None if deep else 3)]
        # reference optimum
        ax = np.linspace(-3, 3, 601) if n == 1 else np.linspace(-2.5, 2.5, 251)
        G = np.array(list(itertools.product(ax, repeat=n)))
        if dmk: G = G[[viol(v) <= 0 for v in G]]
        if name == 'affine' or name == 'abs1':
            z = np.zeros(n); B = fam.grad(z); c = fam.eval(z)
            A = [np.hstack([B, -np.ones((len(B), 1))])]; b = [-c]; bounds = [(None, None)]*(n + 1)
            if dname == 'box': bounds = [(-.5, .75)]*n + [(None, None)]
            if dname == 'poly': bounds = [(-1, 1)]*n + [(None, None)]; A.append(np.hstack([np.ones((1, n)), [[0.]]])); b.append([.5])
            r = linprog(np.hstack([np.zeros(n), [1.]]), A_ub=np.vstack(A), b_ub=np.hstack(b), bounds=bounds)
            opt = r.fun if r.status == 0 and dname != 'ball' else min(fam.eval(v).max() for v in G)
        else: opt = min(fam.eval(v).max() for v in G)
        for x0 in starts:
            ref = None
            for maxiter, verbose in ((100, False), (100, True), (0, False), (1, False), (3, True)):
                xs = x0.copy(); kw = {'domain': dmk()} if dmk else {}
                msg = 'minimax %s on %s trust=%s from %s maxiter=%d verbose=%s' % (name, dname, tr, x0, maxiter, verbose)
                st, x = R.attempt(minimax, fam, xs, trust_region=tr, maxiter=maxiter, verbose=verbose, **kw)
                if not R.check(st == 'ok', 'mm-raise', '%s: %s' % (msg, x)): continue
                R.check(np.array_equal(xs, x0), 'mm-mutates', msg)
                if not R.check(np.shape(x) == (n,) and np.all(np.isfinite(x)), 'mm-shape', msg): continue
                R.check(fam.eval(x).max() <= fam.eval(x0).max(), 'mm-increase', '%s -> %s' % (msg, x))
                R.check(viol(x) <= 1e-6, 'mm-domain', '%s: leaves by %g' % (msg, viol(x)))
                if maxiter == 0: R.check(np.array_equal(x, x0), 'mm-zero', msg)
                if maxiter == 100:
                    if ref is not None: R.check(np.array_equal(x, ref), 'mm-verbose', msg)
                    ref = x
                    if tr or name in ('affine', 'abs1'): R.check(fam.eval(x).max() <= opt + 2e-4*(1 + abs(opt)), 'mm-optimal', '%s: %s value %g, optimal %g' % (msg, x, fam.eval(x).max(), opt))
                R.state((name, dname, tr, x0, maxiter, np.round(x, 4)))
            st, x = R.attempt(minimax, fam, x0.tolist(), trust_region=tr, **kw)
            R.check(st == 'ok' and ref is not None and np.allclose(x, ref, atol=1e-8), 'mm-start-list', '%s' % (x,))
            st, x = R.attempt(minimax, fam, x0.copy(), trust_region=tr, search_constraints=lambda a, p: [p[0] == 0], **kw)
            if n > 1 or True: R.check(st == 'ok' and abs(x[0] - x0[0]) < 1e-6, 'mm-frozen', '%s %s' % (payload, x))
        if dmk:
            st, x = R.attempt(minimax, fam, 5*np.ones(n), domain=dmk())
            R.check(st == 'raise', 'mm-outside', 'start outside the domain accepted')
