"""F02: the demonstration problems"""
import itertools, os, re, shutil, subprocess, tempfile
import numpy as np
import psdr
import psdr.demos as demos
from psdr import BoxDomain

PID = 'F02'
BOUND = """Every demonstration problem that needs no external program: all corners and the 3-level (thorough: 4-level) lattice of the application box,
 8 families of polynomials with every coefficient in {-1,0,2} in dimension 1..2 (3 in part), every batching of a sample of points; called through the
 module function, the Function on normalized coordinates, single points, reversed batches, non-vectorized and asynchronously.  Problems that call an external
 program: every option, with the process launch replaced by a stand-in that answers from the input file it was given.
 Oracle: published formulas written out independently; derivatives by the complex step."""
ASSUMPTIONS = ['the gradient of the robot arm is only compared where the distance exceeds 1e-3']


def borehole(rw, r, Tu, Hu, Tl, Hl, L, Kw):
    ln = np.log(r/rw)
    return [2*np.pi*Tu*(Hu - Hl)/(ln*(1 + 2*L*Tu/(ln*rw**2*Kw) + Tu/Tl))]


def golinski(b, m, l1, l2, d1, d2):
    z = 17.
    return [.7854*b*m**2*(3.3333*z**2 + 14.9334*z - 43.0934) - 1.5079*b*(d1**2 + d2**2) + 7.477*(d1**3 + d2**3) + .7854*(l1*d1**2 + l2*d2**2),
            27/(b*m**2*z) - 1, 397.5/(b*m**2*z**2) - 1, 1.93*l1**3/(m*z*d1**4) - 1, 1.93*l2**3/(m*z*d2**4) - 1,
            np.sqrt((745*l1/(m*z))**2 + 16.9e6)/(110*d1**3) - 1, np.sqrt((745*l2/(m*z))**2 + 157.5e6)/(85*d2**3) - 1,
            m*z/40 - 1, 5*m/b - 1, b/(12*m) - 1, (1.5*d1 + 1.9)/l1 - 1, (1.1*d2 + 1.9)/l2 - 1]


def hartmann(mu, dp, eta, B0):
    ha = B0/np.sqrt(eta*mu)
    return [-dp*eta/B0**2*(1 - ha/np.tanh(ha)), dp/(2*B0)*(1 - 2/ha*np.tanh(ha/2))]


def otl(Rb1, Rb2, Rf, Rc1, Rc2, beta):
    q = beta*(Rc2 + 9)
    return [(12*Rb2/(Rb1 + Rb2) + .74)*q/(q + Rf) + 11.35*Rf/(q + Rf) + .74*Rf*q/((q + Rf)*Rc1)]


def piston(M, S, V0, k, P0, Ta, T0):
    A = P0*S + 19.62*M - k*V0/S
    V = S/(2*k)*(np.sqrt(A**2 + 4*k*P0*V0/T0*Ta) - A)
    return [2*np.pi*np.sqrt(M/(k + S**2*P0*V0/T0*Ta/V**2))]


def robot(a, b, c, d, L1, L2, L3, L4):
    ang = (a, a + b, a + b + c, a + b + c + d); L = (L1, L2, L3, L4)
    return [np.sqrt(sum(l*np.cos(t) for l, t in zip(L, ang))**2 + sum(l*np.sin(t) for l, t in zip(L, ang))**2)]


def wing(Sw, Wfw, A, Lam, q, lam, tc, Nz, Wdg, Wp):
    c = np.cos(Lam*np.pi/180)
    return [.036*Sw**.758*Wfw**.0035*(A/c**2)**.6*q**.006*lam**.04*(100*tc/c)**-.3*(Nz*Wdg)**.49 + Sw*Wp]


def beam(b, h, F=5e3, L=1.5, E=216.62e9, nu=.27, G=86.65e9):
    IT = (b**3*h + b*h**3)/12; IZ = b**3*h/12; IY = b*h**3/12
    return [b*h, 6*F*L/(b*h**2), F*L**3/(3*E*IY), 6*F*L/(b*h**2), 3*F/(2*b*h), h/b, 4/L**2*np.sqrt(G*IT*E*IZ/(1 - nu))]


PI2 = 2*np.pi
DEMOS = {
 'borehole': (lambda **k: demos.Borehole(**k), borehole, [.05, 100, 63070, 990, 63.1, 700, 1120, 9855], [.15, 50e3, 115600, 1110, 116, 820, 1680, 12045], 8, True),
 'golinski': (lambda **k: demos.GolinskiGearbox(**k), golinski, [2.6, .7, 7.3, 7.3, 2.9, 5.], [3.6, .8, 8.3, 8.3, 3.9, 5.5], 6, True),
 'hartmann': (lambda: demos.HartmannMHD(), hartmann, [.05, .5, .5, .1], [.2, 3, 3, 1], 4, False),
 'otl': (lambda **k: demos.OTLCircuit(**k), otl, [50, 25, .5, 1.2, .25, 50], [150, 70, 3, 2.5, 1.2, 300], 6, True),
 'piston': (lambda **k: demos.Piston(**k), piston, [30, .005, .002, 1000, 90e3, 290, 340], [60, .02, .01, 5000, 110e3, 296, 360], 7, True),
 'robot': (lambda **k: demos.RobotArm(**k), robot, [0]*8, [PI2]*4 + [1]*4, 8, True),
 'wing': (lambda: demos.WingWeight(), wing, [150, 220, 6, -10, 16, .5, .08, 2.5, 1700, .025], [200, 300, 10, 10, 45, 1, .18, 6, 2500, .08], 10, False),
 'beam': (lambda: demos.NowackiBeam(), beam, [.005, .02], [.05, .25], 2, False),
}
# the functions a user can call with application coordinates
APP = {'borehole': (('borehole', 0),), 'golinski': tuple(('golinski_' + n, i) for i, n in enumerate(['volume'] + ['constraint%d' % k for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 24, 25)])),
       'otl': (('otl_circuit', 0),), 'piston': (('piston', 0),), 'robot': (('robot_arm', 0),), 'wing': (('wing_weight', 0),)}
GRAD = {'borehole': 'borehole_grad', 'otl': 'otl_circuit_grad', 'wing': 'wing_weight_grad'}


def value(form, X, **kw): return np.array(form(*np.asarray(X).T, **kw)).T


def deriv(form, X, **kw):
    out = []
    for i in range(X.shape[1]):
        Z = X.astype(complex); h = 1e-30*max(1., np.abs(X[:, i]).max()); Z[:, i] += 1j*h
        out.append(value(form, Z, **kw).imag/h)
    return np.moveaxis(np.array(out), 0, -1)


class Client(object):
    def __init__(self): self.tasks = []
    def submit(self, fn, *a, **k): self.tasks.append((fn, a, k)); return len(self.tasks) - 1


def cases(tier):
    out = [('demo/' + d, ('demo', d, tier)) for d in sorted(DEMOS)] + [('known', ('known', tier)), ('uncertain', ('uncertain', tier)), ('interface', ('interface', tier))]
    out += [('affine', ('affine', tier))] + [('quadratic/%d/%d' % (m, k), ('quad', m, k, tier)) for m in (1, 2, 3) for k in range(4)]
    return out


def same(R, sig, got, want, lo, hi, msg, f=None, rtol=1e-8):
    """values, or gradients when f is given (tolerance scaled by the variation of the function across the box)"""
    got, want = np.asarray(got, float), np.asarray(want, float)
    if not R.check(got.shape == want.shape, sig + '-shape', '%s: shape %s, not %s' % (msg, got.shape, want.shape)): return
    tol = rtol*(1e-6*np.abs(want).max() + np.abs(want)) if f is None else rtol*(np.abs(want) + np.abs(f)[..., None]/(hi - lo) + 1e-6)
    bad = ~(np.abs(got - want) <= tol)
    i = tuple(np.argwhere(bad)[0]) if bad.any() else None
    R.check(i is None, sig, '%s: %s, not %s at %s' % (msg, i and got[i], i and want[i], i))


def run(payload, R):
    kind = payload[0]; deep = payload[-1] == 'thorough'
    if kind == 'demo':
        d = payload[1]; make, form, lo, hi, m, asyn = DEMOS[d]; lo, hi = np.array(lo, float), np.array(hi, float)
        st, fun = R.attempt(make)
        if not R.check(st == 'ok', 'construct', '%s: %s' % (d, fun)): return
        dom = fun.domain_app
        R.check(len(dom) == m and np.allclose(dom.norm_lb, lo, rtol=1e-12) and np.allclose(dom.norm_ub, hi, rtol=1e-12), 'domain', '%s: bounds %s %s' % (d, dom.norm_lb, dom.norm_ub))
        R.check(len(dom.names) == m and len(set(dom.names)) == m and all(isinstance(s, str) and s for s in dom.names), 'names', '%s: %s' % (d, dom.names))
        R.check(np.allclose(fun.domain.norm_lb, -1) and np.allclose(fun.domain.norm_ub, 1), 'normalized-domain', d)
        R.check(isinstance(str(fun), str) and str(fun) != '', 'str', d)
        lev = (0, .3, 1) if not deep or m >= 10 else (0, .3, .55, 1) if m > 4 else (0, .15, .3, .45, .6, .75, .9, 1)
        T = np.array(list(itertools.product(lev, repeat=m))); X = lo + T*(hi - lo); Z = 2*T - 1
        F = value(form, X); k = F.shape[1]
        ok = F[:, 0] > 1e-3 if d == 'robot' else np.ones(len(X), bool)
        st, v = R.attempt(fun, Z)
        if R.check(st == 'ok', 'value-raise', '%s: %s' % (d, v)): same(R, 'value', v, F, lo, hi, d, rtol=1e-9)
        D = deriv(form, X[ok]); Fk = F[ok]
        Dn = D*(hi - lo)/2
        gs = (lambda a: a[:, 0]) if k == 1 else (lambda a: a)
        st, g = R.attempt(fun.grad, Z[ok])
        if R.check(st == 'ok', 'grad-raise', '%s: %s' % (d, g)): same(R, 'grad', g, gs(Dn), -1*np.ones(m), np.ones(m), d, f=gs(Fk), rtol=1e-7)
        st, v = R.attempt(fun, Z[ok], return_grad=True)
        if R.check(st == 'ok', 'grad-raise', '%s: %s' % (d, v)): same(R, 'value', v[0], Fk, lo, hi, d, rtol=1e-9); same(R, 'grad', v[1], gs(Dn), -1*np.ones(m), np.ones(m), d, f=gs(Fk), rtol=1e-7)
        R.step(3*len(X))
        for name, j in APP.get(d, ()):
            f = getattr(demos, name)
            st, v = R.attempt(f, X.copy())
            if R.check(st == 'ok', 'value-raise', '%s: %s' % (name, v)): same(R, 'value', v, F[:, j], lo, hi, name, rtol=1e-9)
        if d in GRAD:
            X0 = X[ok].copy(); st, v = R.attempt(getattr(demos, GRAD[d]), X0)
            if R.check(st == 'ok', 'grad-raise', '%s: %s' % (GRAD[d], v)): same(R, 'grad', v, D[:, 0], lo, hi, GRAD[d], f=Fk[:, 0], rtol=1e-7)
            R.check(np.array_equal(X0, X[ok]), 'mutates', GRAD[d])
        # every way of cutting a sample of points into calls
        sel = np.flatnonzero(ok)[np.linspace(0, ok.sum() - 1, 64 if not deep else 256).astype(int)]
        rows = [np.flatnonzero(np.flatnonzero(ok) == i)[0] for i in sel]
        flat = demos.__dict__; non = make(); non.vectorized = False
        for i, r in zip(sel, rows):
            for who, fn in (('', fun), ('not vectorized ', non)):
                st, v = R.attempt(fn, Z[i], return_grad=True)
                if R.check(st == 'ok', 'single-raise', '%s at %s: %s' % (d, X[i].tolist(), v)):
                    same(R, 'single', v[0], F[i], lo, hi, '%s%s at %s' % (who, d, X[i].tolist()), rtol=1e-9)
                    same(R, 'single-grad', v[1], Dn[r, 0] if k == 1 else Dn[r], -1*np.ones(m), np.ones(m), '%s%s at %s' % (who, d, X[i].tolist()), f=F[i, 0] if k == 1 else F[i], rtol=1e-7)
            for name, j in APP.get(d, ()):
                st, v = R.attempt(getattr(demos, name), X[i].copy())
                if R.check(st == 'ok', 'single-raise', '%s: %s' % (name, v)): same(R, 'single', np.ravel(v), F[i, j:j + 1], lo, hi, name, rtol=1e-9)
                if name == 'borehole':
                    st, v = R.attempt(demos.borehole, X[i].tolist()); R.check(st == 'ok' and np.allclose(v, F[i, 0]), 'array-like', '%s: %s' % (name, v))
            R.state((d, int(i)))
        for idx in (sel[::-1], sel[:1], sel[:2], np.r_[sel[3], sel[3]]):
            for who, fn in (('', fun), ('not vectorized ', non)):
                st, v = R.attempt(fn, Z[idx])
                if R.check(st == 'ok', 'batch-raise', '%s: %s' % (d, v)): same(R, 'batch', v, F[idx], lo, hi, '%s%s, batch of %d' % (who, d, len(idx)), rtol=1e-9)
        if asyn:
            cl = Client(); st, fa = R.attempt(make, dask_client=cl)
            if R.check(st == 'ok', 'async-construct', '%s: %s' % (d, fa)):
                st, v = R.attempt(fa.eval_async, Z[sel[:5]])
                R.check(st == 'ok' and len(cl.tasks) == 5, 'async-raise', '%s: %s' % (d, v))
                for (fn, a, kw), i in zip(cl.tasks, sel):
                    st, v = R.attempt(fn, *a, **kw)
                    if R.check(st == 'ok', 'async-run', '%s: %s' % (d, v)): same(R, 'async', np.concatenate([np.ravel(t) for t in v]), F[i], lo, hi, d, rtol=1e-9)
        if d == 'beam':
            for kw in ({'F': 7e3}, {'L': 2.}, {'E': 1e11, 'G': 5e10}, {'nu': .4}):
                st, v = R.attempt(fun, Z, **kw)
                if R.check(st == 'ok', 'beam-arguments', '%s: %s' % (kw, v)): same(R, 'beam-arguments', v, value(form, X, **kw), lo, hi, str(kw), rtol=1e-9)
                st, v = R.attempt(fun.grad, Z, **kw)
                if R.check(st == 'ok', 'beam-arguments', '%s: %s' % (kw, v)): same(R, 'beam-arguments', v, deriv(form, X, **kw)*(hi - lo)/2, -np.ones(2), np.ones(2), str(kw), f=value(form, X, **kw), rtol=1e-7)
        return
    if kind == 'known':
        # published reference values
        x = np.array([3.5, .7, 7.3, 7.71531991, 3.35021467, 5.28665446]); f = demos.GolinskiGearbox(); v = f(f.domain_app.normalize(x))
        R.check(abs(v[0] - 2994.3) < 1 and (v[1:] <= 1e-3).all(), 'published', 'speed reducer optimum: %s' % v)
        v = demos.otl_circuit(np.array([100, 47.5, 1.75, 1.85, .725, 175.])); R.check(abs(v[0] - 5.3) < .5, 'published', 'otl centre %s' % v)
        v = demos.borehole(np.array([.1, 25050, 89335, 1050, 89.55, 760, 1400, 10950.])); R.check(60 < v[0] < 90, 'published', 'borehole centre %s' % v)
        for th in itertools.product((0., np.pi/2, np.pi), repeat=4):
            p = np.zeros(2); t = 0.
            for a, L in zip(th, (1., .5, .25, .125)): t += a; p += L*np.array([np.cos(t), np.sin(t)])
            v = demos.robot_arm(np.array(list(th) + [1., .5, .25, .125])); R.check(abs(v[0] - np.linalg.norm(p)) < 1e-12, 'published', 'robot arm %s: %s' % (th, v)); R.state(th)
        return
    if kind == 'uncertain':
        st, f = R.attempt(demos.Borehole, domain='uncertain')
        if R.check(st == 'ok', 'construct', 'uncertain borehole: %s' % (f,)):
            dom = f.domain_app
            R.check(len(dom) == 8 and list(dom.names) == ['r_w', 'r', 'T_u', 'H_u', 'T_l', 'H_l', 'L', 'K_w'], 'uncertain-domain', '%s' % (dom.names,))
            lo, hi = map(np.array, DEMOS['borehole'][2:4])
            from scipy import stats
            for a, b in itertools.product(np.linspace(.06, .14, 9), (200., 1000, 2230, 8000, 30000)):
                x = (lo + hi)/2.; x[0] = a; x[1] = b
                want = stats.norm(.1, .0161812).pdf(a)*stats.lognorm(s=1.0056, scale=np.exp(7.71)).pdf(b)
                st, p = R.attempt(lambda: np.prod([np.asarray(q.pdf(t)).item() for q, t in zip(dom.domains, ([a], [b]))]))
                R.check(st == 'ok' and np.allclose(p, want, rtol=1e-8), 'uncertain-density', 'density %s, not %s at %s' % (p, want, x.tolist()))
                st, v = R.attempt(lambda: f(dom.normalize(x))); R.check(st == 'ok' and np.allclose(v, borehole(*x)), 'uncertain-value', '%s' % (v,)); R.state((a, b))
            for i in range(2, 8):
                for s, inside in ((lo[i] - 1e-3*(hi - lo)[i], False), (hi[i] + 1e-3*(hi - lo)[i], False), (hi[i], True), (lo[i], True)):
                    x = (lo + hi)/2.; x[0] = .1; x[i] = s; R.check(bool(np.all(dom.isinside(x))) == inside, 'uncertain-domain', 'isinside %s' % x.tolist())
        R.check(R.attempt(demos.Borehole, domain='other')[0] == 'raise', 'arguments', 'unknown domain accepted')
        for clip in (None, 1e-2, 1e-4):
            st, dom = R.attempt(demos.build_golinski_random_domain, clip=clip)
            if not R.check(st == 'ok', 'golinski-random', 'clip=%s: %s' % (clip, dom)): continue
            from scipy import stats
            sd = np.array([21, 1, 30, 30, 21, 30])*1e-4
            R.check(len(dom) == 6, 'golinski-random', 'dimension')
            for i, t in itertools.product(range(6), (-6., -4.5, -3.5, -3, -2, -.5, .5, 2, 3, 3.5, 4.5, 6)):
                x = np.zeros(6); x[i] = t*sd[i]
                inside = clip is None or 2*stats.norm.sf(abs(t)) > clip
                if clip is not None and abs(2*stats.norm.sf(abs(t))/clip - 1) < .5: continue
                st, v = R.attempt(dom.isinside, x)
                R.check(st == 'ok' and bool(v) == inside, 'golinski-random', 'clip=%s: %s standard deviations inside: %s' % (clip, t, v)); R.state((clip, i, t))
        return
    if kind == 'affine':
        doms = {'none': None, 'box': lambda m: BoxDomain(np.zeros(m), 1. + np.arange(m)), 'ineq': lambda m: psdr.LinIneqDomain(A=np.ones((1, m)), b=[m/2.], lb=-np.ones(m), ub=np.ones(m))}
        for m in (1, 2, 3):
            for lin, con, dn in itertools.product(list(itertools.product((-1, 0, 2.5), repeat=m)) + [None], (None, 0, -1.5, 3), sorted(doms)):
                dom = doms[dn] and doms[dn](m)
                if lin is None and dn == 'none': continue
                for form in (list, np.array, lambda a: np.array(a).reshape(-1, 1)):
                    np.random.seed(0)
                    st, f = R.attempt(demos.AffineFunction, linear=None if lin is None else form(lin), constant=con, domain=dom)
                    msg = 'linear %s constant %s domain %s' % (lin, con, dn)
                    if not R.check(st == 'ok', 'construct', '%s: %s' % (msg, f)): continue
                    L = np.array(lin if lin is not None else f.linear, float); c = con or 0.
                    if not R.check(L.shape == (m,) and len(f.domain) == m, 'construct', msg): continue
                    poly(R, f, lambda x: L @ x + c, lambda x: L, m, msg)
                    if lin is None: break
        st, f = R.attempt(demos.AffineFunction); R.check(st == 'ok' and len(f.domain) == 5, 'construct', 'default: %s' % (f,))
        return
    if kind == 'quad':
        m, part = payload[1:3]
        vals = (-1, 0, 2.5) if m < 3 else (0, 1)
        mats = list(itertools.product(vals, repeat=m*m)) if m < 3 or deep else [tuple(v) for v in itertools.product((0, 1), repeat=9)][::3]
        for n, q in enumerate(mats + [None]):
            if n % 4 != part: continue
            for lin, con in itertools.product((None, [1.5 - i for i in range(m)]), (None, 0, -2)):
                dom = None if n % 2 else BoxDomain(-np.arange(1., m + 1), 2*np.ones(m))
                if q is None and lin is None and dom is None: continue
                quad = None if q is None else np.array(q, float).reshape(m, m)
                st, f = R.attempt(demos.QuadraticFunction, quad=quad, linear=lin, constant=con, domain=dom)
                msg = 'quad %s linear %s constant %s' % (q, lin, con)
                if not R.check(st == 'ok', 'construct', '%s: %s' % (msg, f)): continue
                Q = np.eye(m) if quad is None else quad; L = np.zeros(m) if lin is None else np.array(lin); c = con or 0.
                poly(R, f, lambda x: x @ Q @ x + L @ x + c, lambda x: (Q + Q.T) @ x + L, m, msg)
        if m == 1 and part == 0:
            st, f = R.attempt(demos.QuadraticFunction); R.check(st == 'ok' and len(f.domain) == 5, 'construct', 'default: %s' % (f,))
            st, f = R.attempt(demos.QuadraticFunction, domain=BoxDomain([0, 0], [1, 1])); R.check(st == 'ok' and len(f.domain) == 2, 'construct', 'domain only: %s' % (f,))
        return
    if kind == 'interface': interface(R, deep)


def poly(R, f, val, grad, m, msg):
    T = np.array(list(itertools.product((-1, -.25, .5, 1), repeat=m))) if m < 3 else np.array(list(itertools.product((-1, .5), repeat=m)))
    dom = f.domain_app; X = np.asarray(dom.unnormalize(T), float)
    J = np.array([np.asarray(dom.unnormalize(e), float) - np.asarray(dom.unnormalize(np.zeros(m)), float) for e in np.eye(m)]).T
    F = np.array([[val(x)] for x in X]); D = np.array([grad(x) @ J for x in X])
    st, v = R.attempt(f, T, return_grad=True)
    if R.check(st == 'ok', 'polynomial-raise', '%s: %s' % (msg, v)):
        if R.check(np.shape(v[0]) == F.shape and np.shape(v[1]) == D.shape, 'polynomial-shape', '%s: %s %s' % (msg, np.shape(v[0]), np.shape(v[1]))):
            R.close(v[0], F, 'polynomial', msg, rtol=1e-10, atol=1e-10); R.close(v[1], D, 'polynomial-grad', msg, rtol=1e-10, atol=1e-10)
    for t, fx, d in list(zip(T, F, D))[:3]:
        st, v = R.attempt(f, t, return_grad=True)
        if R.check(st == 'ok', 'polynomial-raise', '%s at one point: %s' % (msg, v)):
            if R.check(np.shape(v[0]) == (1,) and np.shape(v[1]) == (m,), 'polynomial-shape', '%s: %s %s' % (msg, np.shape(v[0]), np.shape(v[1]))):
                R.close(v[0], fx, 'polynomial', msg, rtol=1e-10, atol=1e-10); R.close(v[1], d, 'polynomial-grad', msg, rtol=1e-10, atol=1e-10)
    R.state(msg)


class Process(object):
    """stands in for the external program: records the command and answers from the input file, nothing is launched"""
    log = []

    def __init__(self, args, **kw):
        self.args = list(args); self.returncode = None
        src = [re.search(r"source=[\"']?([^,\"']+)", a).group(1) for a in args if 'source=' in a][0]
        Process.log.append((self.args, src))
        f = [n for n in os.listdir(src) if n.endswith('.input') or n.endswith('.in')]
        x = np.loadtxt(os.path.join(src, f[0])); self.x = x; Process.x = x
        Process.files = sorted(os.listdir(src))
        self.cfg = open(os.path.join(src, 'general-3d.cfg')).read() if 'general-3d.cfg' in Process.files else ''
        Process.cfg = self.cfg
        if f[0].endswith('.in'):
            with open(os.path.join(src, 'results.out'), 'w') as o: o.write('%.15e one\n%.15e two\n%.15e three\n' % (x.sum(), x[0], x[-1]))
        elif 'naca' in ' '.join(args):
            np.savetxt(os.path.join(src, 'my.output'), [x.sum(), (x**2).sum()])
            if '--adjoint' in args: np.savetxt(os.path.join(src, 'my_grad.output'), [np.ones(len(x)), 2*x])
        else:
            X = np.atleast_2d(x); assert X.shape[1] == 12, 'dimension'
            np.savetxt(os.path.join(src, 'my.output'), np.array([X.sum(axis=1), X[:, 0]]).T)
        self.stdout = self; self.n = 0

    def readline(self): self.n += 1; return b'line\n' if self.n == 1 else b''

    def poll(self):
        if self.n > 1: self.returncode = 0
        return self.returncode


def interface(R, deep):
    import warnings
    old = subprocess.Popen, subprocess.call, subprocess.run, tempfile.tempdir
    scratch = tempfile.mkdtemp(prefix='f02-')
    def refuse(*a, **k): raise AssertionError('launched a process')
    subprocess.Popen, subprocess.call, subprocess.run, tempfile.tempdir = Process, refuse, refuse, scratch
    import contextlib, io
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            # OpenAeroStruct
            st, f = R.attempt(demos.OpenAeroStruct)
            if R.check(st == 'ok', 'construct', 'OpenAeroStruct: %s' % (f,)):
                dom = f.domain_app; names = list(dom.names)
                R.check(len(dom) == 12 and len(names) == 12 and len(set(names)) == 12, 'interface-domain', 'oas: %s' % names)
                for n in (0, 1, 2, 3):
                    for s in (-1., 0., .5):
                        Z = s*np.ones((max(n, 1), 12)); Z[:, 0] *= np.linspace(.2, 1, len(Z)); A = Z[0] if n == 0 else Z
                        X = np.atleast_2d(dom.unnormalize(A)); want = np.array([X.sum(axis=1), X[:, 0]]).T
                        st, v = R.attempt(f, A)
                        if R.check(st == 'ok', 'interface-raise', 'oas, %d points: %s' % (n, v)): R.check(np.shape(v) == (want[0] if n == 0 else want).shape and np.allclose(v, want[0] if n == 0 else want, rtol=1e-12), 'interface-value', 'oas, %d points: %s, not %s' % (n, v, want.tolist()))
                        R.check(os.listdir(scratch) == [], 'interface-cleanup', 'oas left %s' % os.listdir(scratch)); R.state(('oas', n, s))
            for n in (1, 2, 3, 4):
                st, d = R.attempt(demos.oas.build_oas_design_domain, n)
                R.check(st == 'ok' and len(d) == 2*n + 2 and len(d.names) == 2*n + 2, 'interface-domain', 'oas with %d control points: %s' % (n, st == 'ok' and d.names or d))
            # NACA0012
            for nl, nu, fr in itertools.product((1, 3, 10), (2, 10), (.01, .2)):
                st, f = R.attempt(demos.NACA0012, n_lower=nl, n_upper=nu, fraction=fr)
                if not R.check(st == 'ok', 'construct', 'NACA0012: %s' % (f,)): continue
                dom = f.domain_app; R.check(len(dom) == nl + nu and np.allclose(dom.norm_lb, -fr) and np.allclose(dom.norm_ub, fr) and len(dom.names) == nl + nu, 'interface-domain', 'naca %s: %s %s' % ((nl, nu, fr), dom.norm_lb, dom.names))
                for n, rg, kw in itertools.product((0, 2), (False, True), ({}, {'maxiter': 7}, {'nprocesses': 3})):
                    Z = np.linspace(-1, 1, max(n, 1)*(nl + nu)).reshape(max(n, 1), -1); A = Z[0] if n == 0 else Z
                    X = dom.unnormalize(Z); Process.log = []
                    st, v = R.attempt(f, A, return_grad=rg, **kw)
                    msg = 'naca %s %d points, gradient %s, %s' % ((nl, nu, fr), n, rg, kw)
                    if not R.check(st == 'ok', 'interface-raise', '%s: %s' % (msg, v)): continue
                    fx = v[0] if rg else v; want = np.array([X.sum(axis=1), (X**2).sum(axis=1)]).T
                    R.check(np.allclose(fx, want[0] if n == 0 else want), 'interface-value', msg)
                    if rg:
                        g = np.array([[np.ones(nl + nu), 2*x] for x in X])*fr; R.check(np.shape(v[1]) == (g[0] if n == 0 else g).shape and np.allclose(v[1], g[0] if n == 0 else g), 'interface-grad', msg)
                    for a, src in Process.log:
                        a = ' '.join(a); R.check('--nlower %d ' % nl in a and '--nupper %d ' % nu in a and '--maxiter %d' % kw.get('maxiter', 1000) in a and '--nprocesses %d' % kw.get('nprocesses', 1) in a and ('--adjoint' in a) == rg, 'interface-options', '%s: %s' % (msg, a))
                    R.check(len(Process.log) == len(Z), 'interface-calls', '%s: %d' % (msg, len(Process.log)))
                    R.check(os.listdir(scratch) == [], 'interface-cleanup', msg); R.state(msg)
            # MULTI-F
            st, f = R.attempt(demos.MULTIF)
            if R.check(st == 'ok', 'construct', 'MULTIF: %s' % (f,)):
                dom = f.domain_app
                R.check(len(f.design_domain) == 96 and len(f.random_domain) == 40 and len(dom) == 136 and len(dom.names) == 136, 'interface-domain', 'multif: %d %d %d' % (len(f.design_domain), len(f.random_domain), len(dom)))
                Z = np.linspace(-.5, .5, 136).reshape(1, -1)
                for n, kw in itertools.product((0, 1), ({}, {'level': 3}, {'su2_maxiter': 9}, {'cores': 2})):
                    A = Z[0] if n == 0 else Z; x = np.asarray(dom.unnormalize(Z[0])); Process.log = []
                    st, v = R.attempt(f, A, **kw)
                    if not R.check(st == 'ok', 'interface-raise', 'multif %s: %s' % (kw, v)): continue
                    R.check(np.allclose(np.ravel(v), [x.sum(), x[0], x[-1]], rtol=1e-12), 'interface-value', 'multif %s' % kw)
                    a = ' '.join(Process.log[0][0]); R.check('-l %d' % kw.get('level', 0) in a and ('-c 2' in a) == ('cores' in kw) and ('SU2_MAX_ITERATIONS=9' in Process.cfg) == ('su2_maxiter' in kw), 'interface-options', 'multif %s: %s' % (kw, a))
                    R.check(os.listdir(scratch) == [], 'interface-cleanup', 'multif'); R.state(('multif', n, tuple(kw)))
                # constructor arguments are the defaults of every call
                for kw in ({'level': 2}, {'su2_maxiter': 11}):
                    st, g = R.attempt(demos.MULTIF, **kw)
                    if not R.check(st == 'ok', 'construct', 'MULTIF(%s): %s' % (kw, g)): continue
                    Process.log = []; st, v = R.attempt(g, Z)
                    a = ' '.join(Process.log[0][0]) if Process.log else ''
                    R.check(st == 'ok' and '-l %d' % kw.get('level', 0) in a and ('SU2_MAX_ITERATIONS=11' in Process.cfg) == ('su2_maxiter' in kw), 'interface-options', 'MULTIF(%s): %s %s' % (kw, v, a))
            for name, n in (('build_multif_domain', 136), ('build_multif_design_domain', 96), ('build_multif_random_domain', 40)):
                for kw in ({}, {'truncate': 1e-4}) if 'design' not in name else ({},):
                    st, d = R.attempt(getattr(demos, name), **kw)
                    R.check(st == 'ok' and len(d) == n, 'interface-domain', '%s(%s): %s' % (name, kw, d))
            # keeping the working directory
            for who, call, x in (('oas', lambda x, **k: demos.oas.oas_func(x, **k), np.ones((2, 12))), ('naca', lambda x, **k: demos.naca0012.naca0012_func(x, **k), np.ones(20)), ('multif', lambda x, **k: demos.multif(x, **k), np.ones(136))):
                for keep in (False, True):
                    w = os.path.join(scratch, 'kept'); st, v = R.attempt(call, x, workdir=w, keep_data=keep)
                    R.check(st == 'ok' and os.path.isdir(w) == keep, 'interface-keep', '%s keep_data=%s: %s, directory kept: %s' % (who, keep, v, os.path.isdir(w)))
                    shutil.rmtree(w, ignore_errors=True)
    finally:
        subprocess.Popen, subprocess.call, subprocess.run, tempfile.tempdir = old
        shutil.rmtree(scratch, ignore_errors=True)
