import itertools, math
import numpy as np
import psdr
from ..core import ScriptedRandom, scripted
from ..zoo import chi2_isf

PID = 'D09'
BOUND = """Alphabet: uniform boxes (m<=3), normal domains (m<=3, means x covariances x truncations {none,.01,.1,.5}), log-normal
 domains (means x covariances x offsets x scalings including negative x truncations), every spelling of the parameters.
 Checked on each: density at every lattice point in and around the support against the closed form of the stated distribution
 (built from math.exp/erfc and bisection), zero outside, nonnegative, shape (N,), batch = pointwise, integral over an exhaustive
 tensor grid = 1, bounds of truncated supports; samples for every scripted outcome of the normal/uniform draws are the affine
 (exponential) image of the standard ones and lie in the support; normalized domains carry the transformed density."""
ASSUMPTIONS = ['integrals use a midpoint lattice; compared to 2e-3 for smooth densities',
               'truncated covariance geometry: points within 1e-4 of the truncation boundary are not judged']
COV = {1: [[[4.]], [[.25]]], 2: [[[1, 0], [0, 1]], [[2, 1], [1, 2]], [[1, 0], [0, 9]]], 3: [[[2, 1, 0], [1, 2, 1], [0, 1, 3]]]}
MEAN = {1: [[0.], [1.5]], 2: [[0, 0], [3, -2]], 3: [[0, 0, 1]]}
TAU = (None, .01, .1, .5)


def cases(tier):
    out = []
    for m in (1, 2, 3):
        for (i, c), (j, mu), t in itertools.product(enumerate(COV[m]), enumerate(MEAN[m]), TAU):
            out.append(('normal/%d-%d-%d-%s' % (m, i, j, t), ('normal', m, i, j, t, tier)))
    for mu, c, o, b, t in itertools.product((0., .5), (1., .25), (0., 2., -1.), (1., 3., -2.), (None, .05, .3)):
        out.append(('lognormal/%g-%g-%g-%g-%s' % (mu, c, o, b, t), ('lognormal', mu, c, o, b, t, tier)))
    for k, (lb, ub) in enumerate([([0], [1]), ([-1], [3]), ([0, -3], [2, 1]), ([10, 0], [10.5, 100]), ([0, 0, -1], [1, 2, 3])]):
        out.append(('uniform/%d' % k, ('uniform', lb, ub, tier)))
    for b in (3., -2.):
        out.append(('measure/scaling%g' % b, ('measure', b, tier)))
    out.append(('spelling/all', ('spelling', tier)))
    return out


def lattice(lo, hi, n, pad=.3):
    ax = [np.linspace(l - pad*(h - l), h + pad*(h - l), n) for l, h in zip(lo, hi)]
    return np.array(list(itertools.product(*ax)))


def compare(R, dom, X, ref, near, msg):
    """dom.pdf against reference values; near = indices not judged"""
    p = dom.pdf(X)
    R.step()
    if not R.check(np.shape(p) == (len(X),), 'shape', '%s pdf shape %s for %d points' % (msg, np.shape(p), len(X))): return
    J = ~near
    R.close(p[J], ref[J], 'density', msg, rtol=1e-8, atol=1e-12)
    R.check(np.all(p >= 0), 'negative', msg)
    for k in range(0, len(X), max(1, len(X)//7)):
        if J[k]: R.close(dom.pdf(X[k]), [ref[k]], 'pointwise', msg, rtol=1e-8, atol=1e-12)
    for w in (2, 3, 4):
        for k in range(0, len(X) - w, max(1, len(X)//9)):
            I = np.arange(k, k + w); I[-1] = (5*k + 2) % len(X)
            q = dom.pdf(X[I])
            if R.check(np.shape(q) == (w,), 'shape', '%s pdf shape %s for %d points' % (msg, np.shape(q), w)): R.close(q[J[I]], ref[I][J[I]], 'batch-size', '%s at %s' % (msg, X[I].tolist()), rtol=1e-8, atol=1e-12)
    R.close(dom.pdf(X[::-1].tolist())[::-1][J], ref[J], 'order', msg, rtol=1e-8, atol=1e-12)
    R.state((msg, np.round(p, 6)))


def integral(R, dom, lo, hi, n, msg, tol=2e-3):
    w = [(h - l)/n for l, h in zip(lo, hi)]
    ax = [l + (np.arange(n) + .5)*wi for l, wi in zip(lo, w)]
    X = np.array(list(itertools.product(*ax)))
    R.step()
    R.close(np.sum(dom.pdf(X))*np.prod(w), 1., 'integral', msg, rtol=tol)


def nref(X, mu, C, t):
    m = len(mu)
    Ci = np.linalg.inv(C)
    d2 = np.einsum('ij,jk,ik->i', X - mu, Ci, X - mu)
    p = np.exp(-d2/2)/math.sqrt((2*math.pi)**m*np.linalg.det(C))
    near = np.zeros(len(X), dtype=bool)
    if t is not None:
        r = math.sqrt(chi2_isf(t, m))
        near = np.abs(np.sqrt(d2) - r) < 1e-4
        p = np.where(np.sqrt(d2) <= r, p/(1 - t), 0.)
    return p, near


def lref(x, mu, c, o, b, t):
    y = (x - o)/b
    with np.errstate(all='ignore'):
        p = np.where(y > 0, np.exp(-(np.log(np.where(y > 0, y, 1)) - mu)**2/(2*c))/(np.where(y > 0, y, 1)*math.sqrt(2*math.pi*c)), 0.)
    near = np.abs(y) < 1e-12
    if t is not None:
        r = math.sqrt(chi2_isf(t, 1)*c)
        lo, hi = math.exp(mu - r), math.exp(mu + r)
        near |= (np.abs(x - o - b*lo) < 1e-4*abs(b)*hi) | (np.abs(x - o - b*hi) < 1e-4*abs(b)*hi)
        p = np.where((y >= lo) & (y <= hi), p/(1 - t), 0.)
    return p, near


SCRIPTS = [(), (1,), (2,), (3,), (4,), (5,), (6,), (7,)]
BIGN = {'normal': ('gen', 'e0', '-e0', 'elast', 'ones', 'alt', 'tiny', 'big')}


def draw(dom, n, script):
    with scripted(ScriptedRandom(script, base=5, menus=BIGN)):
        return np.asarray(dom.sample(n)).reshape(n, len(dom))


def run(payload, R):
    kind = payload[0]
    if kind == 'normal':
        _, m, i, j, t, tier = payload
        mu, C = np.array(MEAN[m][j], dtype=float), np.array(COV[m][i], dtype=float)
        kw = {} if t is None else {'truncate': t}
        dom = psdr.NormalDomain(mu.copy(), C.copy(), **kw)
        msg = 'Normal(%s,%s,%s)' % (mu, C.tolist(), t)
        sd = np.sqrt(np.diag(C))
        r = 3.5 if t is None else math.sqrt(chi2_isf(t, m))
        X = lattice(mu - r*sd, mu + r*sd, {1: 41, 2: 15, 3: 9}[m])
        X = np.vstack([X, mu])
        ref, near = nref(X, mu, C, t)
        compare(R, dom, X, ref, near, msg)
        if t is None: integral(R, dom, mu - 6*sd, mu + 6*sd, {1: 400, 2: 80, 3: 40}[m], msg)
        else: integral(R, dom, mu - r*sd*1.001, mu + r*sd*1.001, {1: 2000, 2: 300, 3: 60}[m], msg, tol=1.5e-2)
        if t is not None:
            for k in range(m):
                e = np.eye(m)[k]
                R.close(dom.corner(e)[k], mu[k] + r*sd[k], 'support', msg, rtol=1e-5)
        # samples: affine image of the standard ones
        std = psdr.NormalDomain(np.zeros(m), np.eye(m), **kw)
        Z = []; S = []
        for sc in SCRIPTS:
            Z.append(draw(std, 4, sc)); S.append(draw(dom, 4, sc))
            R.step(2)
            R.check(t is None or np.all(np.sqrt(np.einsum('ij,jk,ik->i', S[-1] - mu, np.linalg.inv(C), S[-1] - mu)) <= r + 1e-5), 'sample-outside', '%s script %s' % (msg, sc))
        Z, S = np.vstack(Z), np.vstack(S)
        if R.check(np.all(np.isfinite(S)), 'sample-finite', msg):
            A = np.linalg.lstsq(np.hstack([Z, np.ones((len(Z), 1))]), S, rcond=None)[0]
            R.close(A[-1], mu, 'sample-mean', msg, atol=1e-8)
            R.close(A[:-1].T @ A[:-1], C, 'sample-cov', msg, atol=1e-8)
            R.close(Z @ A[:-1] + A[-1], S, 'sample-affine', msg, atol=1e-8)
        # normalized domain carries the transformed density
        if t is not None:
            nd = dom.normalized_domain()
            J = np.prod(np.diag(dom._unnormalize_der())) if hasattr(dom, '_unnormalize_der') else None
            Y = dom.normalize(X)
            jac = 1.
            for k in range(m):
                e = np.eye(m)[k]*1e-3
                jac *= (dom.unnormalize(e) - dom.unnormalize(-e))[k]/2e-3
            R.close(nd.pdf(Y)[~near], ref[~near]*jac, 'normalized-density', msg, rtol=1e-5, atol=1e-9)
    elif kind == 'lognormal':
        _, mu, c, o, b, t, tier = payload
        kw = {} if t is None else {'truncate': t}
        dom = psdr.LogNormalDomain(mu, c, offset=o, scaling=b, **kw)
        msg = 'LogNormal(%g,%g,%g,%g,%s)' % (mu, c, o, b, t)
        r = math.sqrt(chi2_isf(t, 1)*c) if t is not None else 3.5*math.sqrt(c)
        ends = sorted([o + b*math.exp(mu - r), o + b*math.exp(mu + r)])
        if t is None:
            ends = sorted([o, o + b*math.exp(mu + r)])
            R.close(np.hstack([dom.lb, dom.ub])[np.isfinite(np.hstack([dom.lb, dom.ub]))], [o], 'support', msg)
            R.check(np.isinf(dom.ub[0]) == (b > 0) and np.isinf(dom.lb[0]) == (b < 0), 'support-side', '%s %s %s' % (msg, dom.lb, dom.ub))
        else:
            R.close([dom.lb[0], dom.ub[0]], ends, 'support', msg, rtol=1e-5)
        X = np.vstack([lattice([ends[0]], [ends[1]], 61), [[o + b*math.exp(mu)], [o - .5*b], [o]]])
        ref, near = lref(X[:, 0], mu, c, o, b, t)
        compare(R, dom, X, ref, near, msg)
        # integral in the log variable on a geometric lattice
        R_ = r if t is not None else 8*math.sqrt(c)
        y = np.exp(np.linspace(mu - R_, mu + R_, 4001))
        mid = np.sqrt(y[1:]*y[:-1])
        R.close(np.sum(dom.pdf(o + b*mid.reshape(-1, 1))*np.diff(y)), 1., 'integral', msg, rtol=2e-3)
        R.check(np.array_equal(dom.isinside(X[~near]), ref[~near] > 0) or t is None, 'inside', msg)
        nrm = psdr.NormalDomain([mu], [[c]], **kw)
        for sc in SCRIPTS:
            for n in (1, 4):
                S, Y = draw(dom, n, sc), draw(nrm, n, sc)
                R.step(2)
                R.close(S, o + b*np.exp(Y), 'sample', '%s script %s' % (msg, sc))
                R.check(np.all(dom.isinside(S)), 'sample-outside', msg)
        if t is not None:
            nd = dom.normalized_domain()
            R.close(nd.pdf(dom.normalize(X))[~near], ref[~near], 'normalized-density', msg, rtol=1e-5, atol=1e-9)
    elif kind == 'measure':
        # the one known contradiction with the documented normalisation (see known_findings.txt)
        b = payload[1]
        y = np.exp(np.linspace(-8, 8, 4001))
        mid = np.sqrt(y[1:]*y[:-1])
        total = np.sum(psdr.LogNormalDomain(0., 1., scaling=b).pdf(b*mid.reshape(-1, 1))*abs(b)*np.diff(y))
        R.step()
        if R.check(abs(total - 1) < 2e-3 or abs(total - abs(b)) < 2e-3, 'measure-other', 'total mass %g' % total):
            R.check(abs(total - 1) < 2e-3, 'measure-is-scaling', 'scaling %g: total mass %g' % (b, total))
    elif kind == 'uniform':
        _, lb, ub, tier = payload
        lb, ub = np.array(lb, dtype=float), np.array(ub, dtype=float)
        dom = psdr.UniformDomain(lb.copy(), ub.copy())
        X = lattice(lb, ub, {1: 41, 2: 15, 3: 9}[len(lb)])
        d = np.minimum(X - lb, ub - X).min(axis=1)
        ref = np.where(d >= 0, 1/np.prod(ub - lb), 0.)
        compare(R, dom, X, ref, np.abs(d) < 1e-4, 'Uniform(%s,%s)' % (lb, ub))
        integral(R, dom, lb, ub, 10, 'uniform')
        nd = dom.normalized_domain()
        R.check(hasattr(nd, 'pdf'), 'normalized-random', 'normalized uniform has no density')
        if hasattr(nd, 'pdf'): R.close(nd.pdf(np.zeros(len(lb))), [.5**len(lb)], 'normalized-density', 'uniform')
        for sc, want in (((1,), lb), ((2,), ub), ((3,), (lb + ub)/2)):
            R.close(draw(dom, 3, sc), np.tile(want, (3, 1)), 'sample', 'uniform')
        S = draw(dom, 50, ())
        R.check(np.all(np.ptp(S, axis=0) > .5*(ub - lb)), 'sample-spread', 'uniform')
    else:
        a = psdr.NormalDomain([1.], [[4.]])
        x = np.linspace(-3, 3, 7).reshape(-1, 1)
        for lab, b in (('scalar', psdr.NormalDomain(1., 4.)), ('int', psdr.NormalDomain(1, 4)), ('list', psdr.NormalDomain([1], [[4]])),
                       ('none', psdr.NormalDomain([1.], [[4.]], truncate=None))):
            R.step(); R.close(b.pdf(x), a.pdf(x), 'spelling-normal', lab)
            R.close(b.lb, a.lb.astype(float), 'spelling-lb', lab) if np.all(np.isfinite(a.lb)) else R.check(np.array_equal(b.lb, a.lb), 'spelling-lb', lab)
        a = psdr.NormalDomain(np.zeros(2), np.eye(2)); x = zooX = np.array([[0, 0], [1, 2], [-1, .5]])
        for lab, b in (('nocov', psdr.NormalDomain([0, 0])), ('list', psdr.NormalDomain([0, 0], [[1, 0], [0, 1]]))):
            R.step(); R.close(b.pdf(x), a.pdf(x), 'spelling-normal2', lab)
        for bad in (lambda: psdr.NormalDomain([0, 0], [[1, .5], [0, 1]]), lambda: psdr.NormalDomain([0, 0], np.eye(3)),
                    lambda: psdr.NormalDomain([0, 0], [[1, 2], [2, 1]])):
            st, v = R.attempt(bad)
            R.check(st == 'raise', 'bad-cov', 'invalid covariance accepted')
        a = psdr.LogNormalDomain(.5, .25)
        x = np.array([[.5], [1.], [3.]])
        for lab, b in (('list', psdr.LogNormalDomain([.5], [[.25]])), ('kw', psdr.LogNormalDomain(.5, cov=.25, offset=0, scaling=1))):
            R.step(); R.close(b.pdf(x), a.pdf(x), 'spelling-lognormal', lab)
        R.close(psdr.LogNormalDomain(0.).pdf(x), lref(x[:, 0], 0., 1., 0., 1., None)[0], 'default-cov', '')
