"""F01: the Function wrapper"""
import itertools
import numpy as np
import psdr
from psdr import Function, BoxDomain

PID = 'F01'
BOUND = """Alphabet: domain {boxes, box with a fixed coordinate, inequalities, product, truncated normal, point} in dimension 1..3 x components
 {one scalar, one array, one vector of 2 or 3, lists of them} x spelling {function, list} x vectorized x gradients {none, callable(s),
 returned with the value, finite differences} x batch {one point, 1, 2, 5 points} x input {array, list, integers} x call {eval, call,
 grad, call with gradient, predict} x extra arguments {default, constructor, call, both}.  Asynchronous calls: every order of
 completion of up to 4 tasks of an executor under the control of the check.  Oracle: the user function called directly at the
 application coordinates; its analytic gradient times the Jacobian of the change of variables."""
ASSUMPTIONS = ['finite difference gradients are forward differences: accurate to 1e-5 of the scale of the function']


def P(k, x, a=1., b=0.): return a*(x[0]**2 + (k + 1)*x[-1] + .5*k*x[0]*x[-1] + k) + b*x.sum()


def G(k, x, a=1., b=0.):
    g = np.zeros(len(x)); g[0] += 2*x[0] + .5*k*x[-1]; g[-1] += (k + 1) + .5*k*x[0]
    return a*g + b


def async_square(x, a=1., b=0., return_grad=False):
    fx = a*(x[0]**2 + 2*x[-1]) + b*x.sum()
    if not return_grad: return fx
    import numpy as np
    g = np.zeros(len(x)); g[0] += 2*a*x[0]; g[-1] += 2*a
    return fx, g + b


def async_pair(x, a=1., b=0., return_grad=False):
    import numpy as np
    fx = np.array([a*x[0], b + x[-1]**2])
    if not return_grad: return fx
    g = np.zeros((2, len(x))); g[0, 0] = a; g[1, -1] += 2*x[-1]
    return fx, g


def async_plain(x, a=2.): return a*x[-1] + x[0]


class Comp(object):
    """one user function with outputs numbered ks"""
    def __init__(self, ks, style, vec, rg):
        self.ks, self.style, self.vec, self.rg = ks, style, vec, rg; self.log = []

    def one(self, x, a, b):
        v = [P(k, x, a, b) for k in self.ks]
        return v[0] if self.style == 'scalar' else np.array(v) if self.style != 'list' else v

    def gone(self, x, a, b):
        v = np.array([G(k, x, a, b) for k in self.ks])
        return v[0] if self.style in ('scalar', 'array') else v if self.style != 'list' else [r for r in v]

    def __call__(self, x, a=1., b=0., return_grad=False):
        x = np.asarray(x); self.log.append(np.copy(x))
        if x.ndim == 1: v, g = self.one(x, a, b), self.gone(x, a, b)
        else:
            if not self.vec: raise AssertionError('batch passed to a function of one point')
            v = np.array([self.one(y, a, b) for y in x]); g = np.array([self.gone(y, a, b) for y in x])
            if self.style == 'list': v, g = v.tolist(), g.tolist()
        return (v, g) if return_grad else v

    def grad(self, x, a=1., b=0.):
        x = np.asarray(x)
        if x.ndim == 1: return self.gone(x, a, b)
        if not self.vec: raise AssertionError('batch passed to a function of one point')
        return np.array([self.gone(y, a, b) for y in x])


COMPS = {'scalar': [('scalar', (0,))], 'array': [('array', (1,))], 'vector': [('vec', (0, 1, 2))], 'lists': [('list', (1, 2))], 'two scalars': [('scalar', (0,)), ('scalar', (2,))],
         'scalar and vector': [('scalar', (1,)), ('vec', (0, 2))], 'vector and array': [('vec', (2, 0)), ('array', (1,))], 'three': [('scalar', (0,)), ('scalar', (1,)), ('scalar', (2,))], 'list of one': [('scalar', (1,))]}


def domains():
    B = BoxDomain
    return {'box1': B([1.], [3.]), 'unit2': B([-1., -1], [1, 1]), 'box2': B([0., -5], [10, 5]), 'box3': B([1., 2, 3], [2, 4, 7]), 'fixed': B([0., 1, 2], [2, 1, 3]),
            'ineq': psdr.LinIneqDomain(A=[[1., 1]], b=[3.], lb=[0, 0], ub=[2, 2]), 'tensor': psdr.TensorProductDomain([B([0.], [4.]), B([1.], [2.])]),
            'normal': psdr.NormalDomain([1., 2], [[2., .5], [.5, 1]], truncate=1e-2), 'hull': psdr.ConvexHullDomain([[0., 0], [2, 0], [0, 4]])}


def points(dom, n):
    m = len(dom)
    lo, hi = np.asarray(dom.norm_lb, float), np.asarray(dom.norm_ub, float)
    t = np.array([[.5 + .4*np.sin(1 + 3*i + 2*j) for j in range(m)] for i in range(n)])
    return lo + t*(hi - lo)


def cases(tier):
    out = [('%s/%s/%s' % (d, c.replace(' ', '-'), v), ('opts', d, c, v, tier)) for d in sorted(domains()) for c in sorted(COMPS) for v in (False, True)]
    out += [('async/%d' % k, ('async', k, tier)) for k in range(4)]
    out.append(('arguments', ('args', tier)))
    return out


class Future(object):
    def __init__(self, fn, a, k): self.fn, self.a, self.k, self.done = fn, a, k, False
    def run(self):
        self.v = self.fn(*self.a, **self.k); self.done = True
    def result(self):
        assert self.done; return self.v


class Client(object):
    """executor whose completion order the check decides"""
    def __init__(self): self.tasks = []
    def submit(self, fn, *a, **k):
        f = Future(fn, a, k); self.tasks.append(f); return f


def run(payload, R):
    kind = payload[0]; deep = payload[-1] == 'thorough'
    if kind == 'opts':
        _, d, c, vec, tier = payload
        dom = domains()[d]; m = len(dom); nd = dom.normalized_domain()
        z = np.asarray(dom.unnormalize(np.zeros(m)), float)
        J = np.array([np.asarray(dom.unnormalize(np.eye(m)[i]), float) - z for i in range(m)]).T
        for src, spell in itertools.product(('none', 'grads', 'return', 'fd'), ('bare', 'list') if len(COMPS[c]) == 1 and c != 'list of one' else ('list',)):
            comps = [Comp(ks, st, vec, src == 'return') for st, ks in COMPS[c]]
            nout = sum(len(k.ks) for k in comps)
            for ck, kk in itertools.product(({}, {'a': 3.}), ({}, {'b': -2.}, {'a': .5})):
                if (ck or kk) and not deep and d not in ('box2', 'fixed', 'normal'): continue
                kw = {'vectorized': vec}
                if ck: kw['kwargs'] = dict(ck)
                if src == 'grads': kw['grads'] = comps[0].grad if spell == 'bare' else [k.grad for k in comps]
                if src == 'return': kw['return_grad'] = True
                if src == 'fd': kw['fd_grad'] = True
                st, fun = R.attempt(Function, comps[0] if spell == 'bare' else comps, dom, **kw)
                msg = '%s, %s, %s, vectorized=%s, gradients: %s, arguments %s %s' % (d, c, spell, vec, src, ck, kk)
                if not R.check(st == 'ok', 'construct', '%s: %s' % (msg, fun)): continue
                al = dict(a=1., b=0.); al.update(ck); al.update(kk)
                for n, inp in itertools.product((0, 1, 2, 5), ('array', 'list')):
                    Z = points(nd, max(n, 1)); X = np.array([np.asarray(dom.unnormalize(q), float) for q in Z])
                    F = np.array([[P(k, x, **al) for q in comps for k in q.ks] for x in X])
                    D = np.array([[G(k, x, **al) for q in comps for k in q.ks] for x in X]) @ J
                    if n == 0: A, F, D = Z[0], F[0], D[0, 0] if nout == 1 else D[0]
                    else: A, D = Z, D[:, 0] if nout == 1 else D
                    A0 = A.copy(); ms = '%s, %s' % (msg, 'one point' if n == 0 else '%d points' % n)
                    AA = A.tolist() if inp == 'list' else A
                    for name, call in (('eval', lambda: fun.eval(AA, **kk)), ('call', lambda: fun(AA, **kk))) + ((('predict', lambda: fun.predict(AA)),) if not kk else ()):
                        for q in comps: q.log = []
                        st, v = R.attempt(call)
                        if not R.check(st == 'ok', 'value-raise', '%s, %s %s: %s' % (ms, name, inp, v)): continue
                        if R.check(np.shape(v) == F.shape, 'value-shape', '%s, %s: %s, not %s' % (ms, name, np.shape(v), F.shape)): R.close(v, F, 'value', '%s, %s' % (ms, name))
                        for q in comps:
                            got = np.array(q.log[0]).reshape(-1, m) if len(q.log) == 1 and np.ndim(q.log[0]) == 2 else np.array(q.log).reshape(-1, m)
                            R.check(len(got) == len(X) and np.allclose(got, X), 'once', '%s, %s: evaluated at %s, not %s' % (ms, name, got.tolist(), X.tolist()))
                    R.check(np.array_equal(A, A0), 'mutates', ms)
                    if src == 'none':
                        st, v = R.attempt(fun.grad, AA); R.check(st == 'raise', 'no-gradient', '%s: gradient %s' % (ms, v))
                        R.step(4); continue
                    gt = dict(rtol=1e-8, atol=1e-9) if src != 'fd' else dict(rtol=1e-5, atol=1e-5*(1 + np.abs(F).max()))
                    st, v = R.attempt(fun.grad, AA, **kk)
                    if R.check(st == 'ok', 'grad-raise', '%s %s: %s' % (ms, inp, v)):
                        if R.check(np.shape(v) == D.shape, 'grad-shape', '%s: %s, not %s' % (ms, np.shape(v), D.shape)): R.close(v, D, 'grad', ms, **gt)
                    st, v = R.attempt(fun, AA, return_grad=True, **kk)
                    if R.check(st == 'ok' and len(v) == 2, 'both-raise', '%s %s: %s' % (ms, inp, v)):
                        if R.check(np.shape(v[0]) == F.shape and np.shape(v[1]) == D.shape, 'both-shape', '%s: %s %s, not %s %s' % (ms, np.shape(v[0]), np.shape(v[1]), F.shape, D.shape)):
                            R.close(v[0], F, 'both-value', ms); R.close(v[1], D, 'both-grad', ms, **gt)
                    R.state((msg, n, inp)); R.step(6)
                R.check(fun.domain_app is dom and len(fun.domain) == m and np.allclose(fun.domain.norm_lb, nd.norm_lb) and np.allclose(fun.domain.norm_ub, nd.norm_ub), 'domain', msg)
                if ck: R.check(kw['kwargs'] == ck, 'mutates', 'arguments of the constructor')
        return
    if kind == 'async':
        k, tier = payload[1:]
        doms = domains()
        for d, funs in itertools.product(('box1', 'box2', 'box3', 'normal'), ([async_square], [async_pair], [async_square, async_pair], [async_plain])):
            dom = doms[d]; m = len(dom)
            z = np.asarray(dom.unnormalize(np.zeros(m)), float); J = np.array([np.asarray(dom.unnormalize(np.eye(m)[i]), float) - z for i in range(m)]).T
            for spell in ('list', 'bare')[:1 if len(funs) > 1 else 2]:
                for n in range(0, 5 if deep else 4):
                    if n % 4 != k: continue
                    for order in itertools.permutations(range(max(n, 1))):
                        for call, ck, kk in itertools.product(('eval', 'call', 'grad'), ({}, {'a': 3.}), ({}, {'b': .5}, {'a': 4.})):
                            if funs[0] is async_plain and (call == 'grad' or 'b' in kk): continue
                            cl = Client(); fun = Function(funs if spell == 'list' else funs[0], dom, dask_client=cl, kwargs=ck)
                            Z = points(dom.normalized_domain(), max(n, 1)); X = np.array([np.asarray(dom.unnormalize(q), float) for q in Z])
                            A = Z[0] if n == 0 else Z
                            msg = '%s %s %s, %d points, order %s, %s %s %s' % (d, [f.__name__ for f in funs], spell, n, order, call, ck, kk)
                            st, v = R.attempt(lambda: fun.eval_async(A, **kk) if call == 'eval' else fun.call_async(A, return_grad=call == 'grad', **kk))
                            if not R.check(st == 'ok' and len(cl.tasks) == len(X), 'async-raise', '%s: %s, %d tasks' % (msg, v, len(cl.tasks))): continue
                            for i in order:
                                st, e = R.attempt(cl.tasks[i].run)
                                if not R.check(st == 'ok', 'async-run', '%s: %s' % (msg, e)): break
                            else:
                                al = dict(ck); al.update(kk)
                                res = [v] if n == 0 else v
                                if not R.check(len(res) == len(X), 'async-count', msg): continue
                                for f, x in zip(res, X):
                                    want = [u(x, **al) for u in funs]; got = f.result()
                                    if call != 'grad': R.check(len(got) == len(funs) and all(np.allclose(np.ravel(p), np.ravel(q)) for p, q in zip(got, want)), 'async-value', '%s: %s, not %s' % (msg, got, want))
                                    else:
                                        want = [u(x, return_grad=True, **al) for u in funs]
                                        ok = len(got) == len(funs) and all(np.allclose(np.ravel(p[0]), np.ravel(q[0])) for p, q in zip(got, want))
                                        R.check(ok, 'async-value', '%s: %s' % (msg, got))
                                        R.check(ok and all(np.allclose(np.ravel(p[1]), np.ravel(np.asarray(q[1]) @ J)) for p, q in zip(got, want)), 'async-grad', '%s: %s, gradient in normalized coordinates is %s' % (msg, got, [np.asarray(q[1]) @ J for q in want]))
                            R.state((msg,)); R.step()
        return
    if kind == 'args':
        dom = BoxDomain([0., 0], [1., 2])
        f = lambda x: x.sum()
        st, e = R.attempt(Function, [f, f], dom, grads=[f]); R.check(st == 'raise', 'arguments', 'one gradient for two functions accepted')
        fun = Function(f, dom)
        st, e = R.attempt(fun.eval_async, np.zeros(2)); R.check(st == 'raise', 'arguments', 'asynchronous call without client accepted')
        st, e = R.attempt(fun.grad, np.zeros(2)); R.check(st == 'raise', 'arguments', 'gradient without derivative information')
        bad = Function(lambda X: np.ones(3), dom, vectorized=True)
        st, e = R.attempt(bad, np.zeros((2, 2))); R.check(st == 'raise', 'arguments', 'vectorized function with the wrong number of values accepted')
        class B(psdr.BaseFunction):
            def eval(self, X): return np.atleast_1d(np.asarray(X).sum(axis=-1))
            def grad(self, X): return np.ones(np.shape(X))
        b = B()
        for X in (np.zeros(2), np.ones((3, 2))):
            R.close(b(X), b.eval(X), 'base'); R.close(b.predict(X), b.eval(X), 'base'); v = b(X, return_grad=True); R.close(v[0], b.eval(X), 'base'); R.close(v[1], b.grad(X), 'base'); R.state(X.tobytes())
