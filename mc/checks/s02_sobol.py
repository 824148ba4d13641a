import numpy as np
import sobol_seq
import psdr
from .. import zoo

PID = 'S02'
BOUND = """Every bounded non-random full-dimensional domain of the alphabet (boxes, polytopes, hulls, balls, products, restrictions, normalized
 copies) x every request size 1..40 (1..130 thorough) in one process, in increasing, decreasing and repeated order.
 Oracle: one run of the published Sobol generator from index 1, mapped to the exact bounding box and filtered by the written
 constraints; each request must equal the first n entries of that list."""
ASSUMPTIONS = ['points of the sequence within 1e-6 of the boundary may be kept or dropped (solver-computed bounds)']


def doms():
    out = [s for s in zoo.boxes() if np.all(s.box()[1] - s.box()[0] > 1e-9)]
    out += [s for s in zoo.linears() if len(s.Aeq) == 0] + zoo.quadratics() + zoo.hulls() + zoo.tensors()
    keep = []
    for s in out:
        if len(s.Aeq) + len(s.hAeq) or 'measure' in s.tags or s.empty: continue
        if hasattr(s, 'parts') and any('measure' in p.tags for p in s.parts): continue
        lo, hi = s.box()
        if np.any(hi - lo < 1e-9) or s.name == 'uni2': continue      # random domains are rejected by design
        G = lo + (hi - lo)*sobol_seq.i4_sobol_generate(s.m, 400, skip=1)
        if (s.violation(G) < 0).sum() >= 15: keep.append(s)
    keep.append(zoo.lin('band', 2, [0, 0], [1, 1], [(1, -1), (-1, 1)], [.1, .1]))
    keep.append(zoo.lin('corner', 2, [0, 0], [1, 1], [(1, 1)], [.3]))
    keep.append(zoo.lin('slackbox', 2, [-5, -5], [5, 5], [(1, 0), (-1, 0), (0, 1), (0, -1)], [1., 1., 1., 1.]))
    keep.append(zoo.box('b4', [0, -1, 2, 0], [1, 1, 3, .5]))
    keep.append(zoo.box('b6', [0]*6, [1, 2, 3, 4, 5, 6]))
    return keep


D = {s.name: s for s in doms()}


def cases(tier):
    return [('%s/%s' % ('box' if len(s.A) + len(s.hA) + len(s.quads) == 0 else 'cut', n), (n, tier)) for n, s in D.items()]


def reference(s, n, box=None):
    """first entries of the sequence in s, with an ambiguity flag"""
    lo, hi = box if box is not None else s.box()
    N = 64
    while True:
        X = lo + (hi - lo)*sobol_seq.i4_sobol_generate(s.m, N, skip=1)
        v = s.violation(X)
        if (v < -1e-6*s.scale()).sum() >= n or N > 20000: break
        N *= 2
    return X[v < 1e-6*s.scale()], v[v < 1e-6*s.scale()] > -1e-6*s.scale()


def match(X, ref, amb, tol):
    """X is the list ref with some ambiguous entries dropped"""
    j = 0
    for x in X:
        while j < len(ref) and np.abs(ref[j] - x).max() > tol:
            if not amb[j]: return False
            j += 1
        if j == len(ref): return False
        j += 1
    return True


def run(p, R):
    name, tier = p
    s = D[name]
    K = 130 if tier == 'thorough' else 40
    # the documented scaling: the normalization bounds of the domain (bounds if given, else the range of the domain)
    lo, hi = s.box()
    lo = np.where(np.isfinite(s.lb), s.lb, lo); hi = np.where(np.isfinite(s.ub), s.ub, hi)
    if s.hull is not None: lo, hi = s.hull.min(axis=0), s.hull.max(axis=0)
    ref, amb = reference(s, K, (lo, hi))
    forms = [('', s.build, s, ref, lambda X: X)]
    nlo, nhi = lo, hi
    forms.append(('norm', lambda: s.build().normalized_domain(), s, ref, lambda X: (X + 1)/2*(nhi - nlo) + nlo))
    for lab, build, sp, rf, back in forms:
        d = build()
        for rep, order in enumerate((range(1, K + 1), (K, 7, 1, 7, K//2))):
            if rep == 1: d = build()
            for n in order:
                st, X = R.attempt(psdr.sobol_sequence, d, n)
                msg = '%s %s n=%d' % (name, lab, n)
                if not R.check(st == 'ok' and np.shape(X) == (n, s.m), 'shape', '%s: %s' % (msg, X if st != 'ok' else np.shape(X))): continue
                X = back(X)
                R.check(s.violation(X).max() <= 2e-6*s.scale(), 'outside', '%s: %g' % (msg, s.violation(X).max()))
                R.check(match(X, rf, amb, 2e-6*s.scale()), 'sequence', lambda: '%s: %s expected %s' % (msg, X[:8].tolist(), rf[:8].tolist()))
                R.state((name, lab, n, X[-1]))
    st, X = R.attempt(psdr.sobol_sequence, s.build(), 3)
    st2, Y = R.attempt(psdr.sobol_sequence, s.build(), 3)
    R.check(st == st2 == 'ok' and np.array_equal(X, Y), 'repeat', name)
