"""I01: plot tables and contour files"""
import itertools, os, tempfile, warnings
import numpy as np
from psdr.pgf import PGF, save_contour

PID = 'I01'
BOUND = """Tables: breadth-first over every operation sequence of depth <= 4 (5 thorough) of {add one of 7 columns (float list, float64/float32/
 integer/object arrays, tuple, extreme and non-finite values, other length, empty), change the caller's last column in place, write
 to a file (new or longer old content), read back into a fresh table, read into the same table, add a column of another length} with 3 names
 (one repeated, one with a space); after every step the table is compared with a list model and every write is parsed independently.
 Contours: every field {0,1,2}^(2x2 grid), every field on a 3x3 grid with values {0,1}  (plus saddles, holes, plateaus), line and filled contours, 3 level
 sets, both formats, simplification thresholds; each record compared with the contour set's own segments."""
ASSUMPTIONS = ['matplotlib computes the contour segments; only their transcription is judged',
               'column names contain no tabs or newlines and are not empty']
CASE_CPU_LIMIT = 200.

INF = float('inf')


def columns():
    return [
        ('list', lambda: [1.5, -2.25]),
        ('f64', lambda: np.array([.1, 1e-300])),
        ('f32', lambda: np.array([1./3, 7e5], dtype=np.float32)),
        ('int', lambda: np.array([3, -(2**53)])),
        ('tup', lambda: (np.pi*1e17, 0)),
        ('nonf', lambda: [float('nan'), -INF]),
        ('len3', lambda: [1., 2., 3.]),
        ('len0', lambda: []),
    ]


def cases(tier):
    out = []
    deep = tier == 'thorough'
    for first in range(8):
        out.append(('table/%d' % first, ('table', first, 5 if deep else 4)))
    for fmt in ('matlab', 'prepared'):
        for k in ('line', 'fill'):
            out.append(('contour/%s-%s' % (fmt, k), ('contour', fmt, k, deep)))
    return out


def same(a, b):
    a = [float(v) for v in a]; b = [float(v) for v in b]
    return len(a) == len(b) and all(x == y or (x != x and y != y) for x, y in zip(a, b))


def parse(path):
    lines = open(path).read().split('\n')
    if lines and lines[-1] == '': lines.pop()
    rows = [[t for t in ln.split('\t')] for ln in lines]
    rows = [r[:-1] if r and r[-1] == '' else r for r in rows]
    return rows[0], [[float(t) for t in r] for r in rows[1:]]


def compare(R, p, model, msg):
    R.check(list(p.keys()) == [n for n, _ in model], 'keys', '%s: keys %s for %s' % (msg, p.keys(), [n for n, _ in model]))
    for n, c in model:
        first = [cc for nn, cc in model if nn == n][0]
        st, v = R.attempt(p.__getitem__, n)
        if R.check(st == 'ok', 'item', '%s: [%r] %s' % (msg, n, v)):
            R.check(same(v, first), 'item-value', '%s: [%r] = %s, not %s' % (msg, n, v, first))
    st, v = R.attempt(p.__getitem__, 'no such column')
    R.check(st != 'ok', 'item-unknown', msg)


def run_table(first, depth, R):
    cols = columns(); names = ['x', 'a b', 'y']
    ops = [('add', n, c) for c in range(len(cols)) for n in ((0, 1) if c in (0, 1) else (c % 3,))]
    ops += [('mut',), ('write',), ('over',), ('reread',)]
    d = tempfile.mkdtemp(prefix='vp-i01-')
    fn = os.path.join(d, 't.dat')
    seen = set()

    def play(seq):
        p = PGF(); model = []; last = None
        for k, op in enumerate(seq):
            final = k == len(seq) - 1
            msg = ' '.join('-'.join(map(str, o)) for o in seq[:k + 1])
            R.step()
            if op[0] == 'add':
                c = cols[op[2]][1]()
                n = names[op[1]]
                bad = len(model) > 0 and len(model[0][1]) != len(c)
                st, v = R.attempt(p.add, n, c)
                if bad:
                    if final: R.check(st != 'ok', 'length', '%s: a column of length %d accepted next to length %d' % (msg, len(c), len(model[0][1])))
                    if st == 'ok': return None
                else:
                    if final: R.check(st == 'ok', 'add', '%s: %s' % (msg, v))
                    if st != 'ok': return None
                    model.append((n, [float(x) for x in c])); last = c
            elif op[0] == 'mut':
                if last is None or isinstance(last, tuple) or len(last) == 0: return None
                last[0] = 77
            elif op[0] in ('write', 'over'):
                if op[0] == 'over': open(fn, 'w').write('old\tcontent\n' + '9\t9\n'*50)
                elif os.path.exists(fn): os.remove(fn)
                st, v = R.attempt(p.write, fn)
                if final:
                    if R.check(st == 'ok', 'write', '%s: %s' % (msg, v)) and model:
                        head, rows = parse(fn)
                        R.check(head == [n for n, _ in model], 'write-head', '%s: %s' % (msg, head))
                        R.check(len(rows) == len(model[0][1]) and all(len(r) == len(model) for r in rows), 'write-shape', '%s: %s' % (msg, rows))
                        for j, (n, c) in enumerate(model):
                            R.check(same([r[j] for r in rows if len(r) > j], c), 'write-value', '%s: %s is %s' % (msg, n, rows))
                    q = PGF()
                    st, v = R.attempt(q.read, fn)
                    if R.check(st == 'ok', 'read', '%s: %s' % (msg, v)): compare(R, q, model, msg + ' (read back)')
                if st != 'ok': return None
            elif op[0] == 'reread':
                if R.attempt(p.write, fn)[0] != 'ok': return None
                st, v = R.attempt(p.read, fn)
                if final: R.check(st == 'ok', 'reread', '%s: %s' % (msg, v))
                if st != 'ok': return None
                last = None
            if final: compare(R, p, model, msg)
        return tuple((n, tuple(map(repr, c))) for n, c in model), last is None or (type(last).__name__, len(last))
    try:
        front = [(('add', 0, first),)] if first else [(), (('add', 0, 0),)]
        for s in front:
            if s: play(s)
        for dep in range(depth):
            nxt = []
            for s in front:
                for op in ops:
                    t = s + (op,)
                    if len(t) > depth: continue
                    st = play(t)
                    if st is None: continue
                    R.state(st)
                    # every sequence up to depth 3, then one representative history per reached state and last operation
                    key = (st, op[0], op[0] == 'add' and op[2])
                    if len(t) >= 3 and key in seen: continue
                    seen.add(key); nxt.append(t)
            front = nxt
    finally:
        for f in os.listdir(d): os.remove(os.path.join(d, f))
        os.rmdir(d)


def fields(deep):
    x2 = np.array([0., 1.]); x3 = np.array([0., 1., 3.]); y3 = np.array([-1., 0., .5])
    for v in itertools.product((0., 1., 2.), repeat=4): yield '2x2%s' % (v,), x2, x2*2 + 1, np.array(v).reshape(2, 2)
    for v in itertools.product((0., 1.), repeat=9): yield '3x3%s' % (v,), x3, y3, np.array(v).reshape(3, 3)
    if deep:
        for v in itertools.product((0., 1., 2.), repeat=6): yield '2x3%s' % (v,), x3, x2, np.array(v).reshape(2, 3)
    g = np.linspace(-1, 1, 9)
    yield 'bowl', g, g, np.add.outer(g**2, g**2)
    yield 'saddle', g, g, np.outer(g, g) + 1
    yield 'egg', 10*g, .1*g, np.outer(np.cos(4*g), np.sin(3*g)) + 1


def seg_dist(P, Q):
    """largest distance of a point of P to the polyline Q"""
    P = np.asarray(P, dtype=float); Q = np.asarray(Q, dtype=float)
    if len(Q) == 1: return np.linalg.norm(P - Q[0], axis=1).max()
    best = np.full(len(P), np.inf)
    for a, b in zip(Q[:-1], Q[1:]):
        d = b - a; t = np.clip((P - a) @ d/max(d @ d, 1e-300), 0, 1)
        best = np.minimum(best, np.linalg.norm(P - a - t[:, None]*d, axis=1))
    return best.max()


def read_contours(path, fmt):
    out = []
    lines = open(path).read().split('\n')
    if lines[-1] == '': lines.pop()
    if fmt == 'matlab':
        k = 0
        while k < len(lines):
            z, n = lines[k].split('\t'); n = int(n)
            pts = [list(map(float, ln.split('\t'))) for ln in lines[k + 1:k + 1 + n]]
            assert len(pts) == n and all(len(q) == 2 for q in pts)
            out.append((float(z), np.array(pts).reshape(-1, 2))); k += n + 1
    else:
        cur = []
        for ln in lines:
            t = ln.split('\t')
            if all(s.strip() == '' for s in t):
                out.append((cur[0][2] if cur else None, np.array(cur).reshape(-1, 3)[:, :2]))
                assert all(c[2] == cur[0][2] for c in cur)
                cur = []
            else:
                assert len(t) == 3
                cur.append(list(map(float, t)))
        if cur: out.append((cur[0][2], np.array(cur)[:, :2]))
    return [(z, p) for z, p in out if len(p)]


def expected(cs):
    out = []
    for lev, segs, kinds in zip(cs.levels, cs.allsegs, cs.allkinds if cs.allkinds and cs.allkinds[0] is not None else [[None]*len(s) for s in cs.allsegs]):
        for s, k in zip(segs, kinds):
            s = np.asarray(s)
            if not len(s): continue
            if k is None: out.append((float(lev), s)); continue
            starts = [i for i, c in enumerate(k) if c == 1] + [len(s)]
            for a, b in zip(starts[:-1], starts[1:]):
                pts = s[a:b].copy()
                if k[b - 1] == 79: pts[-1] = pts[0]
                out.append((float(lev), pts))
    return out


def run_contour(fmt, kind, deep, R):
    import matplotlib; matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    d = tempfile.mkdtemp(prefix='vp-i01-')
    fn = os.path.join(d, 'c.dat')
    fig, ax = plt.subplots()
    try:
        for lab, x, y, Z in fields(deep):
            big = lab in ('bowl', 'saddle', 'egg')
            for levels in ([.5], [.25, .75, 1.5], [-1., 0., 1., 5.]):
                if kind == 'fill' and len(levels) < 2: continue
                if levels[0] == -1. and lab.startswith('3x3') and not deep: continue
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    cs = (ax.contour if kind == 'line' else ax.contourf)(x, y, Z, levels=levels)
                    exp = expected(cs)
                    for simp in (None, 1e-6, .05) if big else (None,):
                        msg = '%s levels=%s simplify=%s' % (lab, levels, simp)
                        st, v = R.attempt(save_contour, fn, cs, fmt=fmt, **({} if simp is None else {'simplify': simp}))
                        if not R.check(st == 'ok', 'save', msg + ': ' + str(v)): continue
                        st, got = R.attempt(read_contours, fn, fmt)
                        if not R.check(st == 'ok', 'format', msg + ': ' + str(got)): continue
                        tol = 1e-12*20 + 2*(1e-3 if simp is None else simp)
                        exp2 = [(z, p) for z, p in exp if np.ptp(p, axis=0).max() > 2*tol]
                        got2 = [(z, p) for z, p in got if np.ptp(p, axis=0).max() > 2*tol]
                        if R.check([z for z, _ in exp2] == [z for z, _ in got2], 'levels', '%s: %s not %s' % (msg, [z for z, _ in got2], [z for z, _ in exp2])):
                            for (z, p), (z2, q) in zip(exp2, got2):
                                R.check(seg_dist(p, q) <= tol, 'missing', '%s z=%s: %s for %s' % (msg, z, q.tolist(), p.tolist()))
                                R.check(seg_dist(q, p) <= tol, 'spurious', '%s z=%s: %s for %s' % (msg, z, q.tolist(), p.tolist()))
                        R.step(); R.state((lab, tuple(levels), [len(q) for _, q in got]))
                ax.clear()
    finally:
        plt.close(fig)
        for f in os.listdir(d): os.remove(os.path.join(d, f))
        os.rmdir(d)
    with tempfile.NamedTemporaryFile(prefix='vp-i01-') as f:
        R.check(R.attempt(save_contour, f.name, cs, fmt='nonsense')[0] != 'ok', 'unknown-format', 'accepted')


def run(payload, R):
    if payload[0] == 'table': run_table(payload[1], payload[2], R)
    else: run_contour(payload[1], payload[2], payload[3], R)
