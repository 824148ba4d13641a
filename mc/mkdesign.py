"""python -m mc.mkdesign: regenerate DESIGN.md from mc/design/head.md, the checks' own BOUND/ASSUMPTIONS, the last evidence and mc/design/seeds.md"""
import ast, glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def meta(f):
    ns = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('PID', 'BOUND', 'ASSUMPTIONS'):
            ns[n.targets[0].id] = eval(compile(ast.Expression(n.value), f, 'eval'), {})
    return ns


def main():
    out = [open(os.path.join(HERE, 'mc/design/head.md')).read().rstrip(), '', '## Properties', '']
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    M = {m['PID']: (m, f) for f in sorted(glob.glob(os.path.join(HERE, 'mc/checks/[a-z]*.py'))) for m in [meta(f)] if 'PID' in m}
    for p in props:
        m, f = M[p['id']]
        out += ['### %s  %s' % (p['id'], p['title']), '', p['statement'], '',
                '* **Explored** (`%s`): %s' % (os.path.relpath(f, HERE), ' '.join(m.get('BOUND', '').split())),
                '* **Why not by tests**: %s' % p['why_tests_cant']]
        for a in m.get('ASSUMPTIONS', []): out.append('* *Assumption*: %s' % a)
        ev = os.path.join(HERE, 'mc/design/cost.json')
        c = json.load(open(ev)).get(p['id']) if os.path.exists(ev) else None
        if c: out.append('* *Cost of the quick tier when last measured (8 cores)*: %s' % c)
        out.append('')
    s = os.path.join(HERE, 'mc/design/seeds.md')
    if os.path.exists(s): out += [open(s).read().rstrip(), '']
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))


if __name__ == '__main__': main()
