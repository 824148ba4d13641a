"""python -m mc.mkknown ID SUBSTR "description": append the current violations of check ID whose case contains SUBSTR
to known_findings.txt (a manual step, never done by a check)"""
import sys, os, importlib
from .run import find
from . import core
pid, sub, desc = sys.argv[1:4]
mod = importlib.import_module(find(pid)); core._MOD = mod
have = {(c, s) for c, s, _ in core.load_known(pid)}
out = []
for k in mod.cases('quick') + [c for c in mod.cases('thorough')]:
    if sub not in k[0] or any(k[0] == o[0] for o in out): continue
    for sig, msg in core._do((0, k))[4]:
        if (k[0], sig) not in have:
            have.add((k[0], sig)); out.append((k[0], sig))
with open(os.path.join(core.VERIF, 'known_findings.txt'), 'a') as f:
    for c, s in out: f.write('finding: property=%s case=%s sig=%s :: %s\n' % (pid, c, s, desc)); print(c, s)
