"""python mc/mkfixed.py: rewrite the 'fixed:' lines of known_findings.txt from the fix: commits of /repo.
The property each repair belongs to is listed below by commit subject prefix."""
import subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [l.strip().split(None, 1) for l in open(os.path.join(HERE, 'mc', 'fixprops.txt')) if l.strip()]


def main():
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
    out = []
    for line in log:
        h, s = line.split(' ', 1)
        if not s.startswith('fix: '): continue
        s = s[5:]
        pid = [p for p, pre in PROP if s.startswith(pre)]
        assert len(pid) >= 1, s
        out.append('fixed: property=%s %s %s' % (pid[0], h, s))
    path = os.path.join(HERE, 'known_findings.txt')
    keep = [l.rstrip('\n') for l in open(path) if l.startswith('finding: ')] if os.path.exists(path) else []
    open(path, 'w').write('\n'.join(keep + out) + '\n')


main()
