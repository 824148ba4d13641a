import os, sys, argparse, importlib, glob


def find(pid):
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks')
    hits = glob.glob(os.path.join(here, pid.lower() + '_*.py'))
    if len(hits) != 1: sys.exit('no unique check module for %s' % pid)
    return 'mc.checks.' + os.path.basename(hits[0])[:-3]


if __name__ == '__main__':
    if sys.argv[1:] == ['--setup']:
        from mc import core, zoo
        assert zoo.everything()[0].build().isinside([0.5])
        print('setup ok: psdr imported from %s' % core.REPO)
        sys.exit(0)
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    from mc import core
    mod = importlib.import_module(find(a.pid))
    rc = core.main(mod, a.tier, replay=a.replay, only=a.only, jobs=a.jobs, verbose=a.v)
    sys.stdout.flush()
    os._exit(rc)
