import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from lib import vf


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('drivers.' + pid.lower())
    rep = vf.Report(pid, seed=seed, tier=tier)
    try:
        mod.check(rep)
    except vf.MachineryError as e:
        if not rep.viol:
            print('MACHINERY FAILURE', e)
            return 2
        print('machinery note:', e)
    except Exception:
        traceback.print_exc()
        if not rep.viol:
            return 2
    return rep.finish()


if __name__ == '__main__':
    sys.exit(main())
