"""run.py <property> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')


def boot():
    # fixed hashing, and no stale bytecode: compiled files are looked up in a
    # prefix that does not exist, and never written
    want = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
            'PYTHONPYCACHEPREFIX': '/nonexistent/mc-pycache'}
    if any(os.environ.get(k) != v for k, v in want.items()):
        os.environ.update(want)
        os.execv(sys.executable, [sys.executable, *sys.argv])
    sys.path[:0] = [REPO, HERE]


def main(argv):
    boot()
    args = argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    if '--tier' in args:
        i = args.index('--tier')
        tier = args[i + 1]
        del args[i:i + 2]
    if '--replay' in args:
        i = args.index('--replay')
        replay = args[i + 1]
        del args[i:i + 2]
    prop = args[0]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import importlib
    import warnings
    warnings.simplefilter('ignore')
    import hwtypes
    assert os.path.realpath(hwtypes.__file__).startswith(os.path.realpath(REPO)), hwtypes.__file__
    import core
    names = [f[:-3] for f in os.listdir(HERE) if f.startswith(prop.lower() + '_') and f.endswith('.py')]
    assert len(names) == 1, names
    mod = importlib.import_module(names[0])
    return core.main(mod, tier, seed, replay)


if __name__ == '__main__':
    rc = main(sys.argv)
    sys.stdout.flush()
    os._exit(rc)
