#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--only NAME] [-v] [-j N] | --replay FILE"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    os.execve(sys.executable, [sys.executable] + sys.argv, env)
sys.path.insert(0, HERE)
# numpy comes from the project's environment, z3 from the tooling one
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--budget', type=float)
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--strict', action='store_true', help='anything left undecided is an error')
    a = ap.parse_args()
    from symex import run
    if a.replay:
        return run.replay(a.replay)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return run.check_property(a.property, a.tier, seed, budget=a.budget, only=a.only, verbose=a.v,
                              jobs=a.j, strict=a.strict)


if __name__ == '__main__':
    try:
        code = main()
    except BaseException as e:
        import traceback
        if isinstance(e, SystemExit):
            raise
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.exit(code)
