#!/usr/bin/env python3
"""Entry point of the checks.

  run.py ID [--tier quick|thorough]   decide one property
  run.py --replay FILE                re-run one recorded violation
  run.py --all [--tier T]             every property, one after the other
  run.py --setup                      nothing to build; sanity checks only

The process is re-executed with a fixed PYTHONHASHSEED (= VERIF_SEED) and no
byte-code writing, so that one run is a pure function of the tree and the seed.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')


def _reexec():
    seed = os.environ.get('VERIF_SEED', '1')
    try:
        seed = str(int(seed) % 4294967296)
    except ValueError:
        seed = '1'
    if os.environ.get('VERIF_REEXEC') != '1':
        env = dict(os.environ)
        env['VERIF_SEED'] = seed
        env['PYTHONHASHSEED'] = seed
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['PYTHONUTF8'] = '1'
        env['VERIF_REEXEC'] = '1'
        env.pop('PYTHONPATH', None)
        os.execve(sys.executable,
                  [sys.executable, '-B', '-s', os.path.abspath(__file__)] + sys.argv[1:],
                  env)


if __name__ == '__main__':
    _reexec()
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    from mc import core
    sys.exit(core.main(sys.argv[1:], here=HERE, repo=REPO))
