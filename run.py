#!/usr/bin/env python3
"""Entry point.

  run.py check C01 [--tier quick|thorough]     search; exit 0 / 1 (VIOLATION) / 2
  run.py replay FILE                           re-execute a replay file exactly
  run.py selftest [N]                          determinism: N seeds per engine, twice

DST_REPO (default /repo) names the tree under test.
"""
import os
import sys

REPO = os.environ.get('DST_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def reexec():
    """Fresh interpreter with fixed hash seed and no bytecode written anywhere."""
    if os.environ.get('DST_CHILD') == '1':
        return
    env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': '/nonexistent', 'LANG': 'C.UTF-8',
           'LC_ALL': 'C.UTF-8', 'TZ': 'UTC', 'PYTHONHASHSEED': os.environ.get('DST_HASHSEED', '0'),
           'PYTHONDONTWRITEBYTECODE': '1', 'DST_CHILD': '1', 'DST_REPO': REPO}
    for k in ('VERIF_SEED', 'VERIF_TIER', 'DST_BUDGET', 'DST_RUNS', 'DST_WORKERS', 'DST_ALL'):
        if k in os.environ:
            env[k] = os.environ[k]
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, '-B', '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)


if __name__ == '__main__':
    reexec()
    sys.path[:0] = [REPO, HERE]
    from dst import sim
    sim.install()
    from dst import runner
    sys.exit(runner.main(sys.argv[1:], REPO, HERE))
