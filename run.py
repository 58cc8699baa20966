#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE] [--case N]

Runs one property's monitors over /repo's current working tree.
"""
import os
import sys

PY = '/opt/venv/bin/python'
ENV = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'TZ': 'UTC', 'LC_ALL': 'C.UTF-8',
       'AWS_EC2_METADATA_DISABLED': 'true', 'WV_REEXEC': '1'}
UNSET = ('PYTHONPATH', 'PYTHONHOME', 'http_proxy', 'https_proxy', 'all_proxy', 'no_proxy',
         'HTTP_PROXY', 'HTTPS_PROXY', 'ALL_PROXY', 'NO_PROXY', 'PYTHONOPTIMIZE')

if os.environ.get('WV_REEXEC') != '1':
    env = {k: v for k, v in os.environ.items() if k not in UNSET}
    env.update(ENV)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, '-B', os.path.abspath(__file__)] + sys.argv[1:], env)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
# never any byte code but what this run compiles from the current sources
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/wv-pycache'

from wv import core  # noqa: E402

sys.path.insert(0, core.REPO)


def main():
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    p.add_argument('--replay')
    p.add_argument('--case', type=int)
    p.add_argument('--workers', type=int)
    a = p.parse_args()
    import warcio
    if not os.path.abspath(warcio.__file__).startswith(core.REPO + os.sep):
        print('INCONCLUSIVE: warcio imported from', warcio.__file__)
        return 2
    return core.main(a.property.upper(), a.tier, a.seed, a.replay, a.workers, a.case)


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
