#!/usr/bin/env python3
"""Decide one property by deterministic simulation.

    run.py C01 [--tier quick|thorough] [--seed N] [--runs N] [--jobs J]
    run.py C01 --replay FILE        execute one recorded failure again
    run.py C01 --selftest [--runs N]  every run twice, in other orders and processes

exit 0: held on every simulated run; exit 1 + "VIOLATION property=<id> replay=<path>";
exit 2: the machinery itself failed.
"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
WANT = {'PYTHONHASHSEED': '0', 'TZ': 'UTC', 'MPLBACKEND': 'Agg', 'PYTHONDONTWRITEBYTECODE': '1',
        'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
        'NUMEXPR_NUM_THREADS': '1', 'NUMEXPR_MAX_THREADS': '1', 'BLOSC_NTHREADS': '1',
        'LC_ALL': 'C.UTF-8', 'TF_CPP_MIN_LOG_LEVEL': '3', 'PYTHONWARNINGS': 'ignore'}


def reexec(args):
    env = dict(os.environ)
    want = dict(WANT)
    if os.environ.get('SIM_HASHSEED'):
        want['PYTHONHASHSEED'] = os.environ['SIM_HASHSEED']
    if all(env.get(k) == v for k, v in want.items()) and env.get('SIM_BASE'):
        return
    import tempfile
    base = tempfile.mkdtemp(prefix='nilmsim-')
    env.update(want)
    env['SIM_BASE'] = base
    env['MPLCONFIGDIR'] = os.path.join(base, 'mpl')
    env['HOME'] = base
    import subprocess, shutil
    py = PY if os.path.exists(PY) else sys.executable
    try:
        rc = subprocess.call([py, os.path.abspath(__file__)] + args, env=env)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.exit(rc)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--budget', type=float, help='wall seconds after which no new run starts')
    ap.add_argument('--replay')
    ap.add_argument('--show', type=int, help='print the scenario of run N and execute it')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--digests', action='store_true', help='print the digest of every run')
    ap.add_argument('--no-shrink', action='store_true')
    ap.add_argument('--all', action='store_true', help='do not stop at the first violation')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    reexec(sys.argv[1:])
    sys.path.insert(0, os.path.join(HERE, 'sim'))
    import driver
    sys.exit(driver.main(a))


if __name__ == '__main__':
    main()
