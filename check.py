#!/usr/bin/env python
"""check.py <property> [tier]: decide one property on /repo's working tree."""
import importlib
import json
import os
import signal
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')
LIMIT = {'quick': 840, 'thorough': 3 * 3600}


def parent(prop):
    tier = os.environ.get('VERIF_TIER', 'quick')
    env = dict(os.environ)
    env['VF_CHILD'] = '1'
    env['PYTHONPATH'] = REPO + ':' + ROOT
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = '0'
    env['OMP_NUM_THREADS'] = '1'
    env['OPENBLAS_NUM_THREADS'] = '1'
    env['MPLBACKEND'] = 'Agg'
    t0 = time.time()
    p = subprocess.Popen([VENV, '-W', 'ignore'] + sys.argv, env=env,
                         cwd=ROOT, start_new_session=True)
    why = None
    try:
        rc = p.wait(timeout=LIMIT.get(tier, 840))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        why, rc = 'the code under test did not terminate', 1
    if rc < 0 and why is None:
        why, rc = 'the code under test died on signal %d' % -rc, 1
    if why is not None:
        d = os.path.join(ROOT, 'evidence')
        os.makedirs(os.path.join(d, 'replay'), exist_ok=True)
        path = os.path.join('evidence', 'replay', prop + '.json')
        with open(os.path.join(ROOT, path), 'w') as fh:
            json.dump([{'what': why}], fh)
        with open(os.path.join(d, prop + '.json'), 'w') as fh:
            json.dump({'property': prop, 'tier': tier,
                       'seed': int(os.environ.get('VERIF_SEED', '1')),
                       'level': 'model_checking',
                       'coverage': {'samples': [why], 'states': 0,
                                    'transitions': 0,
                                    'traces_validated_against_impl': 0},
                       'wall_s': time.time() - t0, 'violations': 1}, fh)
        print('  ' + why)
        print('VIOLATION property=%s replay=%s' % (prop, path))
    sys.exit(rc)


def main():
    prop = sys.argv[1]
    if prop == 'setup':
        # nothing is installed; compile-check the toolchain the checks need
        subprocess.run(['java', '-version'], check=True)
        subprocess.run([VENV, '-c', 'import numpy, scipy, numba, galsim'],
                       check=True)
        return
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    if os.environ.get('VF_CHILD') != '1':
        parent(prop)
    from vf import report
    mod = importlib.import_module('vf.' + prop.lower())
    report.main(prop, mod.check)


if __name__ == '__main__':
    main()
