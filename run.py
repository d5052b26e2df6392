#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough] [--seed N] [--facet NAME ...] [--replay FILE]"""
import argparse
import glob
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.environ.get('PYTHONHASHSEED') != '0' or (
        os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv')):
    os.environ['PYTHONHASHSEED'] = '0'
    exe = PY if os.path.exists(PY) else sys.executable
    if not os.environ.get('_CBX_REEXEC'):
        os.environ['_CBX_REEXEC'] = '1'
        os.execv(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:])

sys.path.insert(0, HERE)
from pbt import env  # noqa: E402

TORCH = {'C35', 'C36'}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--facet', action='append')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--replay')
    a = ap.parse_args()
    env.setup(torch=a.pid in TORCH)
    mods = glob.glob(os.path.join(HERE, 'props', a.pid.lower() + '_*.py'))
    if len(mods) != 1:
        print('no such property: %s' % a.pid, file=sys.stderr)
        return 2
    mod = importlib.import_module('props.' + os.path.basename(mods[0])[:-3])
    from pbt import core
    if a.replay:
        return core.replay(mod.P, a.replay)
    return core.run_prop(mod.P, a.tier, a.seed, jobs=a.jobs, only=a.facet)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
