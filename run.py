#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

REPO = os.environ.get('VP_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.environ.get('VP_REEXEC') != '1':
    env = dict(os.environ, VP_REEXEC='1', PYTHONDONTWRITEBYTECODE='1', PYTHONBREAKPOINT='0',
               PYTHONNOUSERSITE='1', PYTHONHASHSEED=os.environ.get('VERIF_SEED', '1') or '1',
               PYTHONWARNINGS='ignore')
    env.pop('PYTHONPATH', None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path[:0] = [REPO, HERE]


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    import importlib
    import logging
    import warnings
    warnings.simplefilter('ignore')
    import augpathlib
    src = os.path.realpath(os.path.dirname(augpathlib.__file__))
    if src != os.path.realpath(os.path.join(REPO, 'augpathlib')):
        print('wrong augpathlib imported: %s' % src, file=sys.stderr)
        return 2
    logging.getLogger('augpathlib').setLevel(logging.CRITICAL + 10)
    logging.disable(logging.CRITICAL + 20)
    from mc import harness
    mod = importlib.import_module('checks.' + a.id.lower())
    return harness.main(mod, a.tier, a.replay)


sys.exit(main())
