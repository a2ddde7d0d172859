"""C41: what is optional breaks only what needs it."""
import itertools
import json
import os
import subprocess
import sys
import zipfile

from mc import gitx
from mc.gitx import git
from mc.harness import check, check_eq, unguarded

ID = 'C41'
LEVEL = 'model_checking'
RULE = ('cases = every subset of what is optional {GitPython, the git executable, packaging, setuptools, the magic bindings}; in an interpreter '
        'of its own each, every sequence of uses up to the depth bound in a fork of its own; answers are those with everything there, or an '
        'ImportError if something it needs is missing')
ASSUMPTIONS = ['a module that is missing is one whose import raises ModuleNotFoundError']
CHUNK = 1
CASE_LIMIT = 800

OPTIONAL = ('git', 'git executable', 'packaging', 'setuptools', 'magic')
NEEDS = {'local': (), 'xattrs': (), 'meta': (), 'zip': (), 'magic': ('magic',), 'repo': ('git', 'git executable'),
         'outside': ('git', 'git executable'), 'init': ('git', 'git executable'), 'mine': ('git', 'git executable'),
         'package': ('git', 'git executable', 'packaging'), 'setup': ('git', 'git executable', 'packaging', 'setuptools'), 'star': ()}
SCRIPT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mc', 'optional.py')
REPO = os.environ.get('VP_REPO', '/repo')


def bounds(tier):
    return '%s subsets, %d uses, sequences up to %d' % (
        'all small and the whole' if tier == 'quick' else 'all', len(NEEDS), 2 if tier == 'quick' else 3)


def cases(tier):
    for k in range(len(OPTIONAL) + 1):
        for c in itertools.combinations(OPTIONAL, k):
            if tier == 'quick' and 2 < k < len(OPTIONAL):
                continue
            ops = list(NEEDS)
            for i in range(0, len(ops), 3):
                yield {'missing': list(c), 'first': ops[i:i + 3]}


def build(top):
    d = os.path.join(top, 'repo')
    gitx.init(d)
    gitx.commit(d, 'first', {'f': b'some text\n', 'setup.py': b'from setuptools import setup\nsetup(name="thing", version="0.0.1")\n',
                             'thing/__init__.py': b"__version__ = '0.0.1'\n"})
    git(d, 'tag', 'thing-0.0.1')
    with zipfile.ZipFile(os.path.join(top, 'z.zip'), 'w') as z:
        z.writestr('a', b'a data')
        z.writestr('d/b', b'b data')


def call(top, missing, programs):
    p = subprocess.run([sys.executable, SCRIPT, REPO, top], input=json.dumps({'missing': missing, 'programs': programs}), text=True,
                       capture_output=True, timeout=600, env=dict(os.environ, HOME=top, GIT_CONFIG_NOSYSTEM='1'))
    check(p.returncode == 0, 'without %r: importing fails: %s', missing, p.stderr[-400:])
    out = [json.loads(l) for l in p.stdout.split('\n') if l]
    check_eq(len(out), len(programs), 'answers without %r' % (missing,))
    return out


def run(ctx, case):
    top = ctx.fresh()
    with unguarded():
        build(top)
    reference = {}
    for op, o in zip(NEEDS, call(top, [], [[op] for op in NEEDS])):
        check_eq(o[0][0], 'ok', '%s with everything there: %r' % (op, o))
        reference[op] = o[0][1]
    depth = 2 if ctx.tier == 'quick' else 3
    programs = [[first, *rest] for first in case['first'] for k in range(depth) for rest in itertools.product(NEEDS, repeat=k)]
    for prog, out in zip(programs, call(top, case['missing'], programs)):
        ctx.trace()
        for i, (op, o) in enumerate(zip(prog, out)):
            what = 'without %r: %s' % (case['missing'], ', '.join(prog[:i + 1]))
            lacks = set(NEEDS[op]) & set(case['missing'])
            ctx.trans()
            ctx.state((what, o[0]))
            if lacks:
                check(o[0] == 'raise' and 'ImportError' in o[1], '%s: got %r, expected an ImportError', what, o)
            else:
                check_eq(o, ['ok', reference[op]], what)
    ctx.evaluation(repr(case))
    ctx.sample(case)
