"""Plain git for setting up and judging repositories."""
import os
import shutil
import subprocess

from mc.harness import unguarded

T = [1600000000]


def git(cwd, *args, check=True, input=None, env=None):
    e = dict(os.environ, **(env or {}))
    p = subprocess.run(['git', *args], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, input=input, env=e)
    if check and p.returncode:
        raise RuntimeError('harness: git %r: %s' % (args, p.stderr))
    return p.stdout


def init(d):
    os.makedirs(d, exist_ok=True)
    git(d, 'init', '-q', '-b', 'master')
    hooks = os.path.join(d, '.git', 'hooks')
    shutil.rmtree(hooks, ignore_errors=True)


def commit(d, msg, files=()):
    """commit {name: bytes or None}"""
    for n, b in dict(files).items():
        p = os.path.join(d, n)
        if b is None:
            os.unlink(p)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(b)
        git(d, 'add', '-A', '--', n)
    git(d, 'commit', '-q', '--allow-empty', '-m', msg)


def forget(cls):
    """drop repositories the class keeps open, if it does"""
    getattr(cls, '_repos', {}).clear()
