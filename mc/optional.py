"""Run in a process of its own: what works when some modules are missing.

arguments: repository, directory; a JSON object {missing: [...], programs: [[op, ...], ...]} on stdin;
prints one JSON list of outcomes for every program, each run in a fork of its own."""
import json
import os
import sys

repo, top = sys.argv[1:3]
spec = json.load(sys.stdin)
BLOCK = {'packaging': ('packaging',), 'git': ('git',), 'setuptools': ('setuptools', 'distutils'), 'magic': ('magic',)}
blocked = {m for x in spec['missing'] for m in BLOCK.get(x, ())}


class Missing:
    """says what python says when a module is not installed"""

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] in blocked:
            raise ModuleNotFoundError('No module named %r' % name, name=name)


sys.meta_path.insert(0, Missing())
for m in list(sys.modules):
    if m.split('.')[0] in blocked:
        del sys.modules[m]
if 'git executable' in spec['missing']:
    os.environ['PATH'] = '/nonexistent'
os.environ.pop('GIT_PYTHON_GIT_EXECUTABLE', None)
sys.path[:0] = [repo]
os.chdir(top)
import augpathlib as aug        # has to work whatever is missing
from augpathlib import AugmentedPath, LocalPath, EatPath, PathMeta, RepoPath, PackagePath, ZipPath, RepoHelper


def local():
    p = LocalPath('local.txt')
    p.data = iter((b'some ', b'bytes'))
    m = p.meta
    return b''.join(p.data).decode(), m.size, p.checksum().hex(), p.mimetype


def xattrs():
    p = EatPath('attrs')
    p.touch()
    p.setxattr('k', b'v')
    return p.getxattr('k').decode(), sorted(k.decode() for k in p.xattrs())


def meta():
    m = PathMeta(id='x', size=3, name='n')
    return PathMeta.from_xattrs(m.as_xattrs('t'), 't').id, m.as_pretty().count('size')


def zipped():
    return sorted(p.name for p in ZipPath('z.zip').rchildren), ZipPath('z.zip/a').exists()


def magic():
    return LocalPath('repo/f')._magic_mimetype


def repo_():
    p = RepoPath('repo/f')
    return p.working_dir.name, str(p.latest_commit().hexsha), bool(p.repo.is_dirty())


def outside():
    try:
        RepoPath('local.txt').absolute().parent.parent.repo
        return 'found'
    except aug.exceptions.NotInRepoError:
        return 'not in a repository'


made = []


def init():
    made.append(1)
    p = RepoPath('new%d.%d' % (os.getpid(), len(made)))
    r = p.init()
    return type(r).__name__, (p / '.git').is_dir()


def mine():
    class Mine(RepoHelper, LocalPath):
        pass
    Mine._bind_flavours()
    p = Mine('repo/f')
    return str(p.working_dir.name), p.data_text if hasattr(p, 'data_text') else b''.join(p.data).decode()


def package():
    p = PackagePath('repo')
    from augpathlib.package import next_version
    from packaging.version import parse
    return p.working_dir.name, str(next_version(parse('0.0.1')))


def setup():
    p = PackagePath('repo').absolute()
    return p.setup_dist.get_name(), str(p.version_repo), p.tag_prefix


def star():
    ns = {}
    exec('from augpathlib import *', ns)
    return sorted(k for k in ns if k in ('AugmentedPath', 'LocalPath', 'RepoPath', 'PackagePath', 'PathMeta', 'RemotePath', 'CachePath'))


OPS = dict(local=local, xattrs=xattrs, meta=meta, zip=zipped, magic=magic, repo=repo_, outside=outside, init=init, mine=mine,
           package=package, setup=setup, star=star)

for prog in spec['programs']:
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        out = []
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        for op in prog:
            try:
                out.append(['ok', OPS[op]()])
            except BaseException as e:
                out.append(['raise', [c.__name__ for c in type(e).__mro__], repr(e)[:200]])
        with os.fdopen(w, 'w') as f:
            f.write(json.dumps(out))
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        print(f.read(), flush=True)
    os.waitpid(pid, 0)
