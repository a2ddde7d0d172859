"""C32: what a clone is called and where a path of it is on github."""
import itertools
import os
import shutil
import subprocess
from urllib.parse import unquote_to_bytes, urlsplit

from augpathlib import RepoPath
from augpathlib import exceptions as exc
from mc import gitx
from mc.fsx import diff, snapshot
from mc.harness import check, check_eq, outcome, unguarded

ID = 'C32'
LEVEL = 'model_checking'
RULE = ('clone names: every way to write the place of a repository x every way to write its name, compared with the directory that git '
        'clone makes; uris: every way to write a repository on github x every name of it, and local clones of clones of it x every ref '
        '(none, branches, tags, commits as text and object, detached head) x every path (special characters, directories, missing), '
        'absolute and relative, taken apart again and compared')
ASSUMPTIONS = ['github names: refs and paths are looked up by github as they are in the uri']
CHUNK = 1
CASE_LIMIT = 300
PREFIXES = ('https://github.com/g/', 'git@github.com:g/', 'ssh://git@github.com/g/', 'ssh://git@github.com:22/g/', 'git@host.org:', 'host:',
            'host:~/', '/srv/git/', '../', './', 'https://user:pw@h.org/', 'git://h/x/y/', 'file:///srv/')
NAMES = ('repo', 'repo.git', 'my.repo', 'my.repo.git', 'repo.git/', 'repo/', 'repo/.git', 'repo/.git/', 'repo//', 'repo//.git', 'repo//.git//', 'repo.git/.git', 'repo/.git/.git', 'repo.js', 'a b.git', '.dotfiles',
         '.dotfiles.git', 'repo.git.git', 'a-b_c', '\u00e9.git', 'repo.gitx', 'x.tar.gz', 'r.')
GITHUB = ('https://github.com/', 'git@github.com:', 'ssh://git@github.com/', 'ssh://git@github.com:22/', 'ssh://git@github.com//', 'git@github.com:/', 'git://github.com/', 'http://github.com/',
          'https://user@github.com/', 'https://user:pw@github.com/', 'github.com:', 'https://GitHub.com/')
REPOS = (('g', 'r'), ('g', 'my.repo'), ('some-org', 'r.js'), ('g.x', 'r'), ('github.com', '.dotfiles'), ('g', 'git'))
TAILS = ('', '.git', '/', '.git/')
PATHS = ('f.py', 'd/f', 'd', '', 'missing', 'd/missing/x', 'a b', 'a#b', 'a?b=c', 'a%20b', '\u00e9', 'a;b', 'a&b', 'a+b', "it's", 'f\udcff', 'a:b', 'blob/x', 'x@y')
REFS = (None, 'HEAD', 'master', 'feature/x', 'v1', 'sha', 'sha1', 'commit', 'commit1')


def bounds(tier):
    return '%d x %d names of clones; %d x %d x %d uris of github, %d refs, %d paths' % (
        len(PREFIXES), len(NAMES), len(GITHUB), len(REPOS), len(TAILS), len(REFS), len(PATHS))


def cases(tier):
    for p in PREFIXES:
        yield {'clone': p}
    for g in GITHUB:
        for r in (REPOS if tier == 'thorough' else REPOS[1:3]):
            yield {'github': g, 'repo': list(r), 'all': tier == 'thorough'}
    for r in REPOS:
        yield {'local': list(r)}
    yield {'other': 1}


def setup_worker(ctx):
    home = os.environ['HOME']
    t = os.path.join(home, 'template')
    gitx.init(t)
    gitx.commit(t, 'one', {'f.py': b'1'})
    gitx.git(t, 'tag', 'v1')
    gitx.git(t, 'branch', 'feature/x')
    files = {p: b'x' for p in PATHS if p not in ('', 'd') and 'missing' not in p}
    gitx.commit(t, 'two', files)
    ctx.template = t


def clone(ctx, case):
    d = ctx.fresh()
    for name in NAMES:
        remote = case['clone'] + name
        where = os.path.join(d, 'w')
        with unguarded():
            shutil.rmtree(where, ignore_errors=True)
            os.mkdir(where)
            p = subprocess.run(['git', '-c', 'url.file://%s/.git.insteadOf=%s' % (ctx.template, remote), 'clone', '-q', remote], cwd=where,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            made = os.listdir(where)
        if p.returncode or len(made) != 1:
            ctx.count('refused by git')
            continue
        for base in (RepoPath(where), RepoPath('w')):
            got = base.clone_path(remote)
            check_eq(str(got), str(base / made[0]), 'clone_path of %r' % remote)
            ctx.trans()
        if name == NAMES[len(case['clone']) % 3]:
            clone_from(ctx, remote, where, made[0])
        ctx.count('named like git')
        ctx.state(remote)
        ctx.trace()


def clone_from(ctx, remote, where, name):
    """makes the repository there, once"""
    conf = dict(GIT_CONFIG_COUNT='1', GIT_CONFIG_KEY_0='url.file://%s/.git.insteadOf' % ctx.template, GIT_CONFIG_VALUE_0=remote)
    os.environ.update(conf)
    try:
        for depth in (None, 1):
            for base in (RepoPath(where), RepoPath('w')):
                with unguarded():
                    shutil.rmtree(where)
                    os.mkdir(where)
                gitx.forget(base)
                w = 'clone_from %r into %s depth %r' % (remote, base, depth)
                o = outcome(base.clone_from, remote, depth=depth) if depth else outcome(base.clone_from, remote)
                check(o[0] == 'ok', '%s: %r' % (w, o))
                check_eq(str(o[1]), str(base / name), w)
                with unguarded():
                    check_eq(os.listdir(where), [name], w + ': what is there')
                    x = os.path.join(where, name)
                    check_eq(gitx.git(x, 'rev-parse', 'HEAD'), gitx.git(ctx.template, 'rev-parse', 'HEAD'), w + ': head')
                    check_eq(int(gitx.git(x, 'rev-list', '--count', 'HEAD')), depth or int(gitx.git(ctx.template, 'rev-list', '--count', 'HEAD')),
                             w + ': commits')
                    before = snapshot(where)
                check_eq(str(o[1].working_dir), os.path.abspath(str(base / name)), w + ': working directory')
                again = outcome(base.clone_from, remote)
                check(again[0] == 'raise' and isinstance(again[1], exc.RepoExistsError), '%s again: %r' % (w, again))
                with unguarded():
                    check_eq(diff(before, snapshot(where)), {}, w + ' again: what changed')
                ctx.trans(2)
    finally:
        for k in conf:
            del os.environ[k]


def parts(uri):
    u = urlsplit(uri)
    return u.scheme, u.netloc, os.fsdecode(unquote_to_bytes(u.path)), u.query, u.fragment


def asked(ctx, root, group, repo, what, full=True):
    head = gitx.git(root, 'rev-parse', 'HEAD').decode().strip()
    first = gitx.git(root, 'rev-parse', 'HEAD~1').decode().strip()
    R = RepoPath(root).repo
    for detached in (False, True):
        if detached:
            gitx.git(root, 'checkout', '-q', '--detach')
        for ref in REFS:
            arg = {'sha': head, 'sha1': first, 'commit': R.commit(head), 'commit1': R.commit(first)}.get(ref, ref)
            want = {'sha': head, 'sha1': first, 'commit': head, 'commit1': first}.get(ref, ref)
            if want in (None, 'HEAD'):
                want = head if detached else 'master'
            for path in (PATHS if full or ref is None else PATHS[:6]):
                forms = ((None, os.path.join(root, path)), (root, path or '.'), (os.path.dirname(root), os.path.join(os.path.basename(root), path)))
                for cwd, p in (forms if full or ref is None else forms[:1]):
                    if cwd is not None:
                        os.chdir(cwd)
                    rp = RepoPath(p)
                    w = '%s, %s, ref %s, %r' % (what, 'detached' if detached else 'branch', ref, p if cwd else path)
                    tag, h = outcome(rp.remote_uri_human, arg)
                    check(tag == 'ok', '%s: remote_uri_human failed with %r', w, h)
                    tail = '/' + path if path else ''
                    check_eq(parts(h), ('https', 'github.com', '/%s/%s/blob/%s%s' % (group, repo, want, tail), '', ''), w + ': remote_uri_human %r' % h)
                    tag, m = outcome(rp.remote_uri_machine, arg)
                    check(tag == 'ok', '%s: remote_uri_machine failed with %r', w, m)
                    check_eq(parts(m), ('https', 'raw.githubusercontent.com', '/%s/%s/%s%s' % (group, repo, want, tail), '', ''),
                             w + ': remote_uri_machine %r' % m)
                    ctx.trans(2)
                    ctx.state((what, detached, ref, path))
                    ctx.trace()
        for endpoint in ('', '/releases'):
            for p in ('', 'f.py', 'missing'):
                check_eq(RepoPath(os.path.join(root, p)).remote_uri_api(endpoint), 'https://api.github.com/repos/%s/%s%s' % (group, repo, endpoint),
                         what + ': remote_uri_api')
    gitx.git(root, 'checkout', '-q', 'master')


def new(ctx, d, name, url):
    p = os.path.join(d, name)
    with unguarded():
        shutil.copytree(ctx.template, p)
        subprocess.run(['git', 'remote', 'add', 'origin', url], cwd=p, check=True)
    return p


def github(ctx, case):
    group, repo = case['repo']
    for i, tail in enumerate(TAILS):
        d = ctx.fresh()
        gitx.forget(RepoPath)
        url = case['github'] + group + '/' + repo + tail
        asked(ctx, new(ctx, d, 'w', url), group, repo, 'remote %s' % url, full=case['all'])


def local(ctx, case):
    """a clone of a clone"""
    group, repo = case['local']
    d = ctx.fresh()
    gitx.forget(RepoPath)
    a = new(ctx, d, 'a', 'https://github.com/%s/%s.git' % (group, repo))
    b = new(ctx, d, 'b', a)
    c = new(ctx, d, 'c', b)
    for x in (b, c):
        asked(ctx, x, group, repo, 'local clone', full=False)
    gitx.git(c, 'checkout', '-q', 'feature/x')
    check_eq(parts(RepoPath(c + '/f.py').remote_uri_human())[2], '/%s/%s/blob/feature/x/f.py' % (group, repo), 'local clone on another branch')


def other(ctx, case):
    """somewhere else: refused, not an address on github"""
    for url in ('https://gitlab.com/g/r.git', 'git@gitlab.com:g/r.git', 'https://example.org/github.com/r', '/nowhere', 'https://github.com.evil.org/g/r',
                'git@github.com.evil.org:g/r', 'https://notgithub.com/g/r', 'https://github.com@evil.org/g/r', 'ssh://github.com@evil.org/g/r'):
        d = ctx.fresh()
        gitx.forget(RepoPath)
        r = RepoPath(new(ctx, d, 'w', url)) / 'f.py'
        for f in (r.remote_uri_human, r.remote_uri_machine, r.remote_uri_api):
            tag, v = outcome(f)
            check(tag == 'raise' and isinstance(v, NotImplementedError), 'remote %s gives %r', url, v)
            ctx.trans()
        ctx.state(url)


def run(ctx, case):
    for k in ('clone', 'github', 'local', 'other'):
        if k in case:
            globals()[k](ctx, case)
            break
    ctx.sample(case)
