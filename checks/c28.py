"""C28: versions and releases of a package."""
import itertools
import os
import shlex
import shutil
import sys
import types

from packaging.version import Version, parse

from augpathlib.package import PackagePath, next_version
from augpathlib import RepoPath
from mc import gitx
from mc.gitx import git
from mc.harness import check, check_eq, outcome, unguarded

ID = 'C28'
LEVEL = 'model_checking'
RULE = ('versions: from every version shape every sequence of bumps (phase x component) up to the depth bound, every step has to '
        'increase, keep the epoch, reach the phase and not change its input, or be refused; repositories: every placement of '
        'tags (of this package, of packages with similar names, others) on a history of commits that touch the package or not '
        'x {package in the root of the repository, in a folder}; the tag, versions and commits since the release are compared '
        'with the history; every sequence of answers of pypi and github (through a stand-in of requests) and the command for every bump')
ASSUMPTIONS = ['one matching tag per commit', 'answers of pypi and github are given']
CHUNK = 1
CASE_LIMIT = 300
PHASES = ('current', 'dev', 'pre', 'a', 'b', 'rc', 'release', 'major', 'minor', 'micro', 'post', 'local')
COMPS = ('release', 'major', 'minor', 'micro')
RELEASES = ('0.0.0', '1.2.3', '0.0.9', '9.9.99', '1.2', '3', '1.2.3.4', '1!2.0.9')
SUFFIXES = ('', '.dev0', '.dev9', 'a0', 'a9', 'b3', 'rc0', 'rc10', '.post0', '.post9', '+1', '+9', '.dev3+2', 'rc1+0')
MIXED = ('a1.dev2', 'rc1.post3', '.post1.dev2', 'b2.post4.dev3', 'a1.post2+3')
TAGS = {True: ('pkg-0.1', 'pkg-0.2.dev0', 'pkg-extra-9.9', 'xpkg-5.0', '7.0', 'other', 'v3'),
        False: ('0.1', '0.2.dev0', 'pkg-9.9', 'v3', 'other', '1.0rc1')}


def bounds(tier):
    return '%d versions, %d phases, %d components, %d bumps deep; histories of 3 commits, %d and %d tags' % (
        len(RELEASES) * len(SUFFIXES), len(PHASES), len(COMPS), 2 if tier == 'quick' else 3, len(TAGS[True]), len(TAGS[False]))


def cases(tier):
    for r in RELEASES:
        yield {'mixed': r, 'depth': 2 if tier == 'quick' else 3}
        yield {'release': r, 'depth': 2 if tier == 'quick' else 3}
    for sub in (True, False):
        for o in ('https://github.com/org/my.repo', 'git@github.com:org/my.repo.git'):
            yield {'asked': sub, 'origin': o}
        for t in itertools.product((None, *TAGS[sub]), repeat=2):
            if tier == 'quick' and t[0] and t[1] and t[0] == t[1]:
                continue
            yield {'sub': sub, 'tags': list(t), 'thorough': tier != 'quick'}


def phase_of(v):
    if v.local is not None:
        return 'local'
    if v.is_devrelease:
        return 'dev'
    if v.pre:
        return v.pre[0]
    return 'post' if v.is_postrelease else 'release'


ORDER = ['dev', 'a', 'b', 'rc', 'release', 'post', 'local']


def mixed(v):
    return (v.pre is not None) + (v.post is not None) + (v.dev is not None) > 1


def bumped(v, phase, comp, n, what):
    check(n > v, '%s: not newer', what)
    check_eq(n.epoch, v.epoch, what + ': epoch')
    check_eq(len(n.release), len(v.release), what + ': number of components')
    if mixed(v):
        # it is in more than one phase
        if phase in ORDER:
            check_eq(phase_of(n), phase, what + ': phase')
        return
    was, now = phase_of(v), phase_of(n)
    if phase == 'current':
        check_eq(now, was, what + ': phase')
    elif phase in ('dev', 'a', 'b', 'rc', 'post', 'local', 'release'):
        check_eq(now, phase, what + ': phase')
    elif phase == 'pre':
        check_eq(now, {'dev': 'a', 'a': 'b', 'b': 'rc', 'rc': 'rc'}.get(was, 'a'), what + ': phase')
    else:
        check_eq(now, 'release', what + ': phase')
        i = ('major', 'minor', 'micro').index(phase)
        check_eq(n.release, v.release[:i] + (v.release[i] + 1,) + (0,) * (len(v.release) - i - 1), what + ': release')
    if phase == 'release' and was in ('dev', 'a', 'b', 'rc') or phase in ('post', 'local') or phase in ('dev', 'pre') and was in (
            'dev', 'a', 'b', 'rc'):
        check_eq(n.release, v.release, what + ': release')
    elif phase in ('dev', 'pre', 'a', 'b', 'rc') and was in ('release', 'post', 'local'):
        i = {'release': len(v.release) - 1, 'major': 0, 'minor': 1, 'micro': 2}[comp]
        check_eq(n.release, v.release[:i] + (v.release[i] + 1,) + (0,) * (len(v.release) - i - 1), what + ': release')


def refusal_ok(v, phase, comp):
    if mixed(v):
        return phase not in ('release', 'major')
    was = phase_of(v)
    if was == 'local' and phase in ('current', 'local'):
        return True     # it is not known how local versions count
    short = {'major': 1, 'minor': 2, 'micro': 3}
    if short.get(phase, 0) > len(v.release) or was in ('release', 'post', 'local', 'a', 'b', 'rc') and short.get(comp, 0) > len(v.release):
        return True
    return (phase == 'dev' and was in ('a', 'b', 'rc') or phase == 'post' and was != 'release' or
            phase in ('a', 'b', 'rc') and was in ('a', 'b', 'rc') and was > phase)


def versions(ctx, case):
    seen = set()

    def go(v, depth, path):
        for phase, comp in itertools.product(PHASES, COMPS):
            key = str(v), phase, comp
            what = '%s -> %s (%s)' % (path, phase, comp)
            before = str(v), v.release, v.pre, v.dev, v.post, v.local
            o = outcome(lambda: next_version(v, phase, comp))
            ctx.trans()
            ctx.evaluation(what)
            check_eq((str(v), v.release, v.pre, v.dev, v.post, v.local), before, what + ': input changed')
            if o[0] == 'raise':
                check(refusal_ok(v, phase, comp), '%s: raised %r', what, o[1])
                continue
            n = o[1]
            check(isinstance(n, Version), '%s: %r', what, n)
            check_eq(n, parse(str(n)), what + ': comparison')
            bumped(v, phase, comp, n, what + ' = %s' % n)
            ctx.state(str(n))
            if depth > 1 and (str(n), depth) not in seen:
                seen.add((str(n), depth))
                go(n, depth - 1, what + ' = %s' % n)
        ctx.trace()
    for s in SUFFIXES if 'release' in case else MIXED:
        r = case.get('release') or case['mixed']
        go(parse(r + s), case['depth'], r + s)


SETUP = 'from setuptools import setup\nsetup(name="pkg", version="0.3", packages=["pkg"])\n'


FILES = ('pkg/deep/f', 'MANIFEST.in', 'LICENSE', 'setup.py', 'pkg/__init__.py')


def repo(ctx, case, d):
    sub = case['sub']
    # with data files, and with what belongs to every release
    few = not case['tags'][1]
    manifest = 'include no-such-file\n' if few else 'recursive-include pkg *\n'
    files = FILES[1:] if few else FILES
    base = os.path.join(d, ('folder', os.path.basename(d))[len(case['tags'][0] or '') % 2]) if sub else d
    with unguarded():
        gitx.init(d)
        os.makedirs(os.path.join(base, 'pkg', 'deep'))
        for n, b in (('setup.py', SETUP), ('MANIFEST.in', manifest), ('pkg/__init__.py', ''), ('pkg/deep/f', ''), ('LICENSE', ''), ('other', '')):
            with open(os.path.join(base, n), 'w') as f:
                f.write(b)
        with open(os.path.join(d, 'unrelated'), 'w') as f:
            f.write('0')
        git(d, 'add', '-A', '.')
        git(d, 'commit', '-q', '-m', 'first')
        log = [('first', True)]
        tags = []
        for i, t in enumerate(case['tags']):
            if t:
                tags.append((t, len(log) - 1))
                if t == case['tags'][0] and i:
                    git(d, 'tag', '-d', t)
                    tags = tags[1:]
                git(d, 'tag', *(('-a', '-m', 'x') if i else ()), t)
            for mine in (i == 0, True, False, True, True, False, True):
                mine_n = sum(m for _, m in log)
                p = os.path.join(base, files[mine_n % len(files)]) if mine else os.path.join(base, 'pkg/deep/f') if few and len(log) % 4 == 3 else os.path.join(d, 'unrelated') if len(log) % 2 else os.path.join(base, 'other')
                with open(p, 'a') as f:
                    f.write('\n# x\n')
                msg = 'commit %d "q" \'q\' é%s' % (len(log), ('', "'", '"', "''")[len(log) % 4])
                git(d, 'add', '-A', '.')
                git(d, 'commit', '-q', '-m', msg)
                log.append((msg, mine))

    def matches(t):
        v = t[4:] if sub and t.startswith('pkg-') else None if sub else t
        return v if v and v[0].isdigit() else None
    mine = [(t, i) for t, i in tags if matches(t)]
    want_tag = mine[-1][0] if mine else None
    gitx.forget(RepoPath)
    for at in ('', 'pkg', 'pkg/deep', 'pkg/deep/f', 'setup.py'):
        p = PackagePath(os.path.join(base, at))
        what = '%s tags %s at %r' % ('folder' if sub else 'root', case['tags'], at)
        check_eq(str(p.folder), base, what + ': folder')
        check_eq(str(p.setup_file), os.path.join(base, 'setup.py'), what + ': setup_file')
        if at in ('pkg', 'setup.py') and not case['thorough']:
            continue
        check_eq(p.arg_packagename, 'pkg', what + ': name')
        check_eq(str(p.version_repo), '0.3', what + ': version')
        check_eq(bool(p.tag_prefix), sub, what + ': prefix')
        check_eq(p.tag, want_tag, what + ': tag')
        check_eq(p.version_tag, parse(matches(want_tag)) if want_tag else None, what + ': version_tag')
        check_eq(str(p.module_init_file), os.path.join(base, 'pkg/__init__.py'), what + ': module')
        o = outcome(p.commits_since_last_release)
        check(o[0] == 'ok', '%s: commits raised %r', what, o[1])
        since = [m for m, my in log[mine[-1][1] + 1 if mine else 0:] if my]
        got = [e.split(' ', 3)[3] for e in o[1]]
        check_eq(got, since[::-1], what + ': commits since the release')
        entries = git(d, 'log', '--format=%aI %an %h %s').decode().splitlines()
        check_eq(o[1], [e for e in entries if e.split(' ', 3)[3] in since], what + ': what is said about the commits')
        names = [t for t in TAGS[sub]]
        for k in range(len(names) + 1):
            some = names[::-1][k:] + names[::-1][:k] if k < len(names) else [t for t in names if not matches(t)]
            p._github_json = [{'tag_name': t} for t in some]
            newest = [t for t in some if matches(t)] or [None]
            check_eq(p.tag_latest_github, newest[0], what + ': tag_latest_github of %s' % some)
            check_eq(p.version_latest_github, newest[0] and parse(matches(newest[0])), what + ': version_latest_github')
        for rel, latest in ((['0.1', '0.10', '0.9'], '0.10'), (['1.0', '1.1.dev0'], '1.1.dev0'), (['1.0rc1', '1.0'], '1.0')):
            for order in itertools.permutations(rel):
                p._pypi_json = {'info': {'version': latest}, 'releases': {r: [] for r in order}}
                check_eq(p.version_latest_released, parse(latest), what + ': version_latest_released of %s' % (order,))
            for ph in ('current', 'major'):
                check_eq(p.version_next(ph), next_version(parse(latest), ph), what + ': version_next')
        p._pypi_json = None
        check_eq(p.version_next(), parse('0.3'), what + ': version_next of an unreleased package')
        ctx.trans()
        ctx.evaluation(what)
    with unguarded():
        # .. is where the link leads
        os.makedirs(os.path.join(d, 'pk2'))
        with open(os.path.join(d, 'pk2', 'setup.py'), 'w') as f:
            f.write(SETUP)
        os.symlink(os.path.join(base, 'pkg/deep'), os.path.join(d, 'pk2/link'))
    for q in ('pk2/link/..', 'pk2/link/../deep/f'):
        check_eq(str(PackagePath(d, q).folder), base, 'folder of %r' % q)
    check_eq(str(PackagePath(d, 'pk2/../pk2/no').folder), os.path.join(d, 'pk2'), 'folder with ..')
    ctx.state((sub, tuple(case['tags'])))
    ctx.trace()
    gitx.forget(RepoPath)


ANSWERS = (200, 404, 403, 500)


class Answer:
    def __init__(self, url, status, data):
        self.url, self.status_code, self.ok, self.data = url, status, status < 400, data

    def json(self):
        return self.data


def asked(ctx, case, d):
    """what pypi and github say, and the command for a release"""
    sub = case['asked']
    base = os.path.join(d, 'repo', 'some', 'where') if sub else os.path.join(d, 'repo')
    with unguarded():
        os.makedirs(base)
        gitx.init(os.path.join(d, 'repo'))
        os.makedirs(os.path.join(base, 'pkg'))
        for n, b in (('setup.py', SETUP), ('pkg/__init__.py', '')):
            with open(os.path.join(base, n), 'w') as f:
                f.write(b)
        git(os.path.join(d, 'repo'), 'add', '-A', '.')
        git(os.path.join(d, 'repo'), 'commit', '-q', '-m', 'first')
        git(os.path.join(d, 'repo'), 'remote', 'add', 'origin', case['origin'])
    gitx.forget(RepoPath)
    log, script = [], []

    def get(url, *a, **k):
        log.append(url)
        status = script.pop(0)
        return Answer(url, status, {'status': status, 'n': len(log)})
    fake = types.ModuleType('requests')
    fake.get = get
    fake.Session = lambda: types.SimpleNamespace(headers={}, get=get)
    before = sys.modules.get('requests')
    sys.modules['requests'] = fake
    try:
        urls = {'pypi_json': 'https://pypi.org/pypi/pkg/json', 'github_json': 'https://api.github.com/repos/org/my.repo/releases'}
        for what, url in urls.items():
            for seq in itertools.product(ANSWERS, repeat=3):
                p = PackagePath(os.path.join(base, 'pkg'))
                log.clear()
                script[:] = seq
                known = None
                for i in range(4):
                    want = list(log)
                    if known is None and script:
                        want.append(url)
                        if script[0] == 200:
                            known = {'status': 200, 'n': len(want)}
                    elif known is None:
                        break
                    got = getattr(p, what)
                    check_eq(got, known, '%s of answers %r, asked %d times' % (what, seq, i + 1))
                    check_eq(log, want, '%s of answers %r: requests' % (what, seq))
                    ctx.trans()
                ctx.state((what, seq))
                ctx.trace()
        script[:] = [404] * 8
        p = PackagePath(os.path.join(base, 'pkg'))
        for f in ('version_latest_pypi', 'version_latest_released', 'version_latest_github', 'tag_latest_github'):
            check_eq(getattr(p, f), None, f + ' of something that is not there')
    finally:
        if before is None:
            del sys.modules['requests']
        else:
            sys.modules['requests'] = before
    for at in ('', 'pkg', 'pkg/__init__.py', 'setup.py', 'missing'):
        for rel in (False, True):
            if rel:
                os.chdir(base)
            p = PackagePath(at if rel else os.path.join(base, at))
            what = '%s %r of %s, origin %s' % ('relative' if rel else 'absolute', at, 'folder' if sub else 'root', case['origin'])
            check_eq((p.arg_org, p.arg_repo, str(p.arg_folder), p.arg_packagename), ('org', 'my.repo', 'repo/some/where' if sub else 'repo', 'pkg'),
                     what + ': arguments')
            p._pypi_json = {'info': {'version': '0.3'}, 'releases': {'0.3': [], '0.2': []}}
            for ph, co in itertools.product(PHASES, COMPS):
                v = outcome(p.version_next, ph, co)
                if v[0] != 'ok':
                    continue
                check_eq(v[1], next_version(parse('0.3'), ph, co), what + ': version_next')
                check_eq(shlex.split(p.command(ph, co)), ['build-release', 'org', 'my.repo', 'repo/some/where' if sub else 'repo', 'pkg', str(v[1])],
                         what + ': command')
                ctx.trans()
            ctx.evaluation(what)
    o = outcome(lambda: PackagePath(d).folder)
    check(o[0] == 'raise' and isinstance(o[1], ValueError), 'folder without setup.py: %r', o)
    gitx.forget(RepoPath)


def run(ctx, case):
    if 'asked' in case:
        asked(ctx, case, os.path.join(ctx.fresh(), 'x'))
        return
    if 'release' in case or 'mixed' in case:
        versions(ctx, case)
    else:
        repo(ctx, case, os.path.join(ctx.fresh(), 'x'))
