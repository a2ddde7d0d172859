"""C26: working on another branch in a with block leaves no trace."""
import itertools
import os
import shutil

import git as gitpython
from augpathlib import RepoPath
from augpathlib import exceptions as exc
from mc import gitx
from mc.gitx import git
from mc.harness import Violation, check, check_eq, outcome, unguarded
from checks.c25 import put, index_put, look, tree, work, VAL

ID = 'C26'
LEVEL = 'model_checking'
RULE = ('cases = every state of a tracked file (index x working tree) x {nothing, untracked, ignored, newly staged file, all} x '
        '{no stash, stash of the user} x kind of reference {other branch, another branch at the same commit, same branch}; each with every program out of a set '
        'of bodies (changes, deletions, staging, commits, stashes, exceptions, nested blocks, the same reference twice); the '
        'state at the start of the block and after it is compared with the model; references that cannot be entered change nothing')
ASSUMPTIONS = ['states git itself cannot restore from a stash only have to be kept in the stash; what git stash push --all / pop --index of the installed git does with a state is the reference for restoring it']
CHUNK = 1
CASE_LIMIT = 400
EXTRA = ('none', 'untracked', 'ignored', 'staged', 'all')


def programs(o):
    """o: the other reference for nested blocks"""
    yield []
    yield ['mod']
    yield ['del']
    yield ['new']
    yield ['stage']
    yield ['commit']
    yield ['mod', 'stash']
    yield ['mod', 'stash', 'new']
    yield ['mod', 'stash', 'new', 'stash', 'mod', 'stash', 'mod', 'stash', 'del']
    yield ['raise']
    yield ['mod', 'raise']
    yield [['o', []]]
    yield ['mod', ['o', []]]
    yield ['new', ['m', ['mod']]]
    yield ['mod', ['o', ['new']]]
    yield [['o', ['mod']], 'new']
    yield ['mod', ['o', ['new', 'raise']]]
    yield [['again', []]]
    yield ['mod', ['again', ['new']]]
    yield [['o', ['mod', ['m', ['new']]]]]
    yield ['chdir branch']
    yield ['ign']
    yield ['mod', ['o', ['ign']]]
    yield [['again', ['ign', 'raise']]]
    yield ['mod', ['t', ['new', 'commit']]]


def bounds(tier):
    return '12 states of a file, %d kinds of other files, 2 stash states, 3 references, 25 bodies' % len(EXTRA)


def cases(tier):
    for ref in ('other', 'same', 'twin'):
        for idx in (0, 1, 2):
            for wt in (0, 1, 2, 3):
                for ex in EXTRA:
                    if tier == 'quick' and ref == 'twin' and ex not in ('none', 'all'):
                        continue
                    if tier == 'quick' and ex in ('untracked', 'staged') and (idx + wt) % 2:
                        continue
                    for st in (False, True):
                        if tier == 'quick' and st != bool((idx + wt) % 2) and ex != 'all':
                            continue
                        yield {'ref': ref, 'index': idx, 'work': wt, 'extra': ex, 'stash': st}
    for kind in ('tag', 'invalid', 'detached'):
        yield {'kind': kind}


def template(d):
    """the repository all cases start from"""
    gitx.init(d)
    put(os.path.join(d, '.gitignore'), 0)
    gitx.commit(d, 'base', {'.gitignore': b'*.ignored\n', 'keep': b'keep'})
    git(d, 'branch', 'other')
    put(os.path.join(d, 'f'), 1)
    git(d, 'add', 'f')
    git(d, 'commit', '-q', '-m', 'on master')
    git(d, 'checkout', '-q', 'other')
    put(os.path.join(d, 'f'), 4)
    # what is untracked or staged on master is tracked here
    put(os.path.join(d, 'u'), 2)
    put(os.path.join(d, 'n'), 2)
    git(d, 'add', 'f', 'u', 'n')
    git(d, 'commit', '-q', '-m', 'on other')
    git(d, 'tag', 'atag')
    git(d, 'checkout', '-q', 'master')
    git(d, 'branch', 'twin')    # the same commit as master


def dirty(d, case):
    if case['stash']:
        put(os.path.join(d, 'keep'), 4)
        git(d, 'stash', 'push', '-q')
    if case['index'] != 1:
        index_put(d, 'f', case['index'])
    put(os.path.join(d, 'f'), case['work'])
    ex = case['extra']
    if ex in ('untracked', 'all'):
        put(os.path.join(d, 'u'), 1)
    if ex in ('ignored', 'all'):
        put(os.path.join(d, 'x.ignored'), 1)
    if ex in ('staged', 'all'):
        put(os.path.join(d, 'n'), 1)
        git(d, 'add', 'n')
    git(d, 'status', '-s')


def commits(body, branch, on):
    """does this body make a commit on that branch"""
    return 'commit' in body and branch == on or any(
        commits(a[1], {'o': 'other', 'm': 'master', 't': 'twin', 'again': branch}[a[0]], on) for a in body if isinstance(a, list))


class Boom(Exception):
    pass


class Program:
    def __init__(self, d, what):
        self.d, self.what = d, what
        self.added = []         # how many stashes there have to be in the end
        self.n = 0

    def clean(self):
        return not git(self.d, 'status', '--porcelain', '--ignored').strip()

    def check_start(self, branch):
        d = self.d
        check_eq(git(d, 'symbolic-ref', 'HEAD').decode().strip(), 'refs/heads/' + branch, self.what + ': branch in the block')
        check(self.clean(), '%s: not clean at the start of the block', self.what)
        check_eq(set(work(d)), set(tree(d, branch)), self.what + ': files in the block')

    def stashes(self):
        return git(self.d, 'stash', 'list', '--format=%H').split()

    def action(self, repo, ref, branch, a):
        self.n += 1
        p = lambda n: os.path.join(self.d, n)
        with unguarded():
            if isinstance(a, list):
                pass
            elif a == 'mod':
                with open(p('keep'), 'ab') as f:
                    f.write(b'mod %d' % self.n)
                self.dirty = True
            elif a == 'del':
                os.unlink(p('keep'))
                self.dirty = True
            elif a == 'new':
                put(p('u'), 3)
                self.dirty = True
            elif a == 'ign':
                put(p('left.ignored'), 3)
                self.dirty = True
            elif a == 'stage':
                put(p('f'), 3)
                git(self.d, 'add', 'f')
                self.dirty = True
            elif a == 'commit':
                put(p('c'), 3)
                git(self.d, 'add', 'c')
                git(self.d, 'commit', '-q', '-m', 'in the block')
            elif a == 'stash':
                git(self.d, 'stash', 'push', '-q', '--all')
                self.expect.append(self.stashes()[0])
                self.dirty = False
            elif a == 'chdir branch':
                git(self.d, 'checkout', '-q', '-b', 'third')
            elif a == 'raise':
                raise Boom()
        if isinstance(a, list):
            which, body = a
            if which == 'again':
                inner, b = ref, branch
            else:
                b = {'o': 'other', 'm': 'master', 't': 'twin'}[which]
                inner = repo.heads[b]
            self.block(inner, b, body)

    def block(self, ref, branch, body):
        """run a block; before and after have to be the same, apart from what was left in it"""
        repo = RepoPath(self.d).repo
        with unguarded():
            start = look(self.d)
            outer_dirty = getattr(self, 'dirty', False)
            outer_expect = getattr(self, 'expect', [])
        self.expect = []
        self.dirty = False
        error = None
        try:
            with ref:
                with unguarded():
                    self.check_start(branch)
                for a in body:
                    self.action(repo, ref, branch, a)
        except Boom as e:
            error = e
        new = len(self.expect) + bool(self.dirty)
        with unguarded():
            end = look(self.d)
        left = end['stash'].split()[:new]
        check(set(self.expect) <= set(left), '%s: stashes made in the block are gone', self.what)
        committed = commits(body, branch, start['branch'].decode().strip().split('/')[-1])
        self.compare(start, end, new, committed)
        if self.dirty:
            # the changes made in the block are in the newest stash
            files = git(self.d, 'stash', 'show', '--include-untracked', '--name-only', 'stash@{0}')
            check(bool(files.strip()), '%s: the changes made in the block are not in the newest stash', self.what)
        self.expect = outer_expect + left
        self.dirty = outer_dirty
        if error is not None:
            raise error

    def compare(self, start, end, new, committed):
        w = self.what
        check_eq(end['branch'], start['branch'], w + ': branch')
        check_eq(end['stash'].split()[new:], start['stash'].split(), w + ': stashes that were there before')
        check_eq(len(end['stash'].split()), len(start['stash'].split()) + new, w + ': number of stashes')
        s, e = (start, end) if not committed else [dict(x, head='', work={k: v for k, v in x['work'].items() if k != 'c'}, index={
            k: v for k, v in x['index'].items() if k != 'c'}) for x in (start, end)]
        check_eq(e['head'], s['head'], w + ': head')
        check_eq(e['work'], self.restored(s, 'work'), w + ': working tree')
        check_eq(e['index'], self.restored(s, 'index'), w + ': index')

    def restored(self, s, k):
        """what git itself makes of the state the outermost block starts with"""
        return self.git_says[k] if self.git_says and s[k] == self.started[k] else s[k]


def refused(ctx, case, root):
    n = 0
    for idx, wt, ex, st in itertools.product((0, 1, 2), (0, 1, 2, 3), EXTRA, (False, True)):
        n += 1
        d = os.path.join(root, 'x%d' % n)
        c = {'index': idx, 'work': wt, 'extra': ex, 'stash': st}
        gitx.forget(RepoPath)
        with unguarded():
            template(d)
            if case['kind'] == 'detached':
                git(d, 'checkout', '-q', '--detach')
            dirty(d, c)
            before = look(d)
            again = os.path.join(root, 'y')
            shutil.copytree(d, again, symlinks=True)
            git(again, 'stash', 'push', '-q', '--all', check=False)
            if len(git(again, 'stash', 'list').split(b'\n')) != len(git(d, 'stash', 'list').split(b'\n')):
                git(again, 'stash', 'pop', '-q', '--index', check=False)
            says = look(again)
            shutil.rmtree(again)
        repo = RepoPath(d).repo
        ref = {'tag': lambda: repo.tags['atag'], 'invalid': lambda: gitpython.Head(repo, 'refs/heads/nope'),
               'detached': lambda: repo.heads['other']}[case['kind']]()
        entered = []

        def go():
            with ref:
                entered.append(1)
        o = outcome(go)
        what = 'entering %s with %r' % (case['kind'], c)
        with unguarded():
            after = look(d)
        if not entered:
            check(o[0] == 'raise', '%s: no error', what)
            if case['kind'] == 'invalid':
                check(isinstance(o[1], exc.InvalidRefError), '%s: %r', what, o[1])
        for k in before:
            check(after[k] in (before[k], says[k]), '%s: %s changed: %s, was %s', what, k, after[k], before[k])
        ctx.trans()
        ctx.trace()
        ctx.evaluation(what)
        ctx.state((what, sorted(after['index'])))
        gitx.forget(RepoPath)
        with unguarded():
            shutil.rmtree(d)


def unrestorable(ctx, case, root, base):
    """git itself cannot restore such a state from a stash: nothing may be lost"""
    for i, body in enumerate(programs(None)):
        if any(isinstance(a, list) or a in ('stash', 'commit', 'chdir branch') for a in body):
            continue
        d = os.path.join(root, 'x%d' % i)
        gitx.forget(RepoPath)
        with unguarded():
            shutil.copytree(base, d, symlinks=True)
            git(d, 'status', '-s')
            start = look(d)
        branch = 'master' if case['ref'] == 'same' else case['ref']
        what = '%r: with %s: %r' % ({k: v for k, v in case.items() if k != 'ref'}, branch, body)
        ref = RepoPath(d).repo.heads[branch]
        p = Program(d, what)
        p.dirty, p.expect = False, []
        entered = []

        def go():
            with ref as got:
                check(got is ref, '%s: as gives %r', what, got)
                with unguarded():
                    p.check_start(branch)
                    entered.append(p.stashes())
                for a in body:
                    p.action(None, ref, branch, a)
        o = outcome(go)
        with unguarded():
            end = look(d)
        check(o[0] == 'raise', '%s: no error although the state cannot have been restored', what)
        check(bool(entered) or not isinstance(o[1], Violation), '%s: %r', what, o[1])
        check_eq(end['branch'], start['branch'], what + ': branch')
        check_eq(end['head'], start['head'], what + ': head')
        check(bool(entered) and set(entered[0]) <= set(end['stash'].split()), '%s: the changes are not in a stash', what)
        check(set(start['stash'].split()) <= set(end['stash'].split()), '%s: stashes of the user are gone', what)
        ctx.trans()
        ctx.trace()
        ctx.evaluation(what)
        ctx.state((what, repr(end)[:300]))
        gitx.forget(RepoPath)
        with unguarded():
            shutil.rmtree(d)


def run(ctx, case):
    root = ctx.fresh()
    if 'kind' in case:
        return refused(ctx, case, root)
    base = os.path.join(root, 'base')
    with unguarded():
        template(base)
        dirty(base, case)
        started = look(base)
        again = os.path.join(root, 'again')
        shutil.copytree(base, again, symlinks=True)
        n = len(git(again, 'stash', 'list').split(b'\n'))
        git(again, 'stash', 'push', '-q', '--all')
        says = None
        if len(git(again, 'stash', 'list').split(b'\n')) != n:
            git(again, 'stash', 'pop', '-q', '--index', check=False)
            if len(git(again, 'stash', 'list').split(b'\n')) == n:
                says = look(again)
        else:
            says = look(again)
        shutil.rmtree(again)
    if says is None:
        return unrestorable(ctx, case, root, base)
    for i, body in enumerate(programs(None)):
        d = os.path.join(root, 'x%d' % i)
        gitx.forget(RepoPath)
        with unguarded():
            shutil.copytree(base, d, symlinks=True)
            git(d, 'status', '-s')
        branch = 'master' if case['ref'] == 'same' else case['ref']
        what = '%r: with %s: %r' % ({k: v for k, v in case.items() if k != 'ref'}, branch, body)
        p = Program(d, what)
        p.git_says, p.started = says, started
        try:
            p.block(RepoPath(d).repo.heads[branch], branch, body)
        except Boom:
            check('raise' in repr(body), 'harness')
        except Violation:
            raise
        except Exception as e:
            raise Violation('%s: raised %r' % (what, e))
        ctx.trans()
        ctx.trace()
        ctx.evaluation(what)
        ctx.state((what, repr(look(d))[:300]))
        gitx.forget(RepoPath)
        with unguarded():
            shutil.rmtree(d)
