"""C24: which repository a path belongs to."""
import itertools
import os
import shutil
import subprocess

import augpathlib as aug
from augpathlib import RepoPath
from augpathlib import exceptions as exc
from mc import gitx
from mc.harness import check, check_eq, outcome, unguarded

ID = 'C24'
LEVEL = 'model_checking'
RULE = ('cases = every first two operations out of {init, clone, commit, rmtree of the repository / of its parent, removal behind '
        'the back, renaming a repository, a repository whose .git is a file, looking} on nested and sibling directories; extended by every operation up to the '
        'depth bound; after every operation every path (existing or not, absolute and relative, from every directory) is '
        'asked for its working directory, its relative path and its commits, and compared with the file system')
ASSUMPTIONS = ['paths without .. components and links',
               'no repository is put behind the back of the library where it has used another one (git keeps a process per '
               'repository)']
CHUNK = 1
CASE_LIMIT = 300
DIRS = ('a', 'a/s', 'b')
OPS = ([('init', d) for d in DIRS] + [('clone', d) for d in ('a', 'b')] + [('commit', d) for d in DIRS] +
       [('rmtree', d) for d in DIRS] + [('aug rmtree', d) for d in ('a', 'b')] + [('gone', d) for d in DIRS] +
       [('rename', 'a', 'b'), ('rename', 'b', 'a'), ('other init', 'a'), ('other init', 'b'),
        ('gitdir init', 'a/s'), ('gitdir init', 'b')])


def bounds(tier):
    return '%d operations, depth %d' % (len(OPS), 3 if tier == 'quick' else 4)


def cases(tier):
    for a in OPS:
        if tier == 'quick':
            yield {'prefix': [list(a)], 'depth': 3}
        else:
            for b in OPS:
                yield {'prefix': [list(a), list(b)], 'depth': 4}


PROBES = ('', 'a', 'a/f', 'a/s', 'a/s/f', 'a/s/new/x', 'b', 'b/f', 'other/x')


class World:
    def __init__(self, root, template):
        self.root, self.template = root, template
        self.n = 0
        self.logs = {}
        with unguarded():
            os.mkdir(root)
        self.old = {}
        self.seen = set()
        gitx.forget(RepoPath)

    def p(self, rel):
        return os.path.join(self.root, rel) if rel else self.root

    def has(self, d):
        return os.path.exists(os.path.join(self.p(d), '.git'))

    def inside(self, d):
        return self.nearest(self.p(d)) is not None

    def nearest(self, p):
        while p != '/':
            if os.path.exists(os.path.join(p, '.git')):
                return p
            p = os.path.dirname(p)

    def drop(self, d):
        for k in list(self.logs):
            if k == d or k.startswith(d + '/'):
                del self.logs[k]

    def do(self, op):
        """-> None if the operation makes no sense here"""
        k, d = op[0], op[1]
        p = self.p(d)
        rp = RepoPath(p)
        if k == 'init' or k == 'clone':
            ok = not self.inside(d) and (k == 'init' or not os.path.exists(p) or not os.listdir(p))
            o = outcome(rp.init, self.template) if k == 'clone' else outcome(rp.init)
            check((o[0] == 'ok') == ok, '%s: %r', op, o)
            if ok:
                check(self.has(d), '%s: there is no repository', op)
                self.logs[d] = ['T\n'] if k == 'clone' else []
                self.seen.discard(d)
                check_eq(o[1].working_dir, p, '%s: working dir of the repository returned' % (op,))
            elif os.path.isdir(p):
                check(isinstance(o[1], exc.RepoExistsError) or k == 'clone', '%s: %r', op, o[1])
        elif k == 'commit':
            if not self.has(d):
                return
            self.n += 1
            with unguarded():
                gitx.commit(p, 'c%d' % self.n, {'f': b'%d' % self.n})
            self.logs[d].insert(0, 'c%d\n' % self.n)
        elif k in ('rmtree', 'aug rmtree', 'gone'):
            if not os.path.isdir(p):
                return
            if k == 'rmtree':
                rp.rmtree()
            elif k == 'aug rmtree':
                aug.AugmentedPath(p).rmtree()
            else:
                with unguarded():
                    shutil.rmtree(p)
            check(not os.path.exists(p), '%s: still there', op)
            self.drop(d)
            if k == 'rmtree':
                self.seen.discard(d)
        elif k == 'rename':
            q = self.p(op[2])
            if not os.path.exists(p) or os.path.exists(q) or any(
                    op[2] + r[len(d):] in self.seen for r in self.logs if r == d or r.startswith(d + '/')):
                return
            with unguarded():
                os.rename(p, q)
            for r in list(self.logs):
                if r == d or r.startswith(d + '/'):
                    self.logs[op[2] + r[len(d):]] = self.logs.pop(r)
        elif k in ('other init', 'gitdir init'):
            if os.path.exists(p) or d in self.seen or not os.path.isdir(os.path.dirname(p)):
                return
            with unguarded():
                shutil.copytree(self.template, p)
                if k == 'gitdir init':  # as submodules and linked working trees have it
                    self.n += 1
                    g = os.path.join(self.root, '.gitdirs', '%d' % self.n)
                    shutil.move(os.path.join(p, '.git'), g)
                    with open(os.path.join(p, '.git'), 'w') as f:
                        f.write('gitdir: %s\n' % g)
            self.logs[d] = ['T\n']
        return True

    def look(self, ctx, what):
        for rel in PROBES:
            p = self.p(rel)
            near = self.nearest(p)
            objs = [('', p, RepoPath(p))]
            if p not in self.old:
                self.old[p] = RepoPath(p)
            objs.append(('old object ', p, self.old[p]))
            for cwd in {self.root, os.path.dirname(p), p}:
                if os.path.isdir(cwd):
                    r = os.path.relpath(p, cwd)
                    if not r.startswith('..'):
                        objs.append(('from %s ' % cwd, r, RepoPath(r)))
            for label, spelled, x in objs:
                ctx.evaluation()
                if label.startswith('from '):
                    os.chdir(label[5:-1])
                w = '%s: %s%s' % (what, label, spelled)
                wd = outcome(lambda: x.working_dir)
                check(wd[0] == 'ok', '%s: working_dir raised %r', w, wd[1])
                check_eq(None if wd[1] is None else str(wd[1]), near, w + ': working_dir')
                o = outcome(lambda: x.repo)
                if near is None:
                    check(o[0] == 'raise' and isinstance(o[1], exc.NotInRepoError), '%s: repo: %r', w, o)
                    o = outcome(lambda: x.repo_relative_path)
                    check(o[0] == 'raise' and isinstance(o[1], exc.NotInRepoError), '%s: relative path: %r', w, o)
                else:
                    check(o[0] == 'ok', '%s: repo raised %r', w, o[1])
                    self.seen.add(os.path.relpath(near, self.root))
                    check_eq(o[1].working_dir, near, w + ': repo.working_dir')
                    rr = outcome(lambda: x.repo_relative_path)
                    check(rr[0] == 'ok', '%s: repo_relative_path raised %r', w, rr[1])
                    check_eq(str(rr[1]), os.path.relpath(p, near), w + ': repo_relative_path')
                    log = self.logs[os.path.relpath(near, self.root)]
                    if log and p == near and label in ('', 'old object '):
                        got = outcome(lambda: [c.message for c in x.commits()])
                        check_eq(got, ('ok', log), w + ': commits')
                        check_eq(x.latest_commit().message, log[0], w + ': latest commit')
                os.chdir('/')


def run(ctx, case):
    root = ctx.fresh()
    n = [0]
    ctx.template = os.path.join(root, 'template')
    with unguarded():
        gitx.init(ctx.template)
        gitx.commit(ctx.template, 'T', {'f': b'T'})

    def execute(prog):
        n[0] += 1
        w = World(os.path.join(root, 'x%d' % n[0]), ctx.template)
        w.look(ctx, 'nothing')
        for i, op in enumerate(prog):
            if not w.do(op):
                return None
            w.look(ctx, ' '.join(map(str, prog[:i + 1])))
            ctx.trans()
        ctx.state(sorted(w.logs.items()))
        return w

    def extend(prog):
        w = execute(prog)
        ctx.trace()
        if w is None:
            return      # makes no sense, longer ones do not either
        with unguarded():
            shutil.rmtree(w.root, ignore_errors=True)
        if len(prog) < case['depth']:
            for op in OPS:
                extend(prog + [op])
    extend([tuple(o) for o in case['prefix']])
