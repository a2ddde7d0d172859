"""C33: whatever interrupts or is in the way of following the remote, doing it again mirrors it."""
import errno
import os
import shutil
import stat as statmod

from augpathlib import exceptions as exc
from mc import sync
from mc import fsx
from mc.fsx import snapshot
from mc.harness import check, check_eq, outcome, unguarded, observe
from checks import c17
from checks.c17 import Armed, MUT, setup_worker     # noqa: the hooks of C17

ID = 'C33'
LEVEL = 'fault_enumeration'
RULE = ('interrupted: every remote tree up to a number of objects x {first bootstrap, following every single change by bootstrap or by '
        'refreshing parents first} x every file system event failing (out of space, input/output error) or the process dying before it; '
        'afterwards everything that was fetched is still there, and doing the same again in a new process gives the mirror of the remote; '
        'in the way: every place of a tree x everything that can be there without belonging to the remote; nothing of it is lost, the '
        'other objects are mirrored or bootstrap fails')
ASSUMPTIONS = ['an in-memory remote', 'one interruption per history (thorough: pairs)', 'an object does not take the path of another one']
CHUNK = 1
CASE_LIMIT = 300
WAY = ('empty dir', 'dir with file', 'file', 'empty file', 'link', 'link to dir', 'fifo')


def bounds(tier):
    n = 3 if tier == 'quick' else 4
    return 'all trees <= %d objects first bootstrap, <= %d objects one change; every event failing or dying; %d things in the way' % (n, n - 1, len(WAY))


def cases(tier):
    quick = tier == 'quick'
    for n in range(1, 4 if quick else 5):
        for spec in sync.shapes(n):
            yield {'first': spec}
            if n < (3 if quick else 4):
                for ch in sync.changes(sync.build(spec), ('new', 'n0') if quick else ('new', 'n0', 'n1')):
                    yield {'spec': spec, 'change': list(ch), 'pairs': not quick and n < 3}
            if n < (3 if quick else 4):
                yield {'way': spec}


class World:
    def __init__(self, root, case):
        with unguarded():
            os.mkdir(root)
        spec = [tuple(x) for x in case.get('first', case.get('spec', case.get('way')))]
        self.s = s = sync.build(spec)
        self.c = sync.Client(s, os.path.join(root, 'proj'))
        self.kept, self.files = [], []
        if 'change' in case:
            self.c.bootstrap()
            self.files = [i for i in s.nodes if s.nodes[i].kind == 'file']
            for i in self.files:
                self.c.p(*s.path(i)).cache.fetch()
            self.kept = sorted(set(self.c.contents()))
            before = sync.paths(s)
            sync.apply(s, tuple(case['change']))
            self.valid = sync.valid(s) and not sync.collides(before, sync.paths(s))
            self.c = self.c.restart()

    def go(self, plan):
        for p in plan:
            if p == 'b':
                self.c.bootstrap()
            else:
                self.c.refresh_all(untracked=True)


def mirrored(w, what, relaxed, leftover=False):
    now = [i for i in w.files if i in w.s.nodes]
    got = {p: (k, m) for p, (k, m) in w.c.local().items()
           if not (leftover and k == b'' and (m is None or m.id is None))}     # a file that was to be fetched, nobody's
    check_eq(sync.difference(got, sync.expected(w.s, now), relaxed), [], what + ': local tree differs')


def kept(w, what):
    left = set(w.c.contents())
    lost = [d for d in w.kept if d not in left]
    check(not lost, '%s: lost the local data %s', what, lost)


def again(ctx, w, what, plan, relaxed):
    kept(w, what)
    w.c = w.c.restart()
    o = outcome(w.go, plan)
    check(o[0] == 'ok', '%s, again: raised %r', what, o[1])
    kept(w, what + ', again')
    for i in w.files:
        if i in w.s.nodes:
            o = outcome(lambda: w.c.p(*w.s.path(i)).cache.fetch(size_limit_mb=None))
            check(o[0] == 'ok', '%s, again, fetch: raised %r', what, o[1])
    kept(w, what + ', again, fetch')
    mirrored(w, what + ', again', relaxed, leftover=True)
    snap = snapshot(w.c.root)
    o = outcome(w.c.bootstrap)
    check(o[0] == 'ok', '%s, once more: raised %r', what, o[1])
    check_eq(snapshot(w.c.root), snap, what + ', once more: something changes')
    ctx.state((what, sorted((p, str(k)) for p, (k, m) in w.c.local().items())))
    ctx.trace()


def interrupted(ctx, root, case):
    n = [0]

    def world():
        n[0] += 1
        return World(os.path.join(root, 'x%d' % n[0]), case)
    w = world()
    if 'change' in case and not w.valid:
        ctx.count('an object takes the path of another one')
        return
    relaxed = 'change' in case and case['change'][0] == 'delete'
    for plan in ('b',) if 'first' in case else ('rrb', 'brrb'):
        w = world()
        events = []

        def rec(ev, paths):
            if ev in MUT or ev.startswith('xattr.'):
                events.append(ev)
        with observe(rec):
            c17._hook['fn'] = rec
            o = outcome(w.go, plan)
            c17._hook['fn'] = None
        base = '%s, %s' % (case, plan)
        check(o[0] == 'ok', '%s: raised %r', base, o[1])
        mirrored(w, base, relaxed)
        N = len(events)
        sets = [(k,) for k in range(1, N + 1)]
        if case.get('pairs'):
            sets += [(a, b) for a in range(1, N + 1) for b in range(a + 1, min(a + 6, N + 4))]
        for ks in sets:
            for how in ('ENOSPC', 'EIO', 'dies'):
                if how == 'ENOSPC' and (len(ks) > 1 or ctx.tier == 'quick'):
                    continue
                w = world()
                what = '%s, event %s (%s) %s' % (base, ks, events[ks[-1] - 1] if ks[-1] <= N else '?', how)

                def fn(i, ev):
                    if i in ks:
                        if how == 'dies' and i == ks[-1]:
                            os._exit(1)
                        e = errno.EIO if how == 'dies' else getattr(errno, how)
                        raise OSError(e, os.strerror(e))
                ctx.evaluation(what)
                ctx.trans()
                if how == 'dies':
                    pid = os.fork()
                    if pid == 0:
                        try:
                            with Armed(None, fn)(w):
                                outcome(w.go, plan)
                        finally:
                            os._exit(0)
                    os.waitpid(pid, 0)
                else:
                    with Armed(None, fn)(w):
                        outcome(w.go, plan)
                again(ctx, w, what, plan, relaxed)


def put(p, kind):
    with unguarded():
        if kind == 'link to dir':
            os.symlink('..', p)
        elif kind == 'link':
            os.symlink('nowhere/at all', p)
        elif kind == 'fifo':
            os.mkfifo(p)
        elif kind in ('empty dir', 'dir with file'):
            os.mkdir(p)
            if kind == 'dir with file':
                with open(os.path.join(p, 'x'), 'wb') as f:
                    f.write(b'untracked')
        else:
            with open(p, 'wb') as f:
                f.write(b'untracked' if kind == 'file' else b'')


def there(p, kind):
    """what was put there is still there, at least what it holds"""
    st = os.lstat(p)
    if kind in ('empty dir', 'dir with file'):
        if not statmod.S_ISDIR(st.st_mode):
            return False
        return kind == 'empty dir' or there(os.path.join(p, 'x'), 'file')
    if kind == 'fifo':
        return statmod.S_ISFIFO(st.st_mode)
    if 'link' in kind:
        return statmod.S_ISLNK(st.st_mode) and os.readlink(p) == ('..' if 'dir' in kind else 'nowhere/at all')
    with open(p, 'rb') as f:
        return statmod.S_ISREG(st.st_mode) and f.read() == (b'untracked' if kind == 'file' else b'')


def in_the_way(ctx, root, case):
    spec = [tuple(x) for x in case['way']]
    n = 0
    for i in range(len(spec)):
        for kind in WAY:
            for below in (False, True):
                if below and spec[i][1] == 'file':
                    continue
                for late in (False, True):      # after a first bootstrap or before
                    n += 1
                    w = World(os.path.join(root, 'x%d' % n), case)
                    if late:
                        w.c.bootstrap()
                    rel = w.s.path('I%d' % i)
                    rel = list(rel) + ['untracked'] if below else list(rel)
                    p = os.path.join(w.c.root, *rel)
                    with unguarded():
                        os.makedirs(os.path.dirname(p), exist_ok=True)
                        if late and os.path.lexists(p):
                            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
                    put(p, kind)
                    what = '%s at %s of %s%s' % (kind, os.path.join(*rel), spec, ' (after a bootstrap)' if late else '')
                    ctx.evaluation(what)
                    done = None
                    for turn in ('', ', again'):
                        w.c = w.c.restart()
                        o = outcome(w.c.bootstrap)
                        ctx.trans()
                        with unguarded():
                            ok = os.path.lexists(p) and there(p, kind)
                        check(ok, '%s%s: what was there is gone', what, turn)
                        if done is not None:
                            check(o[0] == 'ok', '%s%s: raised %s', what, turn, type(o[1]))
                            check_eq(fsx.snapshot(w.c.root, xattrs=True), done, '%s%s: something changes' % (what, turn))
                        if o[0] == 'ok':
                            done = fsx.snapshot(w.c.root, xattrs=True)
                            others(w, os.path.join(*rel), kind, what + turn)
                    ctx.state((what, o[0]))
                    ctx.trace()


def others(w, rel, kind, what):
    """everything that is not at the path or below it is as it should be"""
    with unguarded():
        if kind == 'fifo' or kind == 'link to dir':
            os.unlink(os.path.join(w.c.root, rel))
    bad = [d for d in sync.difference(w.c.local(), sync.expected(w.s), True)
           if not any(isinstance(x, str) and (x == rel or x.startswith(rel + '/')) for x in d[:2])]
    check_eq(bad, [], what + ': local tree differs')
    with unguarded():
        if kind == 'fifo' or kind == 'link to dir':
            put(os.path.join(w.c.root, rel), kind)


def run(ctx, case):
    root = ctx.fresh()
    if 'way' in case:
        in_the_way(ctx, root, case)
    else:
        interrupted(ctx, root, case)
