"""C34: making a directory on the remote."""
import errno
import itertools
import os

from augpathlib import exceptions as exc
from mc import sync
from mc.fakes import Node, Server
from mc.fsx import diff, snapshot
from mc.harness import check, check_eq, observe, outcome, unguarded
from mc import harness

ID = 'C34'
LEVEL = 'model_checking'
RULE = ('cases = every first request for a directory (tracked, new, below new, where something untracked, a file, a placeholder or a link is, '
        'where only the remote has something, where the remote lost it, outside the project) x with and without parents x how the path is '
        'spelled, extended by every sequence of requests up to the depth bound; after each both sides are compared with the model; for each '
        'request every file system event and every call of the remote failing, followed by an update and the same request')
ASSUMPTIONS = ['in-memory remote that refuses a second object of the same name', 'one process, one fault per execution']
CHUNK = 2
CASE_LIMIT = 300
MUT = harness.MUTATIONS

PATHS = ('n', 'n/m', 'n/m/o.p', 'd', 'd/n.v1.x', 'd/n/m', 'd/e', 'd/e/n', 'x', 'x/n', 'x/y', 'x/y/n', 'u', 'u/n', 'u/n/m', 'f', 'f/n', 'g', 'g/n', 'r',
         'r/n', 'gone', 'gone/n', 'b', 'b/n', '../out', '../out/n', '')


def bounds(tier):
    return '%d paths x parents, sequences of %d requests, every single fault' % (len(PATHS), 2 if tier == 'quick' else 3)


def cases(tier):
    for p in PATHS:
        for parents in (False, True):
            for how in ('absolute', 'relative'):
                yield {'path': p, 'parents': parents, 'how': how, 'depth': 2 if tier == 'quick' else 3}
            yield {'path': p, 'parents': parents, 'faults': True}


class World:
    def __init__(self, root):
        with unguarded():
            os.mkdir(root)
            os.mkdir(os.path.join(root, 'out'))
        s = self.s = Server([
            Node('R', 'proj', None, 'dir'), Node('D', 'd', 'R', 'dir'), Node('E', 'e', 'D', 'dir'), Node('F', 'f', 'R', 'file', b'F data'),
            Node('G', 'g', 'R', 'file', b'G data'), Node('GO', 'gone', 'R', 'dir')])
        c = self.c = sync.Client(s, os.path.join(root, 'proj'))
        c.bootstrap()
        c.p('g').cache.fetch()
        del s.nodes['GO']
        s.add('RR', 'r', 'R', 'dir')
        with unguarded():
            r = c.root
            os.makedirs(r + '/x/y')
            for n in ('u', 'x/in', 'x/y/in'):
                with open(os.path.join(r, n), 'w') as f:
                    f.write('untracked')
            os.symlink('no/where', r + '/b')
        self.c = c.restart()
        self.root = root
        self.calls = 0
        self.fail_at = None
        R = self.c.R
        orig = R._mkdir_child

        def counted(rself, name):
            self.calls += 1
            if self.calls == self.fail_at:
                raise OSError(errno.EIO, 'the remote cannot be reached')
            if rself.id not in s.nodes or s.nodes[rself.id].kind != 'dir':
                raise exc.NoRemoteFileWithThatIdError(rself.id)
            return orig(rself, name)
        R._mkdir_child = counted

    def disk(self):
        return snapshot(self.root, xattrs=True)

    def server(self):
        return {i: (n.name, n.parent, n.kind, n.data, n.version) for i, n in self.s.nodes.items()}

    def id_of(self, p):
        try:
            with unguarded():
                return os.getxattr(p, 'user.vp.id', follow_symlinks=False).decode()
        except OSError:
            return None

    def request(self, rel, parents, how):
        p = os.path.normpath(os.path.join(self.c.root, rel))
        if how == 'relative':
            os.chdir(self.c.root if not rel.startswith('..') else self.root)
            p = os.path.relpath(p)
        try:
            l = self.c.L(p)
            o = outcome(lambda: l.mkdir_remote(parents=parents) if parents else l.mkdir_remote())
            self.cached = None
            if o[0] == 'ok' and getattr(o[1], 'cache', None) is not None:
                self.cached = o[1].cache.id, os.path.abspath(str(o[1].cache))
            return o
        finally:
            os.chdir(self.root)

    def model(self, rel, parents):
        """(what has to be made, below what) or None if it has to be refused"""
        p = os.path.normpath(os.path.join(self.c.root, rel))
        if self.id_of(p) is not None or os.path.islink(p):
            return None
        todo = []
        while self.id_of(p) is None:
            if os.path.lexists(p) and (os.path.islink(p) or not os.path.isdir(p)):
                return None
            todo.append(p)
            p = os.path.dirname(p)
            if p in (self.root, '/'):
                return None
        pid = self.id_of(p)
        if not os.path.isdir(p) or pid not in self.s.nodes or len(todo) > 1 and not parents:
            return None
        if any(n.name == os.path.basename(todo[-1]) for n in self.s.kids(pid)):
            return None
        return todo[::-1], pid


def one(ctx, w, rel, parents, how, what):
    want = w.model(rel, parents)
    disk, server = w.disk(), w.server()
    tag, r = w.request(rel, parents, how)
    ctx.trans()
    ctx.evaluation(what)
    if want is None:
        check(tag == 'raise', '%s: not refused, returned %r', what, r)
        check(isinstance(r, (exc.AugPathlibError, OSError, ValueError)), '%s: refused with %r', what, r)
        p = os.path.normpath(os.path.join(w.c.root, rel))
        if w.id_of(p) in w.s.nodes:
            check(isinstance(r, exc.RemotePathExistsError), '%s: is on the remote already, refused with %r', what, r)
        check_eq(w.server(), server, what + ': refused, remote')
        check_eq(diff(disk, w.disk()), {}, what + ': refused, files')
        return
    check(tag == 'ok', '%s: raised %r', what, r)
    todo, pid = want
    # the remote has exactly the new directories
    new = {i: n for i, n in w.server().items() if i not in server}
    check_eq({i: n for i, n in w.server().items() if i in server}, server, what + ': what the remote had before')
    check_eq(len(new), len(todo), what + ': number of new directories on the remote')
    for p in todo:
        ids = [i for i, n in new.items() if n[:3] == (os.path.basename(p), pid, 'dir')]
        check_eq(len(ids), 1, '%s: %s on the remote' % (what, os.path.basename(p)))
        pid = ids[0]
        check(os.path.isdir(p) and not os.path.islink(p), '%s: %s is not here', what, p)
        check_eq(w.id_of(p), pid, '%s: id of %s here' % (what, p))
        m = w.c.C(p).meta
        check_eq((m.id, m.name), (pid, os.path.basename(p)), '%s: metadata of %s here' % (what, p))
    check_eq(r.id, pid, what + ': returned remote')
    check_eq(w.cached, (pid, todo[-1]), what + ': cache of the remote')
    # nothing else is different
    rels = {os.path.relpath(p, w.root) for p in todo}
    check_eq({k: v for k, v in diff(disk, w.disk()).items() if k not in rels}, {}, what + ': other files')


def run(ctx, case):
    root = ctx.fresh()
    n = [0]

    def world():
        n[0] += 1
        return World(os.path.join(root, 'w%d' % n[0]))
    if case.get('faults'):
        return faults(ctx, case, world)
    first = (case['path'], case['parents'])
    alls = [(p, q) for p in PATHS for q in (False, True)]
    for prog in itertools.product(*([[first]] + [alls] * (case['depth'] - 1))):
        w = world()
        what = ''
        for rel, parents in prog:
            what += '%smkdir_remote(%r%s)' % (what and ', ', rel, ', parents' if parents else '')
            one(ctx, w, rel, parents, case['how'], '%s (%s)' % (what, case['how']))
        # what was made can be seen by others
        ctx.state((prog, sorted(w.server().items())))
        ctx.trace()
        with unguarded():
            harness.force_rmtree(w.root)
    ctx.sample(case)


def faults(ctx, case, world):
    rel, parents = case['path'], case['parents']
    what = 'mkdir_remote(%r%s)' % (rel, ', parents' if parents else '')
    w = world()
    want = w.model(rel, parents)
    if want is None:
        ctx.count('refused')
        return
    events = []

    def rec(ev, paths):
        if ev in MUT or 'xattr' in ev:
            events.append(ev)
    with observe(rec):
        w.request(rel, parents, 'absolute')
    ncalls = w.calls
    armed = [('event', k, e) for k in range(1, len(events) + 1) for e in (errno.ENOSPC, errno.EACCES)]
    armed += [('call', k, None) for k in range(1, ncalls + 1)]
    armed += [('crash', k, None) for k in range(1, len(events) + 1)]
    for kind, k, e in armed:
        w = world()
        disk, server = w.disk(), w.server()
        what2 = '%s, %s %d%s fails' % (what, kind, k, ' (%s)' % events[k - 1] if kind != 'call' else '')
        if kind == 'call':
            w.fail_at = k
            o = w.request(rel, parents, 'absolute')
        else:
            c = [0]

            def hook(ev, paths):
                if ev in MUT or 'xattr' in ev:
                    c[0] += 1
                    if c[0] == k:
                        if kind == 'crash':
                            os._exit(1)
                        raise OSError(e, os.strerror(e))

            def do():
                with observe(hook):
                    return w.request(rel, parents, 'absolute')
            if kind == 'crash':
                # what the process did to the remote is there whatever happens to the process
                r, wfd = os.pipe()
                orig = w.c.R._mkdir_child

                def told(rself, name):
                    new = orig(rself, name)
                    os.write(wfd, ('%s\0%s\0' % (rself.id, name)).encode())
                    return new
                pid = os.fork()
                if pid == 0:
                    try:
                        w.c.R._mkdir_child = told
                        do()
                    finally:
                        os._exit(0)
                os.close(wfd)
                os.waitpid(pid, 0)
                with os.fdopen(r, 'rb') as f:
                    got = f.read().decode().split('\0')[:-1]
                for parent, name in zip(got[::2], got[1::2]):
                    w.s.add('%s.%s' % (parent, name), name, parent, 'dir')
                o = ('raise', None)
            else:
                o = do()
        ctx.trans()
        ctx.evaluation(what2)
        if kind == 'call':
            check(o[0] == 'raise', '%s: no error', what2)
            if k == 1:
                check_eq(w.server(), server, what2 + ': remote')
                check_eq(diff(disk, w.disk()), {}, what2 + ': files')
        # what was there is still there
        check_eq({i: n for i, n in w.server().items() if i in server}, server, what2 + ': what the remote had before')
        lost = [p for p, v in disk.items() if p not in w.disk() or (w.disk()[p][0] == 'f' and w.disk()[p] != v)]
        check_eq(lost, [], what2 + ': files that were there before')
        # an id here is the id of that directory there
        for dp, dn, fn in os.walk(w.c.root):
            for d in dn:
                i = w.id_of(os.path.join(dp, d))
                if i in w.s.nodes:
                    check_eq('/'.join(w.s.path(i)), os.path.relpath(os.path.join(dp, d), w.c.root), '%s: place of %s' % (what2, i))
        # after looking at the remote again it can be made (or it is there)
        w.c = w.c.restart()
        w.fail_at = None
        o = outcome(w.c.bootstrap)
        check(o[0] == 'ok', '%s: bootstrap raised %r', what2, o[1])
        o = w.request(rel, parents, 'absolute')
        check(o[0] == 'ok' or isinstance(o[1], exc.RemotePathExistsError), '%s: the same again raised %r', what2, o[1])
        todo, pid = want
        for p in todo:
            kids = [n.id for n in w.s.kids(pid) if n.name == os.path.basename(p)]
            check_eq(len(kids), 1, '%s, again: %s on the remote' % (what2, os.path.basename(p)))
            pid = kids[0]
            check_eq(w.id_of(p), pid, '%s, again: id of %s here' % (what2, p))
        ctx.state((what2, sorted(w.server().items())))
        ctx.trace()
    ctx.sample(case)
