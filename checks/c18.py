"""C18: moving a cached path never loses or overwrites anything."""
import errno
import os
import signal

from augpathlib import PathMeta
from augpathlib import exceptions as exc
from mc import harness, sync
from mc.fakes import Node, Server
from mc.fsx import snapshot
from mc.harness import Violation, check, check_eq, outcome, unguarded
from checks.c17 import Armed, setup_worker, MUT     # noqa: the hooks of C17
from checks import c17

ID = 'C18'
LEVEL = 'fault_enumeration'
RULE = ('cases = every source (placeholder, fetched file, empty directory, directory with placeholder or file) x everything '
        'that can be at the target (nothing, missing parents, the same object as placeholder / file / directory, another '
        'object of each kind, untracked file and directory, foreign links) x how the target is given (remote, path); for '
        'each: no fault, every file system event failing, the process dying at every event; what was there before must be '
        'at its place, at the target or in the trash, refused moves change nothing, and a failed or interrupted move can be '
        'repeated')
ASSUMPTIONS = ['in-memory remote', 'one fault per execution (thorough: pairs)']
CHUNK = 1
CASE_LIMIT = 300
SRC = {'placeholder': ('d1/f', 'F'), 'file': ('d1/f', 'F'), 'dir placeholder': ('d1/e', 'E'), 'dir file': ('d1/e', 'E'),
       'dir empty': ('d1/ee', 'EE')}
TGT = ('absent', 'no parent', 'no parents', 'same placeholder', 'same file', 'same file same content', 'same dir',
       'same dir full', 'other placeholder', 'other file', 'other dir', 'other empty dir', 'untracked file',
       'untracked empty file', 'untracked dir', 'untracked empty dir', 'foreign link', 'foreign link one part', 'link to dir', 'link to file')


def bounds(tier):
    return '%d sources x %d targets x 2 ways, every single fault and crash point%s' % (
        len(SRC), len(TGT), '' if tier == 'quick' else ', pairs of faults')


def cases(tier):
    yield {'arguments': True}
    for s in SRC:
        for t in TGT:
            if s.startswith('dir') and t == 'same placeholder':
                continue    # there are no placeholders for directories
            for how in ('remote', 'path'):
                for up in (False, True):
                    yield {'source': s, 'target': t, 'how': how, 'updated': up, 'pairs': tier != 'quick'}


class World:
    def __init__(self, root, case):
        self.case = case
        with unguarded():
            os.mkdir(root)
        s = self.s = Server([
            Node('R', 'proj', None, 'dir'), Node('D1', 'd1', 'R', 'dir'), Node('D2', 'd2', 'R', 'dir'),
            Node('F', 'f', 'D1', 'file', b'F data'), Node('E', 'e', 'D1', 'dir'), Node('K', 'k', 'E', 'file', b'K data'),
            Node('EE', 'ee', 'D1', 'dir'), Node('G', 'g', 'D2', 'file', b'G data!'), Node('H', 'h', 'D2', 'dir'),
            Node('HK', 'hk', 'H', 'file', b'HK data'), Node('HE', 'he', 'D2', 'dir')])
        c = sync.Client(s, os.path.join(root, 'proj'))
        c.bootstrap()
        sk, tk = case['source'], case['target']
        self.src, self.id = SRC[sk]
        if sk == 'file':
            c.p('d1', 'f').cache.fetch()
        if sk == 'dir file':
            c.p('d1', 'e', 'k').cache.fetch()
        m = c.p(*self.src.split('/')).cache.meta
        t = 'd2/new'
        tp = os.path.join(c.root, t)
        isfile = self.id == 'F'
        if tk == 'same placeholder':
            c.C(tp, meta=m)
        with unguarded():
            if tk in ('same file', 'same file same content'):
                self.write(tp, b'F data' if tk.endswith('content') else b'other version')
            elif tk.startswith('same dir'):
                os.mkdir(tp)
                if tk.endswith('full'):
                    self.write(tp + '/x', b'inside')
            elif tk == 'untracked file':
                self.write(tp, b'untracked')
            elif tk == 'untracked empty file':
                self.write(tp, b'')
            elif tk == 'untracked empty dir':
                os.mkdir(tp)
            elif tk == 'untracked dir':
                os.mkdir(tp)
                self.write(tp + '/x', b'inside')
            elif tk == 'foreign link':
                os.symlink('nowhere/else', tp)
            elif tk == 'foreign link one part':
                os.symlink('nowhere', tp)
            elif tk == 'link to dir':
                os.symlink('../d1', tp)
            elif tk == 'link to file':
                self.write(os.path.join(c.root, 'elsewhere'), b'elsewhere')
                os.symlink('../elsewhere', tp)
        if tk in ('same file', 'same file same content') or tk.startswith('same dir'):
            c.L(tp).cache_init(m)
        elif tk == 'other placeholder':
            t = 'd2/g'
        elif tk == 'other file':
            t = 'd2/g'
            c.p('d2', 'g').cache.fetch()
        elif tk == 'other dir':
            t = 'd2/h'
        elif tk == 'other empty dir':
            t = 'd2/he'
        elif tk == 'no parent':
            t = 'nn/new'
            s.add('NN', 'nn', 'R', 'dir')
        elif tk == 'no parents':
            t = 'nn/mm/new'
            s.add('NN', 'nn', 'R', 'dir')
            s.add('MM', 'mm', 'NN', 'dir')
        node = s.nodes[self.id]
        *d, node.name = t.split('/')
        node.parent = {'d2': 'D2', 'nn': 'NN', 'nn/mm': 'MM'}['/'.join(d)]
        if case['updated']:
            node.version += 5       # the move is newer than what was cached
        self.tgt = t
        self.c = c.restart()
        self.before = self.inventory()
        self.bytes0 = set(self.c.contents())

    @staticmethod
    def write(p, b):
        with open(p, 'wb') as f:
            f.write(b)

    def path(self, rel):
        return os.path.join(self.c.root, rel)

    def move(self):
        cache = self.c.p(*self.src.split('/')).cache
        if self.case['how'] == 'remote':
            return cache.move(remote=self.c.R(self.id))
        return cache.move(target=self.c.p(*self.tgt.split('/')), meta=cache.meta)

    def id_at(self, p):
        o = outcome(lambda: self.c.C(p).meta)
        return o[1].id if o[0] == 'ok' and o[1] is not None else None

    def inventory(self):
        """{relative path: (kind, content, id)} of everything, trash included"""
        out = {}
        with unguarded():
            todo = []
            for dp, dn, fn in os.walk(self.c.root):
                for n in dn + fn:
                    p = os.path.join(dp, n)
                    if os.path.islink(p):
                        k = ('link', os.readlink(p))
                    elif os.path.isdir(p):
                        k = ('dir', None)
                    else:
                        with open(p, 'rb') as f:
                            k = ('file', f.read())
                    todo.append((os.path.relpath(p, self.c.root), p, k))
        for rel, p, k in todo:
            out[rel] = k + (self.id_at(p) if not (k[0] == 'link' and os.path.exists(p)) else None,)
        return out


def expectation(case):
    sk, tk, how = case['source'], case['target'], case['how']
    d = sk.startswith('dir')
    if tk in ('absent', 'no parent', 'no parents', 'same placeholder'):
        return 'moved'
    if tk == 'same file' and how == 'remote' and case['updated']:
        return 'refused'    # local changes and a new version
    if tk.startswith('same file'):
        return 'refused' if d else 'moved' if sk == 'file' else 'merged'
    if tk in ('same dir', 'untracked empty dir'):
        return 'moved' if d else 'refused'
    if tk == 'same dir full':
        return 'refused' if not d else 'moved' if sk == 'dir empty' else 'stays'
    if tk == 'other file':
        return 'replaced' if how == 'remote' and not d else 'refused'
    if tk == 'other placeholder':
        # the placeholder of an older object goes to the trash when the remote says so
        return 'replaced or refused' if how == 'remote' and not d else 'refused'
    return 'refused'


def lost(w):
    """bytes and ids that cannot be found any more"""
    inv = w.inventory()
    bytes1 = {v[1] for v in inv.values() if v[0] == 'file'}
    b = w.bytes0 - bytes1
    if not any(v[:2] == ('file', b'') for v in w.before.values()):
        b.discard(b'')
    ids0 = {v[2] for v in w.before.values() if v[2]}
    ids1 = {v[2] for v in inv.values() if v[2]}
    out = []
    if b:
        out.append('content %s' % sorted(b))
    if ids0 - ids1:
        out.append('metadata of %s' % sorted(ids0 - ids1))
    # what has no metadata must not be touched at all
    for p, (k, d, i) in w.before.items():
        if i is None and not p.startswith('.operations') and not p.startswith(w.src + '/'):
            if k == 'dir' and not any(q.startswith(p + '/') for q in w.before) and inv.get(p, ('',))[0] == 'dir':
                continue    # an empty directory became that of the moved one
            if inv.get(p) != (k, d, i):
                out.append('untracked %s is %s' % (p, inv.get(p)))
    return out


def judge(w, want, o, what):
    inv = w.inventory()
    if want == 'replaced or refused':
        want = 'refused' if o[0] == 'raise' else 'replaced'
    if want == 'refused':
        check(o[0] == 'raise', '%s: did not raise', what)
        check_eq(inv, w.before, what + ': refused but changed')
        return
    check(o[0] == 'ok', '%s: raised %r', what, o[1])
    ex = inv.get(w.tgt)
    check(ex is not None and ex[2] == w.id, '%s: at the target is %s', what, ex)
    if want == 'stays':
        src = {p: v for p, v in w.before.items() if p == w.src or p.startswith(w.src + '/')}
        check_eq({p: inv.get(p) for p in src}, src, what + ': source')
        check_eq(inv.get(w.tgt + '/x'), w.before.get(w.tgt + '/x'), what)
        return
    check(w.src not in inv, '%s: still at the source: %s', what, inv.get(w.src))
    if w.case['target'] == 'same dir full':
        return
    for p, (k, d, i) in w.before.items():
        if p == w.src or p.startswith(w.src + '/'):
            q = w.tgt + p[len(w.src):]
            if want == 'merged':
                check_eq(inv[w.tgt][:2], w.before[w.tgt][:2], what + ': target')
            elif k != 'link':
                check_eq(inv.get(q), (k, d, i), what + ': ' + q)
            elif want == 'replaced':
                # fetched because something with content was there
                check(inv[q][0] in ('link', 'file') and inv[q][2] == i and inv[q][1] in (
                    b'F data',) or inv[q][0] == 'link', '%s: %s is %s', what, q, inv.get(q))
            else:
                check(inv.get(q) is not None and inv[q][0] == 'link' and inv[q][2] == i, '%s: %s is %s', what, q, inv.get(q))
    # everything else is where it was
    if want != 'replaced':
        for p, v in w.before.items():
            if p != w.src and not p.startswith(w.src + '/') and p != w.tgt:
                check_eq(inv.get(p), v, what + ': ' + p)


def arguments(ctx, world):
    """a move that does not say where to or what to put there is refused"""
    for given in ((), ('target',), ('meta',)):
        w = world()
        cache = w.c.p(*w.src.split('/')).cache
        kw = {'target': w.c.p(*w.tgt.split('/')), 'meta': cache.meta}
        o = outcome(lambda: cache.move(**{k: kw[k] for k in given}))
        what = 'move given %s' % (given or 'nothing',)
        check(o[0] == 'raise' and isinstance(o[1], TypeError), '%s: %r', what, o)
        check_eq(w.inventory(), w.before, what + ': refused but changed')
        ctx.state(what)
        ctx.trans()
        ctx.trace()
        ctx.evaluation(what)


def run(ctx, case):
    root = ctx.fresh()
    n = [0]

    def world():
        n[0] += 1
        return World(os.path.join(root, 'x%d' % n[0]), case if 'source' in case else {
            'source': 'file', 'target': 'absent', 'how': 'path', 'updated': False})

    if 'arguments' in case:
        return arguments(ctx, world)
    what = 'move %s to %s (given as %s)%s' % (case['source'], case['target'], case['how'],
                                             ', newer metadata' if case['updated'] else '')
    want = expectation(case)
    w = world()
    events = []

    def rec(n, ev):
        events.append(ev)
    with Armed(None, rec)(w):
        o = outcome(w.move)
    judge(w, want, o, what)
    check_eq(lost(w), [], what + ': lost')
    ctx.state((what, sorted(w.inventory().items(), key=repr)))
    ctx.trace()
    ctx.evaluation((what, 'no fault'))
    if want == 'refused':
        return
    nev = len(events)
    sets = [(k,) for k in range(1, nev + 1)]
    if case['pairs']:
        sets += [(a, b) for a in range(1, nev + 1) for b in range(a + 1, nev + 4)]
    for ks in sets:
        for e in (errno.ENOSPC, errno.EACCES) if len(ks) == 1 else (errno.EIO,):
            w = world()

            def fn(n, ev):
                if n in ks:
                    raise OSError(e, os.strerror(e))
            what2 = '%s, %s' % (what, ' and '.join('event %d (%s) fails with %s' % (
                k, events[k - 1] if k <= nev else '?', errno.errorcode[e]) for k in ks))
            with Armed(None, fn)(w):
                o = outcome(w.move)
            ctx.trans()
            ctx.evaluation(what2)
            check_eq(lost(w), [], what2 + ': lost')
            ctx.state((what2, sorted(w.inventory().items(), key=repr)))
            ctx.trace()
            if len(ks) == 1:
                if o[0] == 'ok':
                    judge_done(w, want, o, what2)
                else:
                    undone(w, what2)
                    again(w, want, what2)
    for k in range(1, nev + 1):
        w = world()
        pid = os.fork()
        if pid == 0:
            try:
                def fn(n, ev):
                    if n == k:
                        os._exit(1)
                with Armed(None, fn)(w):
                    outcome(w.move)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        what2 = '%s, process dies before event %d (%s)' % (what, k, events[k - 1])
        ctx.trans()
        ctx.evaluation(what2)
        check_eq(lost(w), [], what2 + ': lost')
        ctx.state((what2, sorted(w.inventory().items(), key=repr)))
        ctx.trace()
        again(w, want, what2)


def judge_done(w, want, o, what):
    """no error: it must have been done"""
    inv = w.inventory()
    if want == 'replaced or refused':
        return
    ex = inv.get(w.tgt)
    check(ex is not None and ex[2] == w.id, '%s: no error, but at the target is %s', what, ex)
    if want != 'stays' and not w.case['target'].startswith('same dir'):
        check(w.src not in inv, '%s: no error, but still at the source: %s', what, inv.get(w.src))


def undone(w, what):
    """it raised: if nothing was moved what was in the way is still there"""
    if w.case['target'] != 'same placeholder':
        return
    inv = w.inventory()
    if inv.get(w.src) == w.before[w.src]:
        ex = inv.get(w.tgt, (None, None, None))
        check((ex[0], ex[2]) == ('link', w.id), '%s: raised, and instead of the placeholder at the target is %s', what, ex)


def again(w, want, what):
    w.c = w.c.restart()
    inv = w.inventory()
    if w.src in inv:
        o = outcome(w.move)
        # a crash before the data is fetched again leaves an empty file behind, which is not replaced
        left = inv.get(w.tgt, ())[:2] == ('file', b'')
        check(o[0] == 'ok' or want == 'replaced or refused' or left, '%s: doing it again raised %r', what, o[1])
        if o[0] == 'raise' and left:
            check_eq(lost(w), [], what + ', refused when done again: lost')
            return
        inv = w.inventory()
    if want == 'replaced or refused':
        return
    ex = inv.get(w.tgt)
    check(ex is not None and ex[2] == w.id, '%s: after doing it again at the target is %s', what, ex)
    if want != 'stays':
        check(w.src not in inv, '%s: after doing it again still at the source: %s', what, inv.get(w.src))
    check_eq(lost(w), [], what + ', done again: lost')
