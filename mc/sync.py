"""Remote trees, changes of them, and a client that follows them."""
import itertools
import os

from augpathlib import PathMeta
from mc.fakes import Node, Server, make, anchor_here
from mc.metas import mismatch

OPS = '.operations'


def build(spec):
    """spec: list of (parent index or -1, kind); object i is called n<i> and has id I<i>"""
    nodes = [Node('R', 'proj', None, 'dir')]
    for i, (p, kind) in enumerate(spec):
        nodes.append(Node('I%d' % i, 'n%d' % i, 'R' if p < 0 else 'I%d' % p, kind,
                          b'data of %d' % i if kind == 'file' else b''))
    return Server(nodes)


def shapes(n):
    """all forests of exactly n objects in canonical (preorder-ish) form"""
    seen = set()

    def canon(spec):
        def sub(i):
            kids = sorted(sub(j) for j, (p, _) in enumerate(spec) if p == i)
            return ((spec[i][1] if i >= 0 else 'dir'), tuple(kids))
        return sub(-1)

    def go(spec):
        if len(spec) == n:
            c = canon(spec)
            if c not in seen:
                seen.add(c)
                yield spec
            return
        for p in range(-1, len(spec)):
            if p >= 0 and spec[p][1] != 'dir':
                continue
            for kind in ('dir', 'file'):
                yield from go(spec + [(p, kind)])
    return go([])


def ancestors(s, i):
    out = []
    while i is not None:
        out.append(i)
        i = s.nodes[i].parent
    return out


def dirs(s):
    return [n for n in s.nodes.values() if n.kind == 'dir']


def changes(s, names=('new',), add=True):
    """every single change of the remote"""
    for n in list(s.nodes.values()):
        if n.parent is None:
            continue
        if n.kind == 'file':
            yield ('content', n.id)
            yield ('empty', n.id)
        yield ('touch', n.id)
        yield ('delete', n.id)
        for nm in names:
            if nm != n.name:
                yield ('rename', n.id, nm)
        for d in dirs(s):
            if d.id != n.parent and n.id not in ancestors(s, d.id):
                yield ('move', n.id, d.id)
    if add:
        for d in dirs(s):
            for nm in names:
                for kind in ('file', 'dir'):
                    yield ('add', d.id, nm, kind)


def apply(s, ch):
    n = s.nodes.get(ch[1])
    k = ch[0]
    if k == 'content':
        n.data = b'new ' + n.data
        n.version += 10
    elif k == 'empty':
        n.data = b''
        n.version += 10
    elif k == 'touch':
        n.version += 10
    elif k == 'rename':
        n.name = ch[2]
        n.version += 10
    elif k == 'move':
        n.parent = ch[2]
        n.version += 10
    elif k == 'delete':
        for c in s.kids(n.id):
            apply(s, ('delete', c.id))
        del s.nodes[n.id]
    elif k == 'add':
        i = len(s.nodes)
        while 'X%d' % i in s.nodes:
            i += 1
        s.add('X%d' % i, ch[2], ch[1], ch[3], b'added' if ch[3] == 'file' else b'')


def valid(s):
    return all(len({x.name for x in s.kids(d.id)}) == len(s.kids(d.id)) for d in dirs(s))


def paths(s):
    return {'/'.join(s.path(i)): i for i in s.nodes if s.nodes[i].parent is not None}


def collides(before, after):
    """some path now belongs to another object"""
    return any(p in before and before[p] != i for p, i in after.items())


def sequences(spec, depth, names, mk=build):
    def go(seq, k):
        s = mk(spec)
        for c in seq:
            apply(s, c)
        if seq and valid(s):
            yield list(seq)
        if k:
            for c in list(changes(s, names)):
                yield from go(seq + (c,), k - 1)
    return go((), depth)


# ------------------------------------------------------------------- client

class Client:
    def __init__(self, server, root, **kw):
        self.s = server
        self.L, self.C, self.R, self.h = make(server, **kw)
        self.root = root
        anchor_here(self.L, self.C, self.R, self.h, root)

    def restart(self):
        """a new process: fresh classes, the same directory"""
        return Client(self.s, self.root)

    def p(self, *rel):
        return self.L(os.path.join(self.root, *rel))

    def bootstrap(self, **kw):
        return list(self.p().cache.remote.bootstrap(recursive=True, **kw))

    def local(self):
        """{relative path: (kind or content, PathMeta or None)}"""
        out = {}
        for dp, dn, fn in os.walk(self.root):
            if dp == self.root and OPS in dn:
                dn.remove(OPS)
            for n in sorted(dn + fn):
                p = os.path.join(dp, n)
                c = self.L(p).cache
                if os.path.islink(p):
                    k = 'link'
                elif os.path.isdir(p):
                    k = 'dir'
                else:
                    with open(p, 'rb') as f:
                        k = f.read()
                out[os.path.relpath(p, self.root)] = (k, None if c is None else c.meta)
        return out

    def refresh_all(self, bottom_up=False, untracked=False):
        for p in sorted(self.local(), key=lambda p: (p.count('/'), p), reverse=bottom_up):
            l = self.p(p)
            if (l.exists() or l.is_symlink()) and not (untracked and (l.cache is None or l.cache.id is None)):
                l.cache.refresh()

    def contents(self):
        """bytes of every regular file below the root, trash included"""
        out = []
        for dp, dn, fn in os.walk(self.root):
            for n in fn:
                p = os.path.join(dp, n)
                if not os.path.islink(p):
                    with open(p, 'rb') as f:
                        out.append(f.read())
        return out

    def trashed_ids(self):
        out = {}
        t = os.path.join(self.root, OPS, 'trash')
        for dp, dn, fn in os.walk(t):
            for n in dn + fn:
                p = os.path.join(dp, n)
                m = self.C(p).meta
                out.setdefault(m.id, []).append(p)
        return out


def expected(s, fetched=()):
    out = {}
    for n in s.nodes.values():
        if n.parent is not None:
            out['/'.join(s.path(n.id))] = ('dir' if n.kind == 'dir' else n.data if n.id in fetched else 'link', n.meta())
    return out


def difference(got, want, relaxed=False, ignore=()):
    """relaxed: a placeholder is fine where content is wanted"""
    out = []
    for p in sorted(set(got) | set(want)):
        if p not in got:
            out.append(('missing', p))
        elif p not in want:
            out.append(('extra', p, got[p][0]))
        else:
            (k, m), (wk, wm) = got[p], want[p]
            if k != wk and not (relaxed and k == 'link' and wk != 'dir'):
                out.append((p, 'is', k, 'should be', wk))
            if m is None:
                out.append((p, 'has no metadata'))
            else:
                mm = {f: v for f, v in mismatch(m, dict(wm.items())).items() if f not in ignore}
                if mm:
                    out.append((p, 'metadata', mm))
    return out
