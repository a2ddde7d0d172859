"""C40: updating a cache from its remote object."""
import itertools
import os

from augpathlib import exceptions as exc
from mc import sync
from mc.fakes import Node, Server, when
from mc.fsx import diff, snapshot
from mc.harness import check, check_eq, outcome, unguarded
from mc.metas import mismatch

ID = 'C40'
LEVEL = 'model_checking'
RULE = ('cases = {file, directory} x local state {placeholder, fetched, fetched and edited, already what the remote has now} x every '
        'sequence of changes of the object on the remote up to the depth bound x every way to update from the remote object {its own '
        'cache, without fetching, with the cache passed in, with the cache of another object, refreshing with every combination of '
        'arguments, with remotes that fetch when told so}; the tree, the metadata and the answer are compared with the model; then once more')
ASSUMPTIONS = ['in-memory remote', 'the remote of the refresh calls does with the arguments what the remotes built on this library do']
CHUNK = 8
CASE_LIMIT = 120
MB = 2 ** 20

CHANGES = ('content', 'md5', 'touch', 'rename', 'move', 'more', 'delete')
CALLS = ('own', 'nofetch', 'given', 'given nofetch', 'both', 'wrong name', 'wrong place', 'not below')
LIMITS = ('default', 'none', 'small')


def calls():
    for c in CALLS:
        yield {'call': c}
    for data, force, limit, late in itertools.product((False, True), (False, True), LIMITS, (False, True)):
        yield {'call': 'refresh', 'data': data, 'force': force, 'limit': limit, 'late': late}


def bounds(tier):
    return '2 kinds of object, 4 local states, %d changes of the remote in sequences up to %d, %d calls, each twice' % (
        len(CHANGES), 2 if tier == 'quick' else 3, len(list(calls())))


def cases(tier):
    n = 2 if tier == 'quick' else 3
    for kind in ('file', 'dir'):
        for state in ('placeholder', 'fetched', 'edited', 'same') if kind == 'file' else ('dir',):
            for k in range(n + 1):
                for chs in itertools.product(CHANGES, repeat=k):
                    if 'delete' in chs[:-1] or kind == 'dir' and {'content', 'md5'} & set(chs):
                        continue
                    yield {'kind': kind, 'state': state, 'changes': list(chs)}


class World:
    def __init__(self, root, case):
        with unguarded():
            os.mkdir(root)
        s = self.s = Server([
            Node('R', 'proj', None, 'dir'), Node('E', 'e', 'R', 'dir'), Node('D', 'd', 'R', 'dir'), Node('DX', 'x', 'D', 'file', b'DX data'),
            Node('F', 'f', 'R', 'file', b'F data'), Node('G', 'g', 'R', 'file', b'G data'), Node('EF', 'f', 'D', 'file', b'EF data'),
            Node('ED', 'd', 'D', 'dir')])
        self.c = sync.Client(s, os.path.join(root, 'proj'))
        self.c.bootstrap()
        self.i = 'F' if case['kind'] == 'file' else 'D'
        self.n = s.nodes[self.i]
        self.path = os.path.join(self.c.root, self.n.name)
        if case['state'] not in ('placeholder', 'dir'):
            self.c.p('f').cache.fetch()
        self.old = dict(self.c.C(self.path).meta)
        self.first = self.n.meta()
        for ch in case['changes']:
            n = self.n
            n.version += 1
            if ch == 'content':
                n.data = b'new data of version %d' % n.version
            elif ch == 'md5':  # new content with a checksum of another kind
                n.data = b'new data of version %d' % n.version
                n.extra['checksum_cypher'] = 'md5'
            elif ch == 'rename':
                n.name += '.v%d' % n.version
            elif ch == 'move':
                n.parent = 'E' if n.parent == 'R' else 'R'
            elif ch == 'more':
                n.extra['errors'] = ('e%d' % n.version,)
            elif ch == 'delete':
                for j in [j for j in s.nodes if self.i in sync.ancestors(s, j)] or [self.i]:
                    del s.nodes[j]
        self.there = self.i in s.nodes
        self.c = self.c.restart()
        with unguarded():
            if case['state'] == 'edited':
                with open(self.path, 'ab') as f:
                    f.write(b' and my changes')
            elif case['state'] == 'same' and self.there:
                with open(self.path, 'wb') as f:
                    f.write(self.n.data)

    def where(self):
        return os.path.join(self.c.root, *self.s.path(self.i))

    def content(self, p):
        with unguarded():
            if os.path.islink(p):
                return 'placeholder'
            if os.path.isdir(p):
                return 'dir'
            with open(p, 'rb') as f:
                return f.read()

    def snap(self):
        return {k: v for k, v in snapshot(self.c.root).items() if not (k + '/').startswith(sync.OPS + '/') or 'trash' in k}

    def perform(self, call):
        c = self.c
        k = call['call']
        rel = os.path.relpath(self.path, c.root)
        if k == 'own':
            return c.p(rel).cache.remote.update_cache()
        if k == 'nofetch':
            return c.p(rel).cache.remote.update_cache(fetch=False)
        if k == 'given':
            return c.R(self.i).update_cache(cache=c.p(rel).cache)
        if k == 'given nofetch':
            return c.R(self.i).update_cache(cache=c.p(rel).cache, fetch=False)
        if k == 'both':
            cache = c.p(rel).cache
            return cache.remote.update_cache(cache=cache)
        if k == 'wrong name':
            return c.R(self.i).update_cache(cache=c.p('g').cache)
        if k == 'wrong place':
            return c.R(self.i).update_cache(cache=c.p('d', 'f' if self.i == 'F' else 'd').cache)
        if k == 'not below':
            return c.R('R').update_cache(cache=c.p(rel).cache)
        assert k == 'refresh'
        R = c.R

        def refresh(r, update_cache=False, update_data=False, update_data_on_cache=False, size_limit_mb=2, force=False):
            if r.id not in self.s.nodes:
                return None
            self.told = update_cache, update_data, update_data_on_cache, size_limit_mb, force
            different = r.update_cache(fetch=not call['late'])
            if r.is_file() and (update_data or force or update_data_on_cache and different):
                r.cache.fetch(size_limit_mb=None if force else size_limit_mb)
            return r.cache
        R.refresh = refresh
        kw = {} if call['limit'] == 'default' else {'size_limit_mb': {'none': None, 'small': 1 / MB}[call['limit']]}
        return c.p(rel).cache.refresh(update_data=call['data'], force=call['force'], **kw)


def model(w, case, call):
    """('ok', answer, path, content) or ('raise', class)"""
    k = call['call']
    old, new = w.first, w.n.meta()
    moved = (w.n.name, w.n.parent) != (old.name, old.parent_id)
    different = any(getattr(old, f) != getattr(new, f) for f in ('updated', 'size', 'checksum', 'file_id') if getattr(old, f) is not None)
    if k == 'both':
        return 'raise', TypeError
    if k in ('wrong name', 'wrong place', 'not below'):
        return 'raise', ValueError
    if k.startswith('given') and moved:
        return 'raise', ValueError
    have = w.content(w.path)
    real = isinstance(have, bytes)
    late = k.endswith('nofetch') or call.get('late')
    if real and different and not late:
        if have != w.n.data and case['state'] == 'edited':
            return 'raise', exc.LocalChangesError
        content = w.n.data
    else:
        content = have
    if k == 'refresh' and w.i == 'F':
        if call['data'] or call['force'] or real and different:
            fits = call['force'] or call['limit'] != 'small' 
            if fits:
                content = w.n.data
    return 'ok', different, w.where(), content


def want_meta(w):
    d = dict(w.old)
    d.update({k: v for k, v in dict(w.n.meta()).items() if v is not None and v != ()})
    return d


def run(ctx, case):
    top = ctx.fresh()
    for n, call in enumerate(calls()):
        if case['kind'] == 'dir' and call.get('limit', 'default') != 'default':
            continue
        w = World(os.path.join(top, str(n)), case)
        what = '%s %s, %r on the remote, %r' % (case['state'], w.i, case['changes'], call)
        if not w.there:
            if call['call'] != 'refresh':
                continue
            have = w.content(w.path)
            o = outcome(lambda: w.perform(call))
            check_eq(o, ('ok', None), what)
            check(not os.path.lexists(w.path), '%s: still there', what)
            with unguarded():
                found = [w.content(os.path.join(d, f)) for d, _, fs in os.walk(w.c.root) for f in fs]
            check(have == 'dir' or have in found, '%s: %r is gone', what, have)
            ctx.trans()
            continue
        before, path0 = w.snap(), w.path
        want = model(w, case, call)
        o = outcome(lambda: w.perform(call))
        after = w.snap()
        ctx.trans()
        ctx.state((what, o[0]))
        if want[0] == 'raise':
            check(o[0] == 'raise' and isinstance(o[1], want[1]), '%s: got %r, expected %s', what, o, want[1].__name__)
            check_eq(diff(before, after), {}, what + ': refused, but changed')
            continue
        check(o[0] == 'ok', '%s: %r', what, o)
        _, different, path, content = want
        for turn in ('', ' (again)'):
            if call['call'] != 'refresh':
                check_eq(bool(o[1]), different, what + ': content different' + turn)
            else:
                check_eq((str(o[1]), o[1].id), (path, w.i), what + ': answer' + turn)
            check(os.path.lexists(path), '%s: nothing at %s%s', what, path, turn)
            check(path == path0 or not os.path.lexists(path0), '%s: the old path is still there', what)
            check_eq(w.content(path), content, what + ': content' + turn)
            check_eq(mismatch(w.c.C(path).meta, want_meta(w)), {}, what + ': metadata' + turn)
            rel, rel0 = (os.path.relpath(p, w.c.root) for p in (path, path0))
            d = {k for k in diff(before, w.snap()) if k != sync.OPS and 'trash' not in k}
            d = {k for k in d if not any(k == r or k.startswith(r + '/') for r in (rel, rel0)) and k not in ('', '.', 'e')}
            check_eq(d, set(), what + ': others changed' + turn)
            if turn:
                break
            w.path = path
            w.first = w.n.meta()
            different = False
            o = outcome(lambda: w.perform(call))
            check(o[0] == 'ok', '%s again: %r', what, o)
    ctx.trace()
    ctx.evaluation(repr(case))
    ctx.sample(case)
