"""C16: the metadata cached for a path: what is put on it, what is read back."""
import itertools
import os

from augpathlib import PathMeta, SymlinkCache
from augpathlib import exceptions as exc
from mc import sync
from mc.fakes import Node, Server, when
from mc.fsx import snapshot
from mc.harness import check, check_eq, outcome, unguarded
from mc.metas import mismatch
from checks.c14 import model

ID = 'C16'
LEVEL = 'model_checking'
RULE = ('cases = every start (nothing, directory, link to a file / to a directory, foreign link of two forms) x '
        'every sequence of up to 3 metadata values out of {two ids} x {no, earlier, later} updated and created x {no, two} '
        'sizes; after every put the path is read through fresh objects (absolute, relative, through an aliased parent, after '
        'the project was closed and opened) and compared with the model; everything else must not have changed; metadata that is wiped is '
        'restored from a backup cache')
ASSUMPTIONS = ['in-memory remote', 'files are covered by C17']
CHUNK = 1
CASE_LIMIT = 300
STARTS = ('nothing', 'dir', 'link to file', 'link to dir', 'foreign link', 'foreign one part')
TIMES = (None, 1, 2)


def metas(full):
    for i in 'AB':
        for u in TIMES:
            for c in TIMES if full else (1,):
                for s in (None, 3, 5) if full else (3,) if full is False else (None, 3):
                    d = dict(id=i, updated=u and when(u), created=c and when(c), size=s)
                    yield {k: v for k, v in d.items() if v is not None}


def bounds(tier):
    return '%d starts, all pairs of 54 values, all triples of %d values' % (len(STARTS), 6 if tier == 'quick' else 12)


def cases(tier):
    for st in ('dir', 'file'):
        yield {'start': st, 'first': None, 'deep': 'backup'}
    for st in STARTS:
        if 'link' in st or 'foreign' in st:
            yield {'start': st, 'first': None, 'deep': None}
            continue
        n = len(list(metas(True)))
        for i in range(n):
            yield {'start': st, 'first': i, 'deep': None}
        deep = False if tier == 'quick' else 'size'
        for i in range(len(list(metas(deep)))):
            yield {'start': st, 'first': i, 'deep': deep}


def decide(start, old, new):
    """what has to be there after new is put on old: (metadata, replaced or not, error)"""
    changed, merged = model(old, new) if old else (False, dict(new))
    if not old or start == 'dir' or merged == old:
        return merged, merged != old, None
    if merged['id'] != old['id']:
        a, b = old.get('updated'), merged.get('updated')
        if a is None or b is None or a > b:
            return old, False, None
        if a == b:
            a, b = old.get('created'), merged.get('created')
            if a is None and b is not None:
                return old, False, exc.MetadataIdMismatchError
            if b is None or a is None or a >= b:
                return old, False, None
    if old.get('size') is not None and merged.get('size') is None:
        return old, False, None
    return merged, True, None


class World:
    def __init__(self, root, start):
        with unguarded():
            os.mkdir(root)
        kind = 'dir' if start == 'dir' else 'file'
        self.s = Server([Node('R', 'proj', None, 'dir'), Node('D', 'd', 'R', 'dir'), Node('A', 'n', 'D', kind),
                         Node('B', 'n', 'D', kind), Node('O', 'other', 'D', 'file', b'other')])
        self.c = c = sync.Client(self.s, os.path.join(root, 'proj'))
        d = os.path.join(c.root, 'd')
        with unguarded():
            os.mkdir(d)
            os.symlink('d', os.path.join(c.root, 'alias'))
        c.L(d).cache_init(PathMeta(id='D'))
        c.C(os.path.join(d, 'other'), meta=self.s.nodes['O'].meta())
        self.p = os.path.join(d, 'n')
        self.quiet = None

    def restart(self):
        self.c = self.c.restart()

    def readers(self):
        yield 'absolute', lambda: self.c.C(self.p).meta
        yield 'from the local path', lambda: self.c.L(self.p).cache.meta
        yield 'aliased parent', lambda: self.c.C(os.path.join(self.c.root, 'alias', 'n')).meta

        def rel():
            os.chdir(os.path.dirname(self.p))
            try:
                return self.c.L('n').cache.meta
            finally:
                os.chdir('/')
        yield 'relative', rel

    def rest(self):
        """everything but the path and the trash"""
        return {k: v for k, v in snapshot(self.c.root, xattrs=True).items()
                if k != 'd/n' and not k.startswith('.operations/trash')}

    def trash(self):
        t = os.path.join(self.c.root, '.operations/trash')
        return {os.readlink(os.path.join(t, n)) for n in os.listdir(t)}


def link(p):
    return os.readlink(p) if os.path.islink(p) else None


def put(ctx, w, start, old, new, what):
    before, rest = link(w.p), w.rest()
    want, replaced, error = decide(start, old, new)
    o = outcome(lambda: w.c.C(w.p, meta=PathMeta(**new)))
    what = '%s, put %r' % (what, new)
    ctx.trans()
    if error:
        check(o[0] == 'raise' and isinstance(o[1], error), '%s: expected %s, got %r', what, error.__name__, o)
    else:
        check(o[0] == 'ok', '%s: raised %r', what, o[1])
    for name, r in w.readers():
        got = outcome(r)
        check(got[0] == 'ok' and got[1] is not None, '%s: reading (%s): %r', what, name, got)
        check_eq(mismatch(got[1], want), {}, '%s, read (%s): fields (got, expected)' % (what, name))
    check_eq(w.rest(), rest, what + ': the rest of the project')
    if start != 'dir':
        check(os.path.islink(w.p), '%s: no placeholder', what)
        if not replaced:
            check_eq(os.readlink(w.p), before or os.readlink(w.p), what + ': placeholder')
        elif before is not None:
            check(before in w.trash(), '%s: the old placeholder %s is not in the trash: %s', what, before, w.trash())
    else:
        check(os.path.isdir(w.p) and not os.path.islink(w.p), '%s: no directory', what)
    ctx.state((start, sorted(want.items(), key=repr), replaced))
    return want, what


def refused(ctx, case, root):
    st = case['start']
    for i, m in enumerate(metas(True)):
        w = World(os.path.join(root, 'x%d' % i), st)
        with unguarded():
            if st == 'link to file':
                with open(w.p + '.txt', 'wb') as f:
                    f.write(b'content')
                os.symlink('n.txt', w.p)
            elif st == 'link to dir':
                os.symlink('../d', w.p)
            elif st == 'foreign link':
                os.symlink('nowhere/else.txt', w.p)
            else:
                os.symlink('nowhere', w.p)
        before = snapshot(w.c.root, xattrs=True)
        what = '%s, put %r' % (st, m)
        o = outcome(lambda: w.c.C(w.p, meta=PathMeta(**m)))
        check(o[0] == 'raise', '%s: did not raise', what)
        check_eq(snapshot(w.c.root, xattrs=True), before, what + ': something changed')
        ctx.trans()
        ctx.evaluation(what)
    ctx.state((st, 'refused'))
    ctx.trace()


def backup(ctx, case, root):
    """metadata that was wiped comes back from the backup cache"""
    st = case['start']
    w = World(os.path.join(root, 'x'), 'dir')
    store = {}

    class Backup(SymlinkCache):
        def __init__(self, *args, meta=None, **kwargs):
            super().__init__(*args)
            if meta is not None:
                store[str(self)] = meta

        @property
        def meta(self):
            if str(self) not in store:
                raise exc.NoCachedMetadataError(self)
            return store[str(self)]

    Backup._bind_flavours()
    w.c.C._backup_cache = Backup
    d = os.path.dirname(w.p)
    for i, m in enumerate(metas(True)):
        p = os.path.join(d, 'b%d' % i)
        with unguarded():
            if st == 'dir':
                os.mkdir(p)
            else:
                with open(p, 'wb') as f:
                    f.write(b'content')
        o = outcome(lambda: w.c.C(p))
        check(o[0] == 'raise' and isinstance(o[1], exc.NoCachedMetadataError), 'no metadata, no backup: %r', o)
        m2 = dict(m, id='B', user_id='u')
        for wanted in (m, model(m, m2)[1]):
            w.c.C(p, meta=PathMeta(**wanted))
            with unguarded():
                for k in os.listxattr(p):
                    os.removexattr(p, k)
            what = '%s, %r wiped' % (st, wanted)
            for n in range(2):
                check_eq(mismatch(w.c.C(p).meta, wanted), {}, what + ': restored (got, expected)')
            w.c.C._backup_cache = None
            check_eq(mismatch(w.c.C(p).meta, wanted), {}, what + ': restored and written back (got, expected)')
            w.c.C._backup_cache = Backup
            ctx.trans()
            ctx.state((what, 'restored'))
            if st == 'file':
                break       # a change of the content would be fetched
        ctx.trace()


def run(ctx, case):
    root = ctx.fresh()
    st = case['start']
    if case['deep'] == 'backup':
        return backup(ctx, case, root)
    if case['first'] is None:
        return refused(ctx, case, root)
    vals = list(metas(True if case['deep'] is None else case['deep']))
    first = vals[case['first']]
    tails = itertools.product(vals) if case['deep'] is None else itertools.product(vals, vals)
    for n, tail in enumerate(tails):
        w = World(os.path.join(root, 'x%d' % n), st)
        # nobody knows anything yet
        o = outcome(lambda: w.c.C(w.p))
        check(o[0] == 'raise' and isinstance(o[1], exc.NoCachedMetadataError),
              'a path without metadata: expected NoCachedMetadataError, got %r', o)
        check(w.c.L(w.p).cache is None, 'a path without metadata has the cache %r', w.c.L(w.p).cache)
        if st == 'dir':
            with unguarded():
                os.mkdir(w.p)
        have, what = put(ctx, w, st, None, first, st)
        for m in tail:
            if n % 2:
                w.restart()
            have, what = put(ctx, w, st, have, m, what)
        w.restart()
        for name, r in w.readers():
            check_eq(mismatch(r(), have), {}, '%s, opened again, read (%s): fields (got, expected)' % (what, name))
        # the metadata moves with the directory
        with unguarded():
            os.rename(os.path.dirname(w.p), os.path.join(w.c.root, 'moved'))
        check_eq(mismatch(w.c.C(os.path.join(w.c.root, 'moved', 'n')).meta, have), {}, what + ', directory renamed')
        ctx.trace()
        ctx.evaluation(what)
        with unguarded():
            import shutil
            shutil.rmtree(os.path.join(root, 'x%d' % n))
