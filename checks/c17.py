"""C17: fetching and updating content is all or nothing."""
import errno
import os

import xattr as _xattr

from augpathlib import PathMeta
from augpathlib import exceptions as exc
from mc import harness, sync
from mc.fakes import Node, Server
from mc.fsx import snapshot
from mc.harness import Violation, check, check_eq, outcome, unguarded, observe
from mc.metas import mismatch

ID = 'C17'
LEVEL = 'fault_enumeration'
RULE = ('cases = every start (placeholder, fetched, locally modified, locally changed to the new content) x old and new '
        'content x name x operation (fetch, refresh, refresh with data, bootstrap); for each: no fault, the remote hanging '
        'up after every number of bytes, the remote serving other bytes, every single file system event failing with every '
        'errno or being interrupted by the user, and the process dying at every file system event and before every chunk of the remote; size limits: every start x '
        'size x limit above and below it')
ASSUMPTIONS = ['in-memory remote; one fault per execution (thorough: pairs of a file system fault after a remote fault)',
               'explicit fetch over content that is already there may leave partial content when the remote fails']
CHUNK = 1
CASE_LIMIT = 300
OLD = b'old content'
MOD = b'modified here'
NEWS = {'empty': b'', 'short': b'new', 'chunks': b'newnewnewnew', 'longer': b'new content!!', 'same size': b'NEW content'}
LONG = 'n' * 253     # the name in the trash is too long
MUT = harness.MUTATIONS


def bounds(tier):
    return '4 starts, 5 contents, 2 names, 4 operations, every single fault and crash point' + (
        '' if tier == 'quick' else ', pairs of faults')


def cases(tier):
    yield {'limits': (0, 1, 2, 11, 4096)}
    yield {'limits': (2 * 1024 ** 2 - 1, 2 * 1024 ** 2 + 1)}
    for start in ('placeholder', 'fetched', 'modified', 'modified to new'):
        for op in ('fetch', 'refresh', 'refresh data', 'bootstrap'):
            for new in list(NEWS) + ['unchanged']:
                for name in ('f', LONG):
                    for sub in ('', 'd'):
                        if start == 'modified to new' and new == 'unchanged':
                            continue
                        if tier == 'quick' and (name == LONG and new not in ('chunks', 'empty')
                                                or sub and new not in ('short', 'unchanged')):
                            continue
                        for checksum in (True, False):
                            if not checksum and name == LONG:
                                continue
                            c = {'start': start, 'op': op, 'new': new, 'name': name, 'sub': sub, 'checksum': checksum,
                                 'pairs': tier == 'thorough' and name == 'f' and not sub}
                            yield c
                            if checksum and name == 'f' and not sub and new in ('short', 'unchanged'):
                                yield {**c, 'errors': ('other',), 'pairs': False}
                                for cy in ('md5', 'blake2b', 'sha256'):
                                    yield {**c, 'cypher': cy, 'pairs': False}
                                    if cy == 'sha256' and new == 'short':
                                        yield {**c, 'cypher': 'md5', 'cypher new': cy, 'pairs': False}


_hook = {'fn': None}


def setup_worker(ctx):
    for mod, names in ((_xattr, ('set', 'setxattr', 'remove', 'removexattr')),):
        for n in names:
            if hasattr(mod, n):
                orig = getattr(mod, n)

                def wrapped(item, *a, __orig=orig, __n=n, **k):
                    if _hook['fn'] is not None:
                        _hook['fn']('xattr.' + __n, [os.fspath(item) if not isinstance(item, int) else None])
                    return __orig(item, *a, **k)
                setattr(mod, n, wrapped)


class World:
    def __init__(self, root, case):
        self.case = case
        self.name = case['name']
        extra = {} if case['checksum'] else {'checksum': None, 'checksum_cypher': None}
        if case.get('cypher'):
            extra['checksum_cypher'] = case['cypher']
        if case.get('errors'):
            extra['errors'] = case['errors']
        nodes = [Node('R', 'proj', None, 'dir')]
        if case['sub']:
            nodes.append(Node('D', 'd', 'R', 'dir'))
        self.node = Node('F', self.name, 'D' if case['sub'] else 'R', 'file', OLD, **extra)
        nodes.append(self.node)
        self.s = Server(nodes)
        with unguarded():
            os.mkdir(root)
        self.proj = os.path.join(root, 'proj')
        c = self.c = sync.Client(self.s, self.proj)
        c.bootstrap()
        self.rel = ('d', self.name) if case['sub'] else (self.name,)
        self.path = os.path.join(self.proj, *self.rel)
        if case['start'] != 'placeholder':
            self.cache().fetch()
        new = OLD if case['new'] == 'unchanged' else NEWS[case['new']]
        self.local0 = None
        if case['start'] != 'placeholder':
            data = {'fetched': OLD, 'modified': MOD, 'modified to new': new}[case['start']]
            with unguarded():
                with open(self.path, 'wb') as f:
                    f.write(data)
            self.local0 = data
        self.m0 = dict(self.meta().items())
        if case['new'] != 'unchanged':
            self.node.data = new
            self.node.version += 10
            if 'cypher new' in case:
                self.node.extra['checksum_cypher'] = case['cypher new']
        self.new = new
        self.c = c.restart()

    def cache(self):
        return self.c.p(*self.rel).cache

    def meta(self):
        return self.c.C(self.path).meta

    def state(self):
        """(content or None for a placeholder or 'missing', metadata)"""
        with unguarded():
            if os.path.islink(self.path):
                k = None
            elif os.path.exists(self.path):
                with open(self.path, 'rb') as f:
                    k = f.read()
            else:
                return 'missing', None
        try:
            return k, self.meta()
        except exc.NoCachedMetadataError:
            return k, None

    def op(self):
        o = self.case['op']
        if o == 'fetch':
            self.cache().fetch()
        elif o == 'refresh':
            self.cache().refresh()
        elif o == 'refresh data':
            self.cache().refresh(update_data=True)
        else:
            self.c.bootstrap()

    # expected outcomes

    def m1(self):
        """merged metadata"""
        d = dict(self.m0)
        d.update({k: v for k, v in self.node.meta().items() if v is not None and v != ()})
        return d

    def expected(self):
        """('ok'|exception, content, metadata)"""
        start, op, changed = self.case['start'], self.case['op'], self.case['new'] != 'unchanged'
        if op == 'fetch':
            if changed:
                # fetch gets what the cached metadata describes
                return None
            return 'ok', OLD, self.m0
        if start == 'placeholder':
            if op == 'refresh data':
                return 'ok', self.new, self.m1()
            return 'ok', None, self.m1()
        if not changed:
            if op == 'refresh data' and start == 'modified':
                return None     # explicit request for the data of the remote
            return 'ok', self.local0, self.m0
        if not self.case['checksum'] and start == 'fetched':
            return None     # cannot be told from local changes
        if start == 'modified':
            return exc.LocalChangesError, self.local0, self.m0
        return 'ok', self.new, self.m1()


def same(w, st, content, meta):
    k, m = st
    return k == content and m is not None and not mismatch(m, meta)


def describe(st):
    k, m = st
    return '%r, metadata %s' % (k, None if m is None else {a: str(b) for a, b in m.items() if b})


def limits(ctx, case, root):
    """what is larger than the limit is not fetched, everything else is"""
    MB = 1024 ** 2
    n = 0
    for size in case['limits']:
        small = size < MB
        near = {size + 1, size + 2, size - 1, size // 2, 2 * size + 1, 3 * MB, 1} - {size}
        for limit in [None, 'default'] + sorted(x for x in near if x >= 0):
            for start in ('placeholder', 'fetched') if small else ('placeholder',):
                n += 1
                data = bytes(size)
                s = Server([Node('R', 'proj', None, 'dir'), Node('F', 'f', 'R', 'file', data)])
                with unguarded():
                    os.mkdir(os.path.join(root, 'l%d' % n))
                w = World.__new__(World)
                w.case, w.name, w.s, w.rel = case, 'f', s, ('f',)
                w.proj = os.path.join(root, 'l%d' % n, 'proj')
                w.path = os.path.join(w.proj, 'f')
                w.c = sync.Client(s, w.proj, chunk=4 if small else 1 << 16)
                w.c.bootstrap()
                m0 = dict(w.meta().items())
                if start == 'fetched':
                    w.cache().fetch(size_limit_mb=None)
                    with unguarded():
                        with open(w.path, 'wb') as f:
                            f.write(b'here')
                w.c = sync.Client(s, w.proj, chunk=4 if small else 1 << 16)
                del s.served[:]
                kw = {} if limit == 'default' else {'size_limit_mb': None if limit is None else limit / MB}
                top = 2 * MB if limit == 'default' else limit
                what = '%s of %d bytes, fetch with limit %s' % (start, size, limit)
                cache = w.cache()
                o = outcome(lambda: cache.fetch(**kw))
                ctx.trans()
                ctx.evaluation(what)
                check(o[0] == 'ok', '%s: raised %r', what, o[1])
                st = w.state()
                if top is None or size < top:
                    check(same(w, st, data, m0), '%s: not fetched: %s', what, repr(st)[:200])
                else:
                    check_eq(s.served, [], what + ': over the limit, but read from the remote')
                    check(same(w, st, None if start == 'placeholder' else b'here', m0), '%s: over the limit, left %s', what,
                          repr(st)[:200])
                ctx.state((what, st[0] is None or len(st[0])))
                ctx.trace()


def run(ctx, case):
    root = ctx.fresh()
    if 'limits' in case:
        return limits(ctx, case, root)
    n = [0]

    def world():
        n[0] += 1
        return World(os.path.join(root, 'x%d' % n[0]), case)

    w = world()
    if w.expected() is None:
        ctx.count('combination without expectation')
        return
    what = '%s' % ({k: v if len(str(v)) < 20 else 'long' for k, v in case.items()},)
    # --- no fault
    events, served = [], []
    w.s.read = counting(w.s, served)

    def rec(ev, paths):
        if ev in MUT or ev.startswith('xattr.'):
            events.append(ev)
    with observe(rec):
        _hook['fn'] = rec
        o = outcome(w.op)
        _hook['fn'] = None
    kind, content, meta = w.expected()
    ctx.trace()
    ctx.evaluation((what, 'no fault'))
    if kind == 'ok':
        check(o[0] == 'ok', '%s: raised %r', what, o[1])
    else:
        check(o[0] == 'raise' and isinstance(o[1], kind), '%s: expected %s got %r', what, kind, o)
    st = w.state()
    check(same(w, st, content, meta), '%s: is %s should be %r %s', what, describe(st), content, meta)
    old_kept(w, what, case['start'] == 'fetched' and content != w.local0)
    ctx.state((what, describe(st)))
    ok_state = (content, meta)
    nserved = len(served)
    for label, setup, can_succeed in faults(case, events, w, nserved):
        w = world()
        ctx.evaluation((what, label))
        ctx.trans()
        with setup(w) as f:
            o = outcome(w.op)
        what2 = '%s, %s' % (what, label)
        st = w.state()
        if label == CORRUPT:
            corrupt(w, what2, o, st, content, meta)
            ctx.state((what2, describe(st), o[0]))
            ctx.trace()
            continue
        before = (w.local0, w.m0)
        partial = case['op'] == 'fetch' and w.local0 is not None or (
            case['op'] == 'refresh data' and case['new'] == 'unchanged')
        if o[0] == 'ok':
            check(same(w, st, *ok_state), '%s: no error, but %s', what2, describe(st))
        else:
            good = same(w, st, *before) or same(w, st, *ok_state)
            if case['start'] == 'placeholder':
                good = good or same(w, st, None, w.m1())
            if partial:
                good = st[1] is not None and not mismatch(st[1], w.m0)
            check(good, '%s: raised %r and left %s', what2, o[1], describe(st))
        old_kept(w, what2, w.local0 is not None and not partial)
        ctx.state((what2, describe(st), o[0]))
        ctx.trace()
        # doing it again works
        w.s.fail.clear()
        w.s.__dict__.pop('read', None)
        w.c = w.c.restart()
        if o[0] == 'raise' and kind == 'ok':
            o = outcome(w.op)
            check(o[0] == 'ok', '%s: doing it again raised %r', what2, o[1])
            st = w.state()
            check(same(w, st, *ok_state), '%s: doing it again gives %s', what2, describe(st))
    # --- two faults: what was there is not lost
    if case['pairs'] and w.local0 is not None:
        for k1 in range(1, len(events) + 1):
            for k2 in range(k1 + 1, len(events) + 6):
                w = world()

                def fn(n, ev):
                    if n in (k1, k2):
                        raise OSError(errno.EIO, os.strerror(errno.EIO))
                ctx.evaluation((what, k1, k2))
                ctx.trans()
                with Armed(None, fn)(w):
                    outcome(w.op)
                old_kept(w, '%s, events %d and %d fail' % (what, k1, k2), case['op'] == 'refresh' or case['op'] == 'bootstrap')
    # --- crash
    for label, arm in crashes(events, nserved):
        w = world()
        ctx.evaluation((what, label))
        ctx.trans()
        pid = os.fork()
        if pid == 0:
            try:
                arm(w)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        what2 = '%s, %s' % (what, label)
        overwrites = case['op'] == 'fetch' or case['op'] == 'refresh data' and case['new'] == 'unchanged'
        old_kept(w, what2, w.local0 is not None and not overwrites)
        ctx.state((what2, describe(w.state())))
        ctx.trace()
        if kind != 'ok':
            continue
        w.c = w.c.restart()

        def recover():
            w.c.bootstrap()
            w.cache().fetch(size_limit_mb=None)
        o = outcome(recover)
        check(o[0] == 'ok', '%s: recovery raised %r', what2, o[1])
        st = w.state()
        check(same(w, st, w.new, w.m1()), '%s: recovery gives %s', what2, describe(st))
    w = None


CORRUPT = 'remote serves other bytes of the same size'


def flip(d):
    return bytes((b ^ 0x55) if i == len(d) // 2 else b for i, b in enumerate(d))


def corrupt(w, what, o, st, content, meta):
    """content that is not what its checksum says is only there with metadata that says so"""
    k, m = st
    if o[0] == 'raise':
        good = same(w, st, w.local0, w.m0) or w.local0 is None and same(w, st, None, w.m1())
        check(good, '%s: raised %r and left %s', what, o[1], describe(st))
        return
    bad = flip(w.node.data)
    if content != w.node.data or k == content:     # nothing had to be read
        check(same(w, st, content, meta), '%s: no error, but %s', what, describe(st))
        return
    check(k == bad, '%s: no error, but %s', what, describe(st))
    md = dict(meta)
    if w.case['checksum']:
        md['errors'] = tuple(md.get('errors') or ()) + ('checksum-mismatch',)
    check(m is not None and not mismatch(m, md), '%s: no error, but %s, should be marked as checksum-mismatch',
          what, describe(st))
    if w.case['op'] != 'fetch' and w.case['new'] != 'unchanged':
        old_kept(w, what, w.local0 is not None and w.local0 != bad)


def old_kept(w, what, needed):
    """what was at the path is there or somewhere in the project, with its metadata"""
    if not needed:
        return
    with unguarded():
        for dp, dn, fn in os.walk(w.proj):
            for f in fn:
                p = os.path.join(dp, f)
                if not os.path.islink(p):
                    with open(p, 'rb') as fh:
                        if fh.read() != w.local0:
                            continue
                    m = outcome(lambda: w.c.C(p).meta)
                    if m[0] == 'ok' and m[1] is not None and m[1].id == 'F':
                        return
    raise Violation('%s: the content %r that was there is lost' % (what, w.local0))


def counting(s, served):
    orig = Server.read

    def read(id, chunk):
        for c in orig(s, id, chunk):
            served.append(len(c))
            yield c
    return read


class Armed:
    def __init__(self, enter=None, fn=None):
        self.enter, self.fn = enter, fn

    def __call__(self, w):
        self.w = w
        return self

    def __enter__(self):
        if self.enter:
            self.enter(self.w)
        if self.fn:
            self.n = 0

            def hook(ev, paths):
                if ev in MUT or ev.startswith('xattr.'):
                    self.n += 1
                    self.fn(self.n, ev)
            self.o = observe(hook)
            self.o.__enter__()
            _hook['fn'] = hook
        return self

    def __exit__(self, *a):
        if self.fn:
            _hook['fn'] = None
            self.o.__exit__()


def wrong(f):
    def enter(w):
        def read(id, chunk):
            d = f(w.node.data)
            for i in range(0, len(d), chunk):
                yield d[i:i + chunk]
        w.s.read = read
    return enter


def faults(case, events, w, nserved):
    if nserved or case['op'] in ('fetch', 'refresh data'):
        total = len(w.node.data)
        for k in range(0, total + 1):
            def enter(w, k=k):
                w.s.fail['F'] = k
            yield 'remote hangs up after %d bytes' % k, Armed(enter), False
        yield 'remote serves too little', Armed(wrong(lambda d: d[:-1] if d else b'x')), False
        yield 'remote serves too much', Armed(wrong(lambda d: d + b'x')), False
        if w.node.data:
            yield CORRUPT, Armed(wrong(flip)), False
    for k in range(1, len(events) + 1):
        for e in (errno.ENOSPC, errno.EACCES):
            def fn(n, ev, k=k, e=e):
                if n == k:
                    raise OSError(e, os.strerror(e))
            yield 'event %d (%s) fails with %s' % (k, events[k - 1], errno.errorcode[e]), Armed(None, fn), True

        def fn(n, ev, k=k):
            if n == k:
                raise KeyboardInterrupt()
        yield 'interrupted by the user at event %d (%s)' % (k, events[k - 1]), Armed(None, fn), True


def crashes(events, nserved):
    for k in range(1, len(events) + 1):
        def arm(w, k=k):
            def fn(n, ev):
                if n == k:
                    os._exit(1)
            with Armed(None, fn)(w):
                outcome(w.op)
        yield 'process dies before event %d (%s)' % (k, events[k - 1]), arm
    for k in range(nserved + 1):
        def arm(w, k=k):
            orig = w.s.read

            def read(id, chunk):
                n = 0
                for c in orig(id, chunk):
                    if n == k:
                        os._exit(1)
                    n += 1
                    yield c
                if n == k:
                    os._exit(1)
            w.s.read = read
            outcome(w.op)
        yield 'process dies after %d chunks' % k, arm
