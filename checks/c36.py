"""C36: cached files against their own metadata."""
import hashlib
import itertools
import logging
import os

from augpathlib import PathMeta
from augpathlib import exceptions as exc
from mc import sync
from mc.fakes import Node, Server, when
from mc.fsx import diff, snapshot
from mc.harness import check, check_eq, outcome, unguarded

ID = 'C36'
LEVEL = 'model_checking'
RULE = ('validating: every kind of metadata (no checksum, one of each cypher, etag with each chunk size, size or not) x errors already known x '
        'original content, then every sequence up to the depth bound over {validate, ask whether the content differs, write other content (same '
        'size, shorter, longer, empty, the original), new process}; copying with metadata: every source x every target x force x way of asking; '
        'choosing: every pair of copies over order of the remote times x order of the local times or placeholder x sizes known; '
        'limits: every size around every limit')
ASSUMPTIONS = ['in-memory remote', 'extended attributes supported', 'one process']
CHUNK = 1
CASE_LIMIT = 400
CYPHERS = ('sha256', 'blake2b', 'md5', 'sha1', 'sha512')
MARK = 'checksum-mismatch'
ERRORS = ((), ('foreign',), (MARK,), ('foreign', MARK))
CONTENTS = (b'F data', b'', b'12345678')
WRITES = ('same', 'other', 'shorter', 'longer', 'empty')
OPS = ('validate', 'differs', 'restart') + WRITES
KINDS = ([('sum', c) for c in (None,) + CYPHERS] + [('sum nosize', None), ('sum nosize', 'md5')] +
         [('etag', n) for n in (1, 3, 4, 8, 100)] + [('etag sum', 4)] + [('size', None), ('nothing', None)])


def bounds(tier):
    return '%d kinds of metadata, %d sets of errors, sequences of %d' % (len(KINDS), len(ERRORS), 3 if tier == 'quick' else 4)


def cases(tier):
    for kind in KINDS:
        for data in range(len(CONTENTS)):
            yield {'kind': list(kind), 'data': data, 'depth': 3 if tier == 'quick' else 4}
    for src in SOURCES:
        yield {'copy': src}
    for a in (1, 2, 3):
        yield {'choose': a}
    yield {'limits': True}


def refetag(data, chunk):
    parts = [hashlib.md5(data[i:i + chunk]).digest() for i in range(0, len(data), chunk)]
    return parts


class Records(logging.Handler):
    def __init__(self):
        super().__init__(logging.ERROR)
        self.got = []

    def emit(self, r):
        self.got.append(r)


def logged(f):
    """(outcome, number of records of at least level error)"""
    lg = logging.getLogger('augpathlib')
    h = Records()
    was, lvl = logging.root.manager.disable, lg.level
    logging.disable(logging.NOTSET)
    lg.setLevel(logging.ERROR)
    lg.addHandler(h)
    hs, prop = lg.handlers[:], lg.propagate
    lg.handlers, lg.propagate = [h], False
    try:
        o = outcome(f)
    finally:
        lg.handlers, lg.propagate = [x for x in hs if x is not h], prop
        logging.disable(was)
        lg.setLevel(lvl)
    return o, len(h.got)


def node(kind, data, errors):
    k, arg = kind
    x = {}
    if k == 'sum':
        x = dict(checksum_cypher=arg)
    elif k == 'sum nosize':
        x = dict(checksum_cypher=arg, size=None)
    elif k == 'size':
        x = dict(checksum=None, checksum_cypher=None)
    elif k == 'nothing':
        x = dict(checksum=None, checksum_cypher=None, size=None)
    if errors:
        x['errors'] = errors
    return Node('F', 'f', 'R', 'file', data, **x)


# ---------------------------------------------------------------- validating

def setup(ctx, kind, data, errors):
    """a fetched file whose metadata are exactly those of kind"""
    s = Server([Node('R', 'proj', None, 'dir'), node(kind, data, errors), Node('O', 'o', 'R', 'file', b'other')])
    d = ctx.fresh()
    c = sync.Client(s, os.path.join(d, 'proj'))
    c.bootstrap()
    k, arg = kind
    if k.startswith('etag'):
        meta = dict(id='F', name='f', etag=None, chunksize=arg, size=len(data), errors=errors, updated=when(1), created=when(0))
        if k == 'etag sum':
            meta['checksum'] = b'not looked at'
        with unguarded():
            p = os.path.join(c.root, 'f')
            os.unlink(p)
            with open(p, 'wb') as f:
                f.write(data)
        meta['etag'] = c.p('f').etag(arg)
        c.p('f').cache_init(PathMeta(**meta))
        n = s.nodes['F']
        del n
    else:
        c.p('f').cache.fetch(size_limit_mb=None)
    return c.restart()


def write(c, data):
    with unguarded():
        with open(os.path.join(c.root, 'f'), 'wb') as f:
            f.write(data)


def variants(data):
    other = bytes(x ^ 1 for x in data)
    return {'same': data, 'other': other, 'shorter': data[:-1], 'longer': data + b'+', 'empty': b''}


def step(c, kind, orig, cur, errors, op, what):
    """(client, current content, errors) after op, everything compared"""
    k, arg = kind
    if op == 'restart':
        return c.restart(), cur, errors
    if op in WRITES:
        v = variants(orig)[op]
        write(c, v)
        return c, v, errors
    root = os.path.join(c.root, 'f')
    before = snapshot(c.root)
    mbefore = c.restart().p('f').cache.meta
    if op == 'differs':
        (tag, v), n = logged(lambda: c.p('f').content_different())
        if k == 'etag sum':
            pass
        else:
            check(tag == 'ok' and v is (cur != orig), 'content_different is %r of %r where metadata and remote say %r: %s' % (v, cur, orig, what))
        check_eq(diff(before, snapshot(c.root)), {}, 'asking whether %s differs changed' % what)
        return c, cur, errors
    (tag, v), n = logged(lambda: c.p('f').cache.validate_file())
    mafter = c.restart().p('f').cache.meta
    bad = cur != orig
    if k.startswith('etag'):
        check(tag == 'ok', 'validating raised %r: %s' % (v, what))
        check((n > 0) is bad, 'etag of %r, metadata of %r, %d records: %s' % (cur, orig, n, what))
        check_eq(diff(before, snapshot(c.root)), {}, 'validating an etag changed: %s' % what)
    elif k.startswith('sum'):
        check(tag == 'ok', 'validating raised %r: %s' % (v, what))
        check((n > 0) is bad, 'checksum of %r, metadata of %r, %d records: %s' % (cur, orig, n, what))
        if bad and MARK not in errors:
            errors = errors + (MARK,)
            m = {x: y for x, y in mbefore.items()}
            m['errors'] = errors
            check_eq(dict(mafter.items()), dict(m), 'metadata after a mismatch: %s' % what)
        else:
            check_eq(diff(before, snapshot(c.root)), {}, 'validating changed: %s' % what)
        with unguarded():
            with open(root, 'rb') as f:
                check_eq(f.read(), cur, 'content after validating: %s' % what)
    else:
        check_eq(diff(before, snapshot(c.root)), {}, 'validating changed: %s' % what)
        if k == 'size' and len(cur) != len(orig):
            check(tag == 'raise' and isinstance(v, exc.SizeError), 'sizes %d %d: %r: %s' % (len(cur), len(orig), v, what))
        else:
            check(tag == 'ok', 'validating raised %r: %s' % (v, what))
            check_eq(n, 0, 'records about %s' % what)
    check(mafter.errors.count(MARK) <= 1, 'errors %r: %s' % (mafter.errors, what))
    check_eq(tuple(mafter.errors), errors, 'errors after validating: %s' % what)
    # the same object says the same as a new process
    check_eq(tuple(c.p('f').cache.meta.errors), tuple(mafter.errors), 'errors in this process: %s' % what)
    return c, cur, errors


def run_validate(ctx, case):
    kind, data, depth = tuple(case['kind']), CONTENTS[case['data']], case['depth']
    ctx.state((kind, data))
    for errors in ERRORS:
        if errors and kind[0] in ('etag', 'size', 'nothing') and errors != ERRORS[-1]:
            continue
        base = setup(ctx, kind, data, errors)
        write(base, data)
        with unguarded():
            store = {n: (os.getxattr(base.root + '/f', n)) for n in os.listxattr(base.root + '/f')}
        # sequences that end in something that is judged and have no two writes in a row
        for n in range(1, depth + 1):
            for seq in itertools.product(OPS, repeat=n):
                if seq[-1] not in ('validate', 'differs') or seq[0] == 'same':
                    continue
                if any(a in WRITES and b in WRITES or a == b == 'restart'
                       for a, b in zip(seq, seq[1:])):
                    continue
                v = variants(data)
                if any(o in v and o != 'same' and v[o] == data for o in seq):
                    continue
                with unguarded():
                    p = base.root + '/f'
                    for x in os.listxattr(p):
                        os.removexattr(p, x)
                    for x, y in store.items():
                        os.setxattr(p, x, y)
                write(base, data)
                c, cur, errs = base.restart(), data, errors
                for i, op in enumerate(seq):
                    what = '%r of %r with errors %r: %s' % (kind, data, errors, ', '.join(seq[:i + 1]))
                    c, cur, errs = step(c, kind, data, cur, errs, op, what)
                    ctx.trans()
                ctx.trace()
                ctx.evaluation(seq)
    ctx.sample('validate %r' % (kind,))


# ------------------------------------------------------------------- copying

SOURCES = ('file', 'errors', 'md5', 'empty', 'nosize', 'untracked', 'missing', 'placeholder', 'dir', 'link to file')
TARGETS = ('absent', 'untracked', 'tracked', 'placeholder', 'dir', 'link to untracked', 'link to tracked', 'broken', 'dangling', 'itself', 'missing parent',
           'in dir', 'outside')


def run_copy(ctx, case):
    src = case['copy']
    for tgt, force, how, kept in itertools.product(TARGETS, (False, True), ('to', 'from'), (False, True)):
        d = ctx.fresh()
        s = Server([Node('R', 'proj', None, 'dir'), Node('D', 'd', 'R', 'dir'), Node('F', 'file', 'R', 'file', b'F data'),
                    Node('E', 'errors', 'R', 'file', b'E data', errors=('foreign',)), Node('M', 'md5', 'R', 'file', b'M data', checksum_cypher='md5'),
                    Node('N', 'nosize', 'R', 'file', b'N data', size=None), Node('Z', 'empty', 'R', 'file', b''),
                    Node('T', 'tracked', 'R', 'file', b'T data'), Node('P', 'placeholder', 'R', 'file', b'P data'),
                    Node('P2', 'placeholder2', 'R', 'file', b'P data')])
        c = sync.Client(s, os.path.join(d, 'proj'))
        c.bootstrap()
        for n in ('file', 'errors', 'md5', 'nosize', 'empty', 'tracked'):
            c.p(n).cache.fetch(size_limit_mb=None)
        with unguarded():
            r = c.root
            for n in ('untracked', 'untracked2'):
                with open(os.path.join(r, n), 'w') as f:
                    f.write('untracked')
            os.symlink('file', r + '/link to file')
            os.symlink('untracked2', r + '/link to untracked')
            os.symlink('tracked', r + '/link to tracked')
            os.symlink('no/where', r + '/broken')
            os.symlink('nothing', r + '/dangling')
            os.mkdir(d + '/out')
        if not kept:
            c = c.restart()
        sname = {'dir': 'd'}.get(src, src)
        tname = {'absent': 'new', 'untracked': 'untracked2', 'placeholder': 'placeholder2', 'dir': 'd', 'itself': sname,
                 'missing parent': 'no/new', 'in dir': 'd/new', 'outside': '../out/new'}.get(tgt, tgt)
        what = '%s to %s%s by copy_%s' % (src, tgt, ', forced' if force else '', how)
        a, b = c.p(sname), c.p(*tname.split('/'))
        before = snapshot(d)
        sm = a.cache.meta if a.cache is not None else None
        kw = dict(force=force, copy_cache_meta=True)
        tag, v = outcome((lambda: a.copy_to(b, **kw)) if how == 'to' else (lambda: b.copy_from(a, **kw)))
        after = snapshot(d)
        ctx.evaluation((src, tgt, force, how))
        ctx.trace()
        ctx.state((src, tgt, force, tag))
        good = src in ('file', 'errors', 'md5', 'empty', 'nosize')
        if tag == 'raise':
            check_eq(diff(before, after), {}, 'refused (%r) and changed: %s' % (v, what))
            check(not (good and tgt in ('absent', 'in dir', 'outside')), 'copying raised %r: %s' % (v, what))
            check(not (good and tgt == 'untracked' and force), 'copying raised %r: %s' % (v, what))
            continue
        check(src not in ('untracked', 'missing', 'placeholder', 'dir'), 'there was nothing to copy and no error: %s' % what)
        check(tgt not in ('tracked', 'placeholder', 'itself', 'link to tracked', 'dir'), 'metadata of the target were replaced: %s' % what)
        check(force or tgt in ('absent', 'in dir', 'outside'), 'something was in the way: %s' % what)
        n = c.restart()
        with unguarded():
            real = os.path.realpath(os.path.join(c.root, *tname.split('/')))
            with open(real, 'rb') as f, open(os.path.join(c.root, sname), 'rb') as g:
                check_eq(f.read(), g.read(), 'content: %s' % what)
            check(os.path.lexists(real) and not os.path.islink(real), 'no file: %s' % what)
        tm = c.L(real).cache
        tm = None if tm is None else tm.meta
        if tgt == 'outside':
            nm = n.L(real)
            tm = nm._cache_class(nm).meta
        check(tm is not None and (sm is None or tm == sm), 'metadata %r of %r: %s' % (tm, sm, what))
        extra = {p for p in diff(before, after)}
        rel = os.path.relpath(real, os.path.realpath(d))
        check(all(p == rel or rel.startswith(p.rstrip('/') + '/') or p in ('', '.') for p in extra), 'also changed %r: %s' % (sorted(extra), what))
    ctx.sample('copy %s' % src)


# ------------------------------------------------------------------ choosing

def run_choose(ctx, case):
    a = case['choose']
    # the local time that counts is that of the last change of the inode
    local = ('placeholder', 100, 200)
    for b, la, lb, sa, sb, ids in itertools.product((1, 2, 3), local, local, (True, False), (True, False), (True, False)):
        d = ctx.fresh()
        srv = Server([Node('R', 'proj', None, 'dir')])
        c = sync.Client(srv, os.path.join(d, 'proj'))
        c.bootstrap()
        for i in ('I', 'Ia', 'Ib'):
            srv.add(i, i, 'R', 'file', b'12345')
        ps = []
        for n, up, l, sz in (('a', a, la, sa), ('b', b, lb, sb)):
            m = PathMeta(id='I' if ids else 'I' + n, name=n, size=5 if sz else None, updated=when(up), created=when(0), file_id=1,
                         checksum=b'x' if n == 'a' else b'y')
            p = c.p(n)
            if l != 'placeholder':
                with unguarded():
                    with open(str(p), 'w') as f:
                        f.write('12345')
            c.C(str(p), meta=m)
            ps.append((l, str(p)))
        last = 0
        with unguarded():
            for l, p in sorted(x for x in ps if x[0] != 'placeholder'):
                while True:  # the clock of the file system is coarse
                    os.utime(p, (l, l))
                    if os.stat(p).st_ctime_ns > last:
                        last = os.stat(p).st_ctime_ns
                        break
        c = c.restart()
        before = snapshot(d)

        ka, kb = ((up, -1 if l == 'placeholder' else l) for up, l in ((a, la), (b, lb)))
        if la == lb:  # either will do
            ka, kb = ka[:1], kb[:1]
        for x, y, kx, ky in (('a', 'b', ka, kb), ('b', 'a', kb, ka)):
            for pretend in (False, True):
                for how in ('local', 'cache'):
                    p, q = c.p(x), c.p(y)
                    if how == 'cache':
                        p, q = p.cache, q.cache
                    tag, v = outcome(lambda: p.dedupe(q, pretend=pretend))
                    what = '%s (remote, local) %r and %s %r' % (x, kx, y, ky)
                    if not ids:
                        check(tag == 'raise' and isinstance(v, ValueError), '%r chosen out of different objects: %s' % (v, what))
                    else:
                        check(tag == 'ok' and v is not None and os.path.basename(str(v)) in (x, y), '%r was chosen: %s' % (v, what))
                        if kx != ky:
                            check_eq(os.path.basename(str(v)), x if kx > ky else y, 'chosen: %s' % what)
                    ctx.evaluation((x, kx, ky, ids, how))
                    ctx.state((kx > ky, kx == ky, ids))
        check_eq(diff(before, snapshot(d)), {}, 'choosing changed: %r' % ((ka, kb),))
        ctx.trace()
    ctx.sample('choose %r' % a)


# -------------------------------------------------------------------- limits

def run_limits(ctx, case):
    mb = 2 ** 20
    for size, known, state in itertools.product((0, 1, 10, 11, 12), (True, False), ('placeholder', 'fetched')):
        for limit in (None, 'default', 0, 10 / mb, 11 / mb, 12 / mb):
            d = ctx.fresh()
            n = Node('F', 'f', 'R', 'file', b'x' * size, **({} if known else {'size': None}))
            s = Server([Node('R', 'proj', None, 'dir'), n])
            c = sync.Client(s, os.path.join(d, 'proj'))
            c.bootstrap()
            if state == 'fetched':
                c.p('f').cache.fetch(size_limit_mb=None)
            before = snapshot(d)
            s.served.clear()
            kw = {} if limit == 'default' else {'size_limit_mb': limit}
            c = c.restart()
            m = c.p('f').cache.meta
            tag, v = outcome(lambda: c.p('f').cache.fetch(**kw))
            what = '%s of %s size %d, limit %r' % (state, 'known' if known else 'unknown', size, limit)
            check(tag == 'ok', 'raised %r: %s' % (v, what))
            lim = {None: float('inf'), 'default': 2 * mb}.get(limit, (limit if isinstance(limit, (int, float)) else 0) * mb)
            must = limit is None or known and size < lim
            never = limit is not None and (not known or size > lim)
            with unguarded():
                p = os.path.join(c.root, 'f')
                here = os.path.isfile(p) and not os.path.islink(p)
                if must:
                    check(here and open(p, 'rb').read() == b'x' * size, 'was not fetched: %s' % what)
                    check(s.served, 'the remote was not asked: %s' % what)
                if never:
                    check_eq(s.served, [], 'was fetched: %s' % what)
                    check_eq(diff(before, snapshot(d)), {}, 'changed: %s' % what)
            check(c.restart().p('f').cache.meta == m, 'metadata changed: %s' % what)
            ctx.evaluation((size, known, limit, state))
            ctx.state((size, known, limit, state))
            ctx.trace()
    ctx.sample('limits')


def run(ctx, case):
    if 'kind' in case:
        return run_validate(ctx, case)
    if 'copy' in case:
        return run_copy(ctx, case)
    if 'choose' in case:
        return run_choose(ctx, case)
    return run_limits(ctx, case)
