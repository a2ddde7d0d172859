"""C12: metadata survives extended attributes and the metastore unchanged."""
import itertools
import os
import struct
from datetime import datetime

import augpathlib as aug
from augpathlib import PathMeta
from mc.harness import check, check_eq, outcome
from mc.metas import FIELDS, VALUES, mismatch

ID = 'C12'
LEVEL = 'model_checking'
RULE = ('cases = every set of at most 3 present fields (thorough: every one of the 2^17 sets) plus its complement; each '
        'with every combination of values of (at most two) present fields, encoded under several prefixes, together '
        'with foreign attributes, and written to and read from a real file')
ASSUMPTIONS = ['values have the documented types; a user id that is the text of a number comes back as a number; empty '
               'text is the same as absent']
CHUNK = 8
CASE_LIMIT = 200
PREFIXES = (None, 'ssh', 'a', 'a.b')


def bounds(tier):
    return 'all field sets of size <= 3 and >= 14%s; all values for pairs; prefixes %r' % (
        '' if tier == 'quick' else ' and every other set', PREFIXES)


def cases(tier):
    for n in range(0, 4):
        for c in itertools.combinations(FIELDS, n):
            yield {'fields': list(c), 'disk': n < 3}
            yield {'fields': [f for f in FIELDS if f not in c], 'disk': n < 2}
    if tier == 'thorough':
        # the rest of the lattice, in blocks
        for block in range(0, 1 << len(FIELDS), 256):
            yield {'block': block}
    yield {'lists': True}
    yield {'legacy': True}


def run(ctx, case):
    d = ctx.fresh()
    if 'lists' in case:
        return lists(ctx)
    if 'legacy' in case:
        return legacy(ctx)
    if 'block' in case:
        for bits in range(case['block'], case['block'] + 256):
            fs = [f for i, f in enumerate(FIELDS) if bits >> i & 1]
            one(ctx, {f: VALUES[f][0] for f in fs}, PREFIXES[bits % 4], False)
        return
    fs = case['fields']
    dom = [VALUES[f] for f in fs]
    if len(fs) == 3:
        dom = [v[:3] for v in dom]
    if len(fs) > 3:
        combos = [tuple(v[i % len(v)] for v in dom) for i in range(5)]
    else:
        combos = itertools.product(*dom)
    for k, combo in enumerate(combos):
        m = dict(zip(fs, combo))
        for prefix in PREFIXES:
            one(ctx, m, prefix, case['disk'] and k < 12)
    ctx.trace()


def one(ctx, d, prefix, disk):
    m = PathMeta(**d)
    what = 'meta %r prefix %r' % (d, prefix)
    x = m.as_xattrs(prefix)
    ctx.trans()
    ctx.state((tuple(sorted(d)), prefix))
    check(all(isinstance(k, bytes) and isinstance(v, bytes) for k, v in x.items()), '%s: not bytes', what)
    check_eq(len(x), len(d), what + ': number of attributes')
    if prefix:
        check(all(k.startswith(prefix.encode() + b'.') for k in x), '%s: keys %r', what, list(x))
    check_eq(mismatch(PathMeta.from_xattrs(x, prefix), d), {}, what + ': xattrs')
    check_eq(mismatch(m, d), {}, what + ': encoding changed the object')
    check_eq(PathMeta.from_xattrs(x, prefix) == m, True, what + ': equality')
    check_eq(mismatch(PathMeta.from_metastore(m.as_metastore(prefix), prefix), d), {}, what + ': metastore')
    if prefix:
        # attributes of somebody else
        noise = dict(x)
        for k, v in PathMeta(**{f: VALUES[f][-1] for f in ('name', 'id', 'size')}).as_xattrs('other').items():
            noise[k] = v
        noise[b'name'] = b'unprefixed'
        noise[prefix.encode() + b'x.name'] = b'longer prefix'
        noise[b'unrelated'] = b'\xff'
        check_eq(mismatch(PathMeta.from_xattrs(noise, prefix), d), {}, what + ': with foreign attributes')
    if disk:
        p = aug.LocalPath('f%d' % ctx.n_trans)
        p.touch()
        p.setxattrs(x)
        os.setxattr(p, 'user.zzz', b'1')
        y = p.xattrs()
        y.pop(b'zzz')
        check_eq(y, x, what + ': on disk')
        check_eq(mismatch(PathMeta.from_xattrs(p.xattrs(), prefix) if prefix else PathMeta.from_xattrs(y), d), {},
                 what + ': read from disk')
        os.unlink(p)


def lists(ctx):
    """errors: round trip or refusal"""
    alpha = ('a', ';', '', '.', '/', 'b c', 'a;b', '#', '|', '!', 'é')
    for n in range(0, 4):
        for es in itertools.product(alpha, repeat=n):
            m = PathMeta(id='i', errors=es)
            o = outcome(m.as_xattrs)
            ctx.trans()
            bad = any(not e or ';' in e for e in es)
            if o[0] == 'raise':
                check(bad, 'errors %r refused: %r', es, o[1])
                continue
            check_eq(PathMeta.from_xattrs(o[1]).errors, es, 'errors')
    ctx.trace()


def legacy(ctx):
    for t in (0.0, 1.5, 1577934245.25):
        x = {b'created': struct.pack('d', t), b'id': b'1'}
        check_eq(PathMeta.from_xattrs(x).created, datetime.fromtimestamp(t), 'timestamp stored as a double')
    # the format on disk: what older releases wrote must stay readable
    old = {b'p.name': b'n', b'p.size': b'10', b'p.created': b'2020-01-02T03:04:05,678901Z', b'p.checksum': b'\x01\x02',
           b'p.checksum_cypher': b'sha256', b'p.etag': b'0102-3', b'p.chunksize': b'5', b'p.multi': b'1',
           b'p.parent_id': b'P', b'p.id': b'I', b'p.file_id': b'7', b'p.old_id': b'O', b'p.gid': b'0',
           b'p.user_id': b'N:u', b'p.mode': b'0o1', b'p.errors': b'a;b', b'p.updated': b'2021-06-07T08:09:10+02:00'}
    m = PathMeta.from_xattrs(old, 'p')
    from datetime import timezone, timedelta
    want = dict(name='n', size=10, created=datetime(2020, 1, 2, 3, 4, 5, 678901, tzinfo=timezone.utc),
                updated=datetime(2021, 6, 7, 8, 9, 10, tzinfo=timezone(timedelta(hours=2))), checksum=b'\1\2',
                checksum_cypher='sha256', etag=(b'\1\2', 3), chunksize=5, multi=1, parent_id='P', id='I', file_id=7,
                old_id='O', gid=0, user_id='N:u', mode='0o1', errors=('a', 'b'))
    check_eq(mismatch(m, want), {}, 'stored attributes')
    check_eq(PathMeta(id='i', multi=True).as_xattrs()[b'multi'], b'1', 'multi given as bool')
    ctx.trans(5)
    ctx.trace()
