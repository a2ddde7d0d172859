"""C10: LocalPath.meta always describes the file as it is now."""
import hashlib
import itertools
import os
import time
from datetime import datetime, timezone

import augpathlib as aug
from augpathlib.utils import etag
from mc.harness import check, check_eq, outcome, unguarded

ID = 'C10'
LEVEL = 'model_checking'
RULE = ('cases = every program over {reads of 4 kinds on one long lived object} and {13 ways of changing the file} '
        'starting with two given operations, up to the depth bound; every read is compared with stat and hashlib')
ASSUMPTIONS = ['a change of the file changes its ctime (the harness waits for the kernel clock to tick)']
CHUNK = 2
CASE_LIMIT = 300
READS = ('meta', 'nochk', 'etag', 'size')
WRITES = ('same', 'append', 'empty', 'touch', 'chmod', 'replace', 'delete', 'dir', 'oldmtime', 'xattr', 'linkto', 'rewrite-mtime')
OPS = READS + WRITES


def bounds(tier):
    return 'all programs of <= %d operations from %d, objects: absolute, relative' % (4 if tier == 'quick' else 5, len(OPS))


def cases(tier):
    for kind in ('abs', 'rel'):
        for pre in itertools.product(OPS, repeat=2):
            yield {'pre': list(pre), 'n': (4 if tier == 'quick' else 5) - (kind == 'rel'), 'kind': kind}


def tick(path):
    """wait until a change made now gets a newer ctime"""
    try:
        c = os.lstat(path).st_ctime
    except OSError:
        return
    probe = path + '.probe'
    while True:
        with open(probe, 'w'):
            pass
        d = os.lstat(probe).st_ctime
        os.unlink(probe)
        if d > c + 1e-4:
            return
        time.sleep(0.0005)


def change(op, f, k):
    tick(f)
    isfile = os.path.isfile(f)
    if op in ('same', 'append', 'rewrite-mtime', 'empty') and os.path.isdir(f):
        return
    if op == 'same':
        with open(f, 'wb') as h:
            h.write(b'%04d' % k)
    elif op == 'append':
        with open(f, 'ab') as h:
            h.write(b'+')
    elif op == 'empty':
        with open(f, 'wb'):
            pass
    elif op == 'touch':
        if os.path.exists(f):
            os.utime(f)
    elif op == 'chmod':
        if os.path.exists(f):
            os.chmod(f, os.stat(f).st_mode & 0o7777 ^ 0o011)
    elif op == 'replace':
        if os.path.isdir(f):
            os.rmdir(f)
        with open(f + '.n', 'wb') as h:
            h.write(b'n%03d' % k)
        os.rename(f + '.n', f)
    elif op == 'delete':
        if os.path.isdir(f):
            os.rmdir(f)
        elif os.path.lexists(f):
            os.unlink(f)
    elif op == 'dir':
        if not os.path.isdir(f):
            if os.path.lexists(f):
                os.unlink(f)
            os.mkdir(f)
    elif op == 'oldmtime':
        if os.path.exists(f):
            os.utime(f, (1000000000, 1000000000))
    elif op == 'rewrite-mtime':
        # other content, same size, same mtime: only ctime tells
        if isfile:
            st = os.stat(f)
            with open(f, 'rb') as h:
                b = h.read()
            with open(f, 'wb') as h:
                h.write(bytes((x + 1) % 256 for x in b))
            os.utime(f, ns=(st.st_atime_ns, st.st_mtime_ns))
    elif op == 'xattr':
        if os.path.exists(f):
            os.setxattr(f, 'user.k', b'%d' % k)
    elif op == 'linkto':
        if os.path.isdir(f):
            os.rmdir(f)
        elif os.path.lexists(f):
            os.unlink(f)
        with open(f + '.real', 'wb') as h:
            h.write(b'l%03d' % k)
        os.symlink(os.path.basename(f) + '.real', f)


def expect(p, f, how):
    base = dict(id=p.sysid + ':' + p.as_posix(), name='f')
    try:
        st = os.stat(f)
    except OSError:
        return base
    chk = None
    et = None
    if os.path.isfile(f):
        with open(f, 'rb') as h:
            b = h.read()
        chk = hashlib.blake2b(b).digest() if how != 'nochk' else None
        if how == 'etag':
            e = [hashlib.md5(b[i:i + 3]).digest() for i in range(0, len(b), 3)]
            et = hashlib.md5(b''.join(e)).digest(), len(e)
    out = dict(base, size=st.st_size, created=datetime.fromtimestamp(st.st_mtime, tz=timezone.utc),
               updated=datetime.fromtimestamp(st.st_ctime, tz=timezone.utc), checksum=chk, etag=et,
               chunksize=3 if how == 'etag' else None,
               parent_id=p.sysid + ':' + p.parent.as_posix(), file_id=st.st_ino, user_id=st.st_uid,
               gid=st.st_gid, mode=oct(st.st_mode))
    if chk is not None:
        out['checksum_cypher'] = 'blake2b'
    return out


FIELDS = ('name', 'size', 'created', 'updated', 'checksum', 'etag', 'chunksize', 'parent_id', 'id', 'file_id',
          'gid', 'user_id', 'mode', 'old_id')


def read(p, f, op, what):
    if op == 'size':
        o = outcome(lambda: p.size)
        if os.path.exists(f):
            check_eq(o, ('ok', os.stat(f).st_size), what)
        else:
            check(o[0] == 'raise', '%s: size of a missing file %r', what, o[1])
        return
    if op == 'meta':
        o = outcome(lambda: p.meta)
    elif op == 'nochk':
        o = outcome(lambda: p.meta_no_checksum)
    else:
        o = outcome(lambda: p._meta_maker(chunksize=3))
    check(o[0] == 'ok', '%s: %r', what, o[1])
    m = o[1]
    e = expect(p, f, op)
    for k in FIELDS:
        v = getattr(m, k)
        if op == 'nochk' and k == 'checksum' and v is not None:
            # having more than asked for is fine as long as it is right
            check_eq(v, expect(p, f, 'meta').get('checksum'), what + ': checksum')
            continue
        if op == 'meta' and k in ('etag', 'chunksize') and v is not None:
            check_eq(v, expect(p, f, 'etag').get(k), what + ': ' + k)
            continue
        check_eq(v, e.get(k), '%s: %s' % (what, k))
    if e.get('checksum') is not None:
        check_eq(m.checksum_cypher, 'blake2b', what + ': checksum_cypher')
    if 'created' in e:
        check_eq(p.created, e['created'], what + ': created property')


def run(ctx, case):
    d = ctx.fresh()
    f = os.path.join(d, 'f')
    for suf in itertools.product(OPS, repeat=case['n'] - 2):
        prog = tuple(case['pre']) + suf
        if not any(o in READS for o in prog):
            continue
        with unguarded():
            for n in os.listdir(d):
                q = os.path.join(d, n)
                os.rmdir(q) if os.path.isdir(q) and not os.path.islink(q) else os.unlink(q)
            with open(f, 'wb') as h:
                h.write(b'0000')
        p = aug.LocalPath(d, 'f') if case['kind'] == 'abs' else aug.LocalPath('f')
        done = []
        for k, op in enumerate(prog + ('meta',)):
            done.append(op)
            ctx.trans()
            if op in READS:
                with unguarded():
                    read(p, f, op, 'after %r' % (done,))
            else:
                with unguarded():
                    change(op, f, k + 1)
            ctx.state(tuple(done[-3:]))
        ctx.trace()
