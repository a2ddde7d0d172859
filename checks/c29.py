"""C29: stat output, sizes, safe names and the machine id."""
import base64
import ctypes
import hashlib
import itertools
import math
import os
import stat as st_
import subprocess

from augpathlib import LocalPath
from augpathlib.utils import FileSize, StatResult, fs_safe_id, sysidpath
from mc.harness import check, check_eq, outcome, unguarded

ID = 'C29'
LEVEL = 'model_checking'
RULE = ('stat: every name out of all strings up to a length over the characters that matter for the output format x kinds of '
        'files x times, compared with os.lstat; sizes: every size around every power of two and ten, the readable form read '
        'back; safe names: every string up to a length; machine id: every state of the two files it can come from, asked '
        'again after every change')
ASSUMPTIONS = ['stat of GNU coreutils']
CHUNK = 1
CASE_LIMIT = 300
CHARS = ' "\'\\-é\n$*\udcff'
KINDS = ('file', 'dir', 'link', 'broken', 'fifo', 'setuid')
TIMES = (0, 1, 10 ** 9 + 5 * 10 ** 8, 1600000000123456789, 1600000000000000001, -5 * 10 ** 8, -15 * 10 ** 8, 4 * 10 ** 18 // 1000000 * 1000)
EVIL = ' \n\t*|:\\/<>\'"?'


def bounds(tier):
    return 'names of up to %d special characters, %d kinds, %d times' % (2 if tier == 'quick' else 3, len(KINDS), len(TIMES))


def cases(tier):
    n = 2 if tier == 'quick' else 3
    for a in CHARS:
        yield {'name': a, 'len': n}
    yield {'sysid': 1}
    yield {'sizes': 70 if tier == 'quick' else 100}
    for a in EVIL + '.a-':
        yield {'safe': a, 'len': 3 if tier == 'quick' else 4}
    for a in ('missing', 'empty', 'id', 'secret'):
        yield {'id': a}


def same(got, want, what):
    for k in ('st_ino', 'st_size', 'st_gid', 'st_uid', 'st_mode', 'st_blksize'):
        check_eq(getattr(got, k), getattr(want, k), '%s: %s' % (what, k))
    for k in ('st_atime', 'st_mtime', 'st_ctime'):
        # seconds and nanoseconds may be added in another order
        check(abs(getattr(got, k) - getattr(want, k)) <= 3 * math.ulp(getattr(want, k)) + 2e-9, '%s: %s %r is not %r', what, k, getattr(got, k), getattr(want, k))


class _Statx(ctypes.Structure):
    _fields_ = [('head', ctypes.c_uint32 * 2), ('attributes', ctypes.c_uint64), ('ids', ctypes.c_uint32 * 3), ('mode', ctypes.c_uint16 * 2),
                ('numbers', ctypes.c_uint64 * 4), ('atime', ctypes.c_int64 * 2), ('birth', ctypes.c_int64), ('birth_ns', ctypes.c_uint32),
                ('rest', ctypes.c_uint64 * 30)]


def birthtime(p):
    """when the file system says that p was made"""
    b = _Statx()
    if ctypes.CDLL(None, use_errno=True).statx(-100, os.fsencode(p), 0x100, 0x800, ctypes.byref(b)):
        raise OSError(ctypes.get_errno(), p)
    return b.birth + b.birth_ns / 1e9 if b.head[0] & 0x800 else None


def stats(ctx, case, d):
    here = os.getcwd()
    os.mkdir(d)
    n = 0
    for l in range(case['len'] + 1):
        for rest in itertools.product(CHARS, repeat=l):
            mid = ''.join(rest)
            for name in (case['name'] + mid, 'a' + case['name'] + mid + 'b', case['name'] + mid + case['name']):
                n += 1
                kind = KINDS[n % len(KINDS)]
                t = TIMES[n % len(TIMES)]
                p = os.path.join(d, name)
                with unguarded():
                    if kind == 'dir':
                        os.mkdir(p)
                    elif kind in ('link', 'broken'):
                        os.symlink(here if kind == 'link' else 'nowhere', p)
                    elif kind == 'fifo':
                        os.mkfifo(p)
                    else:
                        with open(p, 'wb') as f:
                            f.write(b'x' * (n % 7))
                        if kind == 'setuid':
                            os.chmod(p, 0o4751)
                    os.utime(p, ns=(t, t), follow_symlinks=False)
                want = os.lstat(p)
                birth = birthtime(p)
                ctx.count('birth known' if birth is not None else 'birth not known')
                for cwd, s in ((here, p), (d, name)):
                    os.chdir(cwd)
                    try:
                        o = outcome(lambda: LocalPath(s)._stat())
                    finally:
                        os.chdir(here)
                    what = '_stat of %s %r' % (kind, s if cwd == d else name)
                    check(o[0] == 'ok', '%s: raised %r', what, o[1])
                    same(o[1], want, what)
                    got = getattr(o[1], 'st_birthtime', None)
                    if birth is None:
                        check_eq(got, None, what + ': st_birthtime')
                    else:
                        check(got is not None and abs(got - birth) < 2e-6, '%s: st_birthtime %r is not %r', what, got, birth)
                    check(o[1].name in (s, p), '%s: name %r', what, o[1].name)
                    ctx.trans()
                    ctx.evaluation(what)
                size = LocalPath(p).size
                check_eq(size, want.st_size if kind == 'broken' else os.stat(p).st_size, 'size of %s %r' % (kind, name))
                with unguarded():
                    os.rmdir(p) if kind == 'dir' else os.unlink(p)
                o = outcome(lambda: LocalPath(p)._stat())
                check(o[0] == 'raise' and isinstance(o[1], OSError), 'nothing at %r: %r', name, o[1])
                ctx.state((name, kind))
    ctx.trace()


def sizes(ctx, case):
    units = ['', 'K', 'M', 'G', 'T', 'P', 'E', 'Z', 'Yi']
    values = {0, 1}
    for b in (2, 10, 1024):
        for e in range(case['sizes']):
            for f in (1, 3, 5):
                for x in (-2, -1, 0, 1, 2):
                    values.add(b ** e * f // 2 + x)
    for n in sorted(values):
        if n >= 1024 ** 9 * 1000:
            continue
        s = FileSize(n)
        check_eq(int(s), n, 'FileSize')
        check_eq(str(s), str(n), 'str of FileSize')
        if n < 0:
            check_eq(s.hr, '??', 'hr of %d' % n)
            continue
        check(abs(s.mb - n / 1048576) <= 1e-9 * n, 'mb of %d: %r', n, s.mb)
        h = s.hr
        u = next(u for u in reversed(units) if h.endswith(u))
        v = float(h[:len(h) - len(u)])
        scale = 1024.0 ** units.index(u)
        check(abs(v * scale - n) <= 0.5001 * scale, 'hr of %d is %s', n, h)
        check(v <= 1024 or u == 'Yi', 'hr of %d is %s', n, h)
        check(repr(s) == 'FileSize <%s %d>' % (h, n), 'repr of %d: %r', n, s)
        ctx.trans()
        ctx.state(n)
        ctx.evaluation(h)
    ctx.trace()


def safe(ctx, case, d):
    os.mkdir(d)
    for l in range(case['len']):
        for rest in itertools.product(EVIL + '.a-é', repeat=l):
            s = case['safe'] + ''.join(rest)
            o = fs_safe_id(s)
            check(len(o) == len(s), 'fs_safe_id(%r) = %r', s, o)
            check(all(b == a if a not in EVIL else b == '-' for a, b in zip(s, o)), 'fs_safe_id(%r) = %r', s, o)
            check_eq(fs_safe_id(o), o, 'fs_safe_id twice')
            ctx.trans()
            ctx.state(s)
            ctx.evaluation(o)
    ctx.trace()


def machine(ctx, case, d):
    n = 0
    for other in ('missing', 'empty', 'id', 'secret'):
        for ops in itertools.product(('ask', 'first gone', 'first there', 'ignore'), repeat=3):
            n += 1
            root = os.path.join(d, 'x%d' % n)
            files = {'/etc/machine-id': os.path.join(root, 'etc'), '/var/tmp/machine-id': os.path.join(root, 'tmp')}
            with unguarded():
                os.makedirs(root)
                for p, state in zip(files.values(), (case['id'], other)):
                    if state != 'missing':
                        with open(p, 'w') as f:
                            f.write('' if state == 'empty' else os.path.basename(p)[:1])
                        if state == 'secret':
                            os.chmod(p, 0)
            mk = lambda p: LocalPath(files[p])

            def ok(p):
                return os.path.exists(p) and os.access(p, os.R_OK) and os.path.getsize(p) > 0

            def slurp(p):
                try:
                    with open(p) as f:
                        return f.read()
                except OSError:
                    return None
            for op in ('ask',) + ops:
                with unguarded():
                    etc, tmp = files.values()
                    if op == 'first gone':
                        if os.path.exists(etc):
                            os.unlink(etc)
                    elif op == 'first there' and not os.path.exists(etc):
                        with open(etc, 'w') as f:
                            f.write('n')
                    before = {p: slurp(p) for p in files.values()}
                what = 'machine id with etc %s, tmp %s, %s' % (case['id'], other, (op, ops))
                o = outcome(lambda: sysidpath(ignore_options=op == 'ignore', path_class=mk))
                ctx.trans()
                ctx.evaluation(what)
                good = [p for p in files.values() if ok(p) and before[p]] if op != 'ignore' else []
                if o[0] == 'raise':
                    check(not good and isinstance(o[1], OSError) and not os.access(tmp, os.W_OK), '%s: raised %r', what, o[1])
                    continue
                got = str(o[1])
                if good:
                    check_eq(got, good[0], what + ': path')
                    check_eq({p: slurp(p) for p in files.values()}, before, what + ': files changed')
                else:
                    check_eq(got, tmp, what + ': path')
                    text = slurp(tmp)
                    check(text and len(text) == 32, '%s: %r', what, text)
                    check_eq(slurp(etc), before[etc], what + ': etc changed')
                    check_eq(str(sysidpath(path_class=mk)), tmp if not (ok(etc) and before[etc]) else etc, what + ': asked again')
                    check_eq(slurp(tmp), text, what + ': not the same id when asked again')
                ctx.state(what)
            ctx.trace()


def sysid(ctx):
    """the id of this machine, as it is in ids that were stored"""
    with open(next(p for p in ('/etc/machine-id', '/var/tmp/machine-id') if os.access(p, os.R_OK) and os.path.getsize(p)), 'rb') as f:
        want = base64.urlsafe_b64encode(hashlib.blake2b(f.read()).digest()[:16]).decode().rstrip('=')
    check_eq(LocalPath.sysid, want, 'sysid')

    class Another(LocalPath):
        sysid = None
    Another._bind_flavours()
    Another._bind_sysid()
    check_eq(Another.sysid, want, 'sysid of another class')
    o = outcome(Another._bind_sysid)
    check(o[0] == 'raise' and isinstance(o[1], ValueError) and Another.sysid == want, 'sysid bound twice: %r', o)
    for p in ('x', '/x', '/'):
        check_eq(LocalPath(p).id, want + ':' + p, 'id of %s' % p)
        check_eq(LocalPath(p).meta.id if p == 'x' else want + ':' + p, want + ':' + p, 'id in meta of %s' % p)
        ctx.trans()


def run(ctx, case):
    d = os.path.join(ctx.fresh(), 'x')
    if 'name' in case:
        stats(ctx, case, d)
    elif 'sizes' in case:
        sizes(ctx, case)
    elif 'safe' in case:
        safe(ctx, case, d)
    elif 'sysid' in case:
        ctx.fresh()
        sysid(ctx)
    else:
        machine(ctx, case, d)
