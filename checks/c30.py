"""C30: a remote path over ssh says what the file system of the remote says.

The other side of the connection is real: a program called ssh, first on PATH,
starts an interactive shell on the terminal that pxssh made (or runs a command),
so that quoting, history expansion, echo, line ends and wrapping are the real
ones."""
import hashlib
import itertools
import os
import shutil
import socket
import subprocess
import sys

from pexpect import pxssh

import augpathlib as aug
from augpathlib import LocalPath, exceptions as exc
from augpathlib.caches import SshCache
from augpathlib.remotes import SshRemote
from augpathlib.utils import default_cypher
from mc.harness import Violation, check, check_eq, outcome, unguarded, Hang

ID = 'C30'
LEVEL = 'model_checking'
RULE = ('names: every name out of all strings up to a length over the characters that matter for shells and terminals x kinds '
        '(file, empty file, directory, links, missing), each asked for everything; lengths: every length of a path around the width of the '
        'terminal; modes: every owner permission and paths of other users x every kind of access; users: who the user of the session '
        'is (owner, members of the group, others, root) x permissions of every class x every kind of access; trees: every set of entries of '
        'a directory listed; sequences: every sequence of questions about changing files; every answer is compared with the file system')
ASSUMPTIONS = ['the ssh program is a stand-in that starts bash on the terminal or runs the command with sh -c on this host',
               'names without line breaks in listings']
CHUNK = 1
CASE_LIMIT = 600
HOST = 'there'
USERS = ('owner', 'owner and member', 'member', 'member of another group', 'member by another group', 'other', 'root')
CHARS = ' "\'$`\\!*?~#&;|(<>{[=%-\t\n\r\x01\x7f\x1b\u00e9\u4e2d\udcff'
WORDS = ('$HOME', '$(id)', '`id`', '!!', '!a', '-n', '--', '--help', '~', '*', '{a,b}', '\\n', "'\"'\"'", '%n', ' lead', 'trail ',
         '...', '.hidden', 'a  b', 'No such file or directory', 'a: Permission denied', '----',
         # what the digits that follow belong to
         '\n7', '\x017', '\x1b01', '\r1', '\t00', '\u00e97', 'x41', '\\x41', '\\101')

SSH = '''#!{python}
import os, sys
args = sys.argv[1:]
while args and args[0].startswith('-'):
    n = 2 if args[0] in ('-o', '-F', '-l', '-p', '-i', '-L', '-R', '-D', '-b', '-c', '-E', '-J', '-m', '-S', '-W', '-w') else 1
    args = args[n:]
host, *cmd = args
while cmd and cmd[0] == '--':
    cmd = cmd[1:]
os.environ['PS1'] = '$ '
if host.split('@')[-1] != '{host}':
    sys.exit(255)
if cmd:
    os.execvp('bash', ['bash', '-c', ' '.join(cmd)])
os.execvp('bash', ['bash', '--norc', '--noprofile', '-i'])
'''


ID_SH = '''#!/bin/bash
f="$HOME/identity"
if [ -f "$f" ] && [ "$1" = -u ]; then sed -n 1p "$f"
elif [ -f "$f" ] && [ "$1" = -G ]; then sed -n 2p "$f"
else exec /usr/bin/id "$@"; fi
'''


def bounds(tier):
    return 'names of up to %d special characters and %d words, %d kinds; paths of 60 to 300 and of 840 to 1000 characters; 8 modes' % (
        1 if tier == 'quick' else 2, len(WORDS), len(KINDS))


KINDS = ('file', 'empty', 'dir', 'link', 'dirlink', 'missing')


def cases(tier):
    if tier == 'quick':
        for i in range(0, len(CHARS), 3):
            yield {'names': [c for c in CHARS[i:i + 3]], 'len': 0}
    else:
        for c in CHARS:
            yield {'names': [c], 'len': 1}
    for i in range(0, len(WORDS), 5):
        yield {'words': list(WORDS[i:i + 5])}
    step = 60
    for lo in range(60, 300, step):
        yield {'lengths': [lo, lo + step]}
    # where commands become too long for the terminal
    for lo in range(840, 1000, 40):
        yield {'lengths': [lo, lo + 40], 'by': 5 if tier == 'quick' else 1}
    yield {'modes': 1}
    for u in USERS:
        yield {'user': u, 'modes of users': 5 if tier == 'quick' else 8}
    for i in range(3 if tier == 'quick' else 8):
        yield {'trees': i, 'of': 3 if tier == 'quick' else 8, 'size': 2 if tier == 'quick' else 3}
    for first in range(len(CHANGES)):
        yield {'seq': first, 'depth': 2 if tier == 'quick' else 3}
    yield {'fetch': 1}


def setup_worker(ctx):
    home = os.environ['HOME']
    b = os.path.join(home, 'bin')
    os.makedirs(b, exist_ok=True)
    with open(os.path.join(b, 'ssh'), 'w') as f:
        f.write(SSH.format(python=sys.executable, host=HOST))
    os.chmod(os.path.join(b, 'ssh'), 0o755)
    with open(os.path.join(b, 'id'), 'w') as f:     # the session asks who it is
        f.write(ID_SH)
    os.chmod(os.path.join(b, 'id'), 0o755)
    os.environ['PATH'] = b + ':' + os.environ['PATH']
    os.makedirs(home + '/.ssh', exist_ok=True)
    with open(home + '/.ssh/config', 'w') as f:
        f.write('Host %s\n  User me\n  IdentityFile %s/.ssh/key\n' % (HOST, home))


class Project:
    """a project anchored to a directory of the remote"""

    def __init__(self, base, anchor='remote'):
        for i in range(6):
            try:
                return self._init(base, anchor)
            except pxssh.ExceptionPxssh:  # the first prompt of a shell on a loaded machine
                if i == 5:
                    raise
                with unguarded():
                    shutil.rmtree(base)

    def _init(self, base, anchor):
        with unguarded():
            os.makedirs(os.path.join(base, anchor))
            os.makedirs(os.path.join(base, 'local'))

        class Path(LocalPath):
            pass

        Path._bind_flavours()

        class Cache(SshCache):
            @property
            def cache_key(self):  # for applications to define
                return hashlib.sha256(os.fsencode(self.id)).hexdigest()

        Cache._bind_flavours()
        self.base = base
        self.remote = os.path.join(base, anchor)
        self.local = os.path.join(base, 'local')
        self.Path, self.Cache = Path, Cache
        self.Remote = SshRemote._new(Path, Cache)
        self.anchor = Path(self.local).cache_init(HOST + ':' + self.remote, anchor=True)
        s = getattr(self.Remote, 'session', None)
        if s is not None:  # only to be faster
            s.delaybeforesend = None
            s.delayafterread = None
        self.anchor.local_data_dir_init()

    def close(self):
        s = getattr(self.Remote, 'session', None)
        if s is not None:
            try:
                s.close(force=True)
            except Exception:
                pass


def make(p, kind):
    with unguarded():
        if kind == 'file':
            with open(p, 'wb') as f:
                f.write(os.fsencode('content of ' + os.path.basename(p)) + b'\r\n\x00\xff\x1b[2J end')
        elif kind == 'empty':
            open(p, 'wb').close()
        elif kind == 'dir':
            os.mkdir(p)
        elif kind in ('link', 'dirlink'):
            t = os.path.join(os.path.dirname(p), 'target-' + kind)
            if not os.path.lexists(t):
                make(t, 'file' if kind == 'link' else 'dir')
            os.symlink(t, p)
        elif kind != 'missing':
            raise AssertionError(kind)


def remove(p):
    with unguarded():
        if os.path.islink(p) or not os.path.isdir(p):
            if os.path.lexists(p):
                os.unlink(p)
        else:
            shutil.rmtree(p)


TIMES = ('st_atime', 'st_mtime', 'st_ctime')


def same_stat(got, want, what):
    for k in ('st_ino', 'st_size', 'st_gid', 'st_uid', 'st_mode', 'st_blksize'):
        check_eq(getattr(got, k), getattr(want, k), '%s: %s' % (what, k))
    for k in TIMES:
        check(abs(getattr(got, k) - getattr(want, k)) < 2e-6, '%s: %s %r is not %r', what, k, getattr(got, k), getattr(want, k))


def ask(ctx, P, p, r, what):
    """everything about the remote path r which is p on disk; True if it was refused because it is too long"""
    tag, st = outcome(r.stat)
    ctx.trans()
    if tag == 'raise' and isinstance(st, exc.CommandTooLongError):
        return True
    try:
        want = os.lstat(p)
    except FileNotFoundError:
        want = FileNotFoundError
    except PermissionError:
        want = PermissionError
    if isinstance(want, type):
        check(tag == 'raise' and isinstance(st, want), '%s: stat gives %r not %s', what, st, want.__name__)
    else:
        check(tag == 'ok', '%s: stat failed with %r', what, st)
        same_stat(st, want, what + ': stat')
    there = not isinstance(want, type)
    mine = [('remote_platform', r.remote_platform, os.uname().sysname.lower())]
    tag, v = outcome(r.exists)
    if want is PermissionError:
        check(tag == 'ok' and not v or tag == 'raise' and isinstance(v, PermissionError), '%s: exists gives %r', what, v)
    else:
        check(tag == 'ok' and bool(v) == there, '%s: exists gives %r', what, v)
    if not os.path.islink(p):
        mine += [('is_dir', bool(r.is_dir()), os.path.isdir(p)), ('is_file', bool(r.is_file()), os.path.isfile(p))]
    for m, b in (('read', os.R_OK), ('write', os.W_OK), ('execute', os.X_OK)):
        if not os.path.islink(p):
            mine.append(('access ' + m, bool(r.access(m)), os.access(p, b)))
    for k, a, b in mine:
        check_eq(a, b, '%s: %s' % (what, k))
    ctx.trans(len(mine))
    if os.path.isfile(p) and os.access(p, os.R_OK):
        with open(p, 'rb') as f:
            data = f.read()
        check_eq(b''.join(r.data), data, what + ': data')
        tag, c = outcome(r.checksum)
        if tag == 'raise' and isinstance(c, exc.CommandTooLongError):
            return True
        check(tag == 'ok', '%s: checksum failed with %r', what, c)
        check_eq(c, P.Path(p).checksum(), what + ': checksum')
        ctx.trans(2)
    elif not os.path.isdir(p):
        tag, c = outcome(r.checksum)
        check(tag == 'raise', '%s: checksum of what cannot be read gives %r', what, c)
        tag, c = outcome(lambda: b''.join(r.data))
        check(tag == 'raise', '%s: data of what cannot be read gives %r', what, c)
    return False


def mapped(ctx, P, p, r, what):
    """the names on both sides belong together"""
    check_eq(r.rpath, p, what + ': rpath')
    check_eq(r.id, HOST + ':' + p, what + ': id')
    check_eq(r.name, os.path.basename(p), what + ': name')
    check_eq(r.parent.rpath, os.path.dirname(p), what + ': rpath of the parent')
    ctx.trans(4)


def session_is_fine(P, what):
    """nothing that was sent changed the shell or left something behind in it"""
    tag, out = outcome(P.Remote._ssh, 'echo fine')
    check((tag, out) == ('ok', b'fine'), '%s: afterwards the session answers %r', what, out)


def names(ctx, case, P):
    if 'words' in case:
        todo = [w for w in case['words']]
        todo += ['a' + w for w in todo]
    else:
        todo = []
        for c in case['names']:
            for l in range(case['len'] + 1):
                for rest in itertools.product(CHARS, repeat=l):
                    mid = c + ''.join(rest)
                    todo += ['a' + mid + 'b', mid, 'b' + mid]
    n = 0
    for name in todo:
        for kind in (KINDS if len(todo) < 20 else [KINDS[n % len(KINDS)]]):
            n += 1
            p = os.path.join(P.remote, name)
            if os.path.lexists(p):
                continue
            make(p, kind)
            what = '%s %r' % (kind, name)
            r = P.Remote(p)
            ask(ctx, P, p, r, what)
            mapped(ctx, P, p, r, what)
            r = P.Remote(HOST + ':' + p)
            check_eq(r.rpath, p, what + ': rpath given with the host')
            session_is_fine(P, what)
            ctx.state((name, kind))
            ctx.trace()
            remove(p)
            check_eq(sorted(os.listdir(P.remote)), sorted(x for x in os.listdir(P.remote) if x.startswith('target-')),
                     what + ': left behind on the remote')


def lengths(ctx, case, P):
    lo, hi = case['lengths']
    refused = None
    for n in range(lo, hi, case.get('by', 1)):
        left = n - len(P.remote) - 1
        if left < 1:
            continue
        name = ''
        while left > 100:
            name += 'd' * 99 + '/'
            left -= 100
        name += 'f' * left
        if name.endswith('/'):
            continue
        p = os.path.join(P.remote, name)
        with unguarded():
            os.makedirs(os.path.dirname(p), exist_ok=True)
        make(p, 'file')
        r = P.Remote(p)
        if ask(ctx, P, p, r, 'path of %d characters' % len(p)):
            refused = n
            ctx.count('refused as too long')
        else:
            ctx.count('long paths answered')
        session_is_fine(P, 'path of %d characters' % len(p))
        ctx.state(n)
        ctx.trace()
        remove(p)
    check(refused is None or refused > 100, 'a path of %s characters is refused', refused)


def modes(ctx, case, P):
    for kind in ('file', 'dir', 'empty'):
        for u in range(8):
            for go in (0o00, 0o77, 0o70, 0o07):
                m = u << 6 | go
                p = os.path.join(P.remote, 'x')
                make(p, kind)
                os.chmod(p, m)
                ask(ctx, P, p, P.Remote(p), '%s with mode %o' % (kind, m))
                if kind == 'dir':
                    os.chmod(p, 0o700)
                    make(p + '/in', 'file')
                    os.chmod(p, m)
                    ask(ctx, P, p + '/in', P.Remote(p + '/in'), 'file in a directory with mode %o' % m)
                    os.chmod(p, 0o700)
                remove(p)
                ctx.state((kind, m))
                ctx.trace()
    for p in ('/', '/etc', '/etc/passwd', '/etc/shadow', '/root', '/root/x', '/bin/bash', '/dev/null', '/nowhere', '/etc/passwd/x'):
        r = P.Remote(p)
        for m, b in (('read', os.R_OK), ('write', os.W_OK), ('execute', os.X_OK)):
            if p != '/etc/passwd/x':
                check_eq(bool(r.access(m)), os.access(p, b), 'access %s of %s' % (m, p))
                check_eq(bool(r.access(b)), os.access(p, b), 'access %s of %s' % (b, p))
        ctx.trans(6)
        ctx.state(p)


def users(ctx, case):
    me, mine = os.getuid(), os.getgid()
    other = me + 1, mine + 1
    uid, gids = {
        'owner': (me, [other[1]]), 'owner and member': (me, [mine]), 'member': (other[0], [mine]),
        'member of another group': (other[0], [other[1], 0]), 'member by another group': (other[0], [other[1], 0, mine]),
        'other': (other[0], [other[1]]), 'root': (0, [0])}[case['user']]
    who = os.path.join(os.environ['HOME'], 'identity')
    with unguarded():
        with open(who, 'w') as f:
            f.write('%d\n%s\n' % (uid, ' '.join(map(str, gids))))
    try:
        P = Project(os.path.join(ctx.fresh(), 'b'))
    finally:
        with unguarded():
            os.unlink(who)
    try:
        p = os.path.join(P.remote, 'x')
        bits = (0, 1, 2, 4, 7) if case['modes of users'] == 5 else range(8)
        for kind in ('file', 'dir'):
            make(p, kind)
            for u, g, o in itertools.product(bits, repeat=3):
                m = u << 6 | g << 3 | o
                with unguarded():
                    os.chmod(p, m)
                cls = u if uid == me else g if mine in gids else o
                r = P.Remote(p)
                for name, b in (('read', os.R_OK), ('write', os.W_OK), ('execute', os.X_OK)):
                    want = bool(cls & b)
                    if uid == 0:    # may do everything that makes sense
                        want = b != os.X_OK or kind == 'dir' or bool(m & 0o111)
                    arg = name if (u + g + o) % 2 else b
                    check_eq(bool(r.access(arg)), want, 'the user of the session is %s: access %r of a %s with mode %o' % (
                        case['user'], arg, kind, m))
                    ctx.trans()
                    ctx.evaluation()
                ctx.state((case['user'], kind, m))
            with unguarded():
                os.chmod(p, 0o700)
            remove(p)
            ctx.trace()
    finally:
        P.close()


ENTRIES = (('f', 'file'), ('e', 'empty'), ('.h', 'file'), ('d', 'dir'), ('.d', 'dir'), ('a b', 'file'), ("q'\"$x`", 'file'), ('-n', 'file'),
           ('*', 'file'), ('two  spaces', 'empty'), ('l', 'link'), ('\u00e9', 'file'), ('\\', 'file'), ('--', 'dir'), ('----', 'file'), ('unreadable', 'file'),
           (' lead', 'file'), ('trail ', 'file'), ('Is a directory', 'file'))


def trees(ctx, case, P):
    n = 0
    for size in range(case['size'] + 1):
        for sub in itertools.combinations(ENTRIES, size):
            n += 1
            if n % case['of'] != case['trees']:
                continue
            d = os.path.join(P.remote, ('plain', 'a b', "it's $HOME", '-d')[n % 4])
            make(d, 'dir')
            for name, kind in sub:
                if kind == 'link':
                    with unguarded():
                        os.symlink('/etc/passwd', os.path.join(d, name))
                else:
                    make(os.path.join(d, name), kind)
                if name == 'unreadable':
                    os.chmod(os.path.join(d, name), 0)
            what = 'children of %r with %r' % (os.path.basename(d), [s for s in sub])
            before = {x: os.lstat(os.path.join(d, x)) for x, _ in sub}
            tag, res = outcome(lambda: P.Remote(d).children)
            if tag == 'raise' and isinstance(res, exc.CommandTooLongError):
                ctx.count('refused as too long')
            else:
                check(tag == 'ok', '%s: failed with %r', what, res)
                stats, checks = res
                want = {x for x, _ in sub}
                check_eq({x for x in stats if x not in ('.', '..')}, want, what + ': names')
                for name, kind in sub:
                    same_stat(stats[name], before[name], '%s: stat of %r' % (what, name))
                sums = {x: P.Path(os.path.join(d, x)).checksum() for x, kind in sub if kind != 'dir' and x != 'unreadable'}
                check_eq({k: v for k, v in checks.items() if k not in ('.', '..')}, sums, what + ': checksums')
                ctx.count('listed')
            session_is_fine(P, what)
            ctx.trans()
            ctx.trace()
            ctx.state(tuple(sub))
            remove(d)


CHANGES = ('write', 'append', 'remove', 'mkdir', 'touch', 'chmod', 'replace', 'none')


def change(p, c):
    with unguarded():
        if c == 'write':
            if not os.path.isdir(p):
                open(p, 'w').write('written')
        elif c == 'append':
            if not os.path.isdir(p):
                open(p, 'a').write('more')
        elif c == 'remove':
            remove(p)
        elif c == 'mkdir':
            if not os.path.lexists(p):
                os.mkdir(p)
        elif c == 'touch':
            if os.path.lexists(p):
                os.utime(p, ns=(10 ** 18 + 5, 10 ** 18 + 123456789))
        elif c == 'chmod':
            if os.path.lexists(p):
                os.chmod(p, 0o640 if os.path.isfile(p) else 0o750)
        elif c == 'replace':
            if not os.path.isdir(p):
                open(p + '~', 'w').write('replaced')
                os.replace(p + '~', p)


def seq(ctx, case, P):
    """one remote path object, everything around it changes"""
    for rest in itertools.product(CHANGES, repeat=case['depth']):
        p = os.path.join(P.remote, 'f')
        r = P.Remote(p)
        prog = (CHANGES[case['seq']],) + rest
        for c in prog:
            change(p, c)
            ask(ctx, P, p, r, 'after %r' % (prog,))
        if os.path.isfile(p):
            l = P.Path(p).meta
            m = r.meta
            for k in ('name', 'size', 'updated', 'checksum', 'gid', 'user_id', 'mode', 'file_id'):
                check_eq(getattr(m, k), getattr(l, k), 'after %r: %s of the metadata' % (prog, k))
            check_eq(m.id, HOST + ':' + p, 'after %r: id of the metadata' % (prog,))
        ctx.state((prog, os.path.isfile(p)))
        ctx.trace()
        remove(p)


def fetch(ctx, case, P):
    """from a path on the remote to the same file in the project"""
    for parts in (('f',), ('a b',), ('d', 'f'), ('d e', "it's"), ('d', 'e', '$x'), ('-n',), ('\u00e9',)):
        for kind in ('file', 'empty'):
            p = os.path.join(P.remote, *parts)
            with unguarded():
                os.makedirs(os.path.dirname(p), exist_ok=True)
            make(p, kind)
            what = '%s %r' % (kind, '/'.join(parts))
            r = P.Remote(p)
            tag, c = outcome(r.cache_init, parents=True)
            check(tag == 'ok', '%s: cache_init failed with %r', what, c)
            l = P.Path(os.path.join(P.local, *parts))
            check_eq(str(c.local), str(l), what + ': local path')
            check(os.path.islink(l), '%s: no placeholder', what)
            check_eq(l.cache.meta.id, HOST + ':' + p, what + ': id of the placeholder')
            check_eq(l.remote.rpath, p, what + ': remote of the local path')
            check_eq(r.local.as_posix(), l.as_posix(), what + ': local of the remote')
            check_eq(l.remote.parent.rpath, os.path.dirname(p), what + ': parent of the remote')
            check_eq(l.parent.remote.rpath, os.path.dirname(p), what + ': remote of the parent')
            tag, v = outcome(lambda: l.cache.fetch(size_limit_mb=None))
            check(tag == 'ok', '%s: fetch failed with %r', what, v)
            check(not os.path.islink(l), '%s: still a placeholder after fetching', what)
            check_eq(open(l, 'rb').read(), open(p, 'rb').read(), what + ': content')
            check_eq(l.cache.meta.checksum, l.checksum(), what + ': checksum')
            ctx.trans(4)
            ctx.trace()
            ctx.state(what)
            with unguarded():
                shutil.rmtree(P.local)
                os.makedirs(P.local)
                remove(os.path.join(P.remote, parts[0]))
            P.close()
            shutil.rmtree(P.base)
            P.__init__(P.base)
    for out in (os.path.dirname(P.remote), '/etc/passwd', P.remote + '-other/f'):
        r = P.Remote(out)
        tag, v = outcome(lambda: r.cache_init())
        check(tag == 'raise' and isinstance(v, ValueError), 'cache_init of %s, outside of the anchor gives %r', out, v)
        ctx.state(out)


def run(ctx, case):
    if 'user' in case:
        users(ctx, case)
        ctx.sample(case)
        return
    P = Project(os.path.join(ctx.fresh(), 'b'))
    try:
        for k in ('names', 'words', 'lengths', 'modes', 'trees', 'seq', 'fetch'):
            if k in case:
                {'words': names}.get(k, globals()[k] if k != 'words' else None)(ctx, case, P)
    finally:
        P.close()
    ctx.sample(case)
