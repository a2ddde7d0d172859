"""C35: what a path is taken to be and what opens it."""
import itertools
import mimetypes
import os
import re
import time

import augpathlib as aug
from augpathlib import LocalPath
from augpathlib.core import XopenPath
from mc import fsx
from mc.fakes import Node, Server
from mc import sync
from mc.harness import check, check_eq, outcome, unguarded

ID = 'C35'
LEVEL = 'model_checking'
RULE = ('every name out of all stems up to a length over the characters that mean something in uris, options and shells x every '
        'ending (known types, encodings, both, unknown, registered by the class, capitals) x kind of file (file, directory, missing, links to '
        'each, broken link, loop, placeholder of a project) x way the path is spelled; and every such name x way of opening it with a '
        'stand-in for the program that records its arguments')
ASSUMPTIONS = ['the table of types of the python that runs the check', 'POSIX opener']
CHUNK = 1
CASE_LIMIT = 300
CHARS = 'a?#%:;-&~= \n$\'é\udcff+.'
ENDS = ('', '.txt', '.png', '.tar.gz', '.TXT', '.gz', '.unk', '.a.unk', '.json', '.')
KINDS = ('file', 'dir', 'missing', 'link to file', 'link to dir', 'broken', 'loop', 'missing parent')


class Typed(LocalPath):
    _suffix_mimetypes = {('.unk',): 'application/x-unk', ('.a', '.unk'): 'application/x-a-unk', ('.txt',): 'never/used'}


Typed._bind_flavours()


def bounds(tier):
    return 'stems of up to %d out of %d characters, %d endings, %d kinds' % (2 if tier == 'quick' else 3, len(CHARS), len(ENDS), len(KINDS))


def cases(tier):
    n = 2 if tier == 'quick' else 3
    for a in CHARS:
        yield {'first': a, 'len': n}
    yield {'placeholder': True}
    for a in CHARS:
        yield {'open': a, 'len': 2}
    yield {'open': '', 'len': 0}


def stems(first, n):
    for k in range(n):
        for t in itertools.product(CHARS, repeat=k):
            yield first + ''.join(t)


def spellings(root, d, n):
    """the same file in different words, as seen from d"""
    p = os.path.join(d, n)
    yield d, n
    yield d, p
    yield d, './' + n
    yield d, os.path.join('..', os.path.basename(d), n)
    yield root, os.path.join(os.path.basename(d), n)
    yield os.path.join(root, 'else'), os.path.join('..', os.path.basename(d), n)


def want(cls, n, isdir):
    mime, encoding = mimetypes.guess_type('/x/' + n)
    if isdir:
        return 'inode/directory', encoding
    if not mime and cls is Typed:
        # as pathlib defines suffixes
        mime = Typed._suffix_mimetypes.get(tuple(__import__('pathlib').PurePosixPath(n).suffixes))
    return mime, encoding


def ask(ctx, root, d, n, isdir, what):
    for cwd, sp in spellings(root, d, n):
        if not os.path.isdir(cwd):
            continue
        os.chdir(cwd)
        for cls in (LocalPath, Typed):
            p = cls(sp)
            if p.name != n:
                continue
            o = outcome(lambda: (p.mimetype, p.encoding))
            ctx.trans()
            check(o[0] == 'ok', '%s, %s(%r): raised %r', what, cls.__name__, sp, o[1])
            check_eq(o[1], want(cls, n, isdir), '%s, %s(%r): mimetype and encoding' % (what, cls.__name__, sp))
    ctx.state(what)


def run(ctx, case):
    if 'open' in case:
        return opening(ctx, case)
    root = ctx.fresh()
    if 'placeholder' in case:
        return placeholder(ctx, root)
    with unguarded():
        os.mkdir('else')
        os.mkdir('to')
        with open('to/file.png', 'w') as f:
            f.write('x')
        os.mkdir('to/dir.png')
    i = 0
    for stem in stems(case['first'], case['len']):
        for end in ENDS:
            n = stem + end
            if n in ('.', '..') or len(os.fsencode(n)) > 200:
                continue
            for kind in KINDS:
                i += 1
                d = os.path.join(root, 'd%d' % i)
                with unguarded():
                    if kind != 'missing parent':
                        os.mkdir(d)
                    p = os.path.join(d, n)
                    if kind == 'file':
                        with open(p, 'w') as f:
                            f.write('x')
                    elif kind == 'dir':
                        os.mkdir(p)
                    elif kind.startswith('link to'):
                        os.symlink('../to/%s.png' % kind[8:], p)
                    elif kind == 'broken':
                        os.symlink('no/where.tar.gz', p)
                    elif kind == 'loop':
                        os.symlink(n, p)
                ask(ctx, root, d, n, kind in ('dir', 'link to dir'), '%r, %s' % (n, kind))
                os.chdir(root)
                with unguarded():
                    if kind == 'dir':
                        os.rmdir(p)
                    elif 'missing' not in kind:
                        os.unlink(p)
                    if kind != 'missing parent':
                        os.rmdir(d)
            ctx.evaluation(n)
    ctx.trace()


def placeholder(ctx, root):
    """a file of a project that is not there yet is what it is going to be"""
    names = [s + e for s in ('a', 'a b', 'é') for e in ENDS]
    nodes = [Node('R', 'proj', None, 'dir'), Node('D', 'd', 'R', 'dir')]
    nodes += [Node('F%d.png' % i, n, 'D', 'file', b'data') for i, n in enumerate(names)]
    with unguarded():
        os.mkdir('else')
    c = sync.Client(Server(nodes), os.path.join(root, 'proj'))
    c.bootstrap()
    for fetched in (False, True):
        for n in names:
            if fetched:
                c.p('d', n).cache.fetch()
            d = os.path.join(c.root, 'd')
            check(os.path.islink(os.path.join(d, n)) is not fetched, 'harness: %r', n)
            for cwd, sp in spellings(c.root, d, n):
                if not os.path.isdir(cwd):
                    continue
                os.chdir(cwd)
                for p in (c.L(sp), LocalPath(sp)):
                    o = outcome(lambda: (p.mimetype, p.encoding))
                    ctx.trans()
                    check(o[0] == 'ok', 'placeholder %r: raised %r', sp, o[1])
                    check_eq(o[1], want(LocalPath, n, False), 'placeholder %r (%s), fetched %s: mimetype and encoding' % (sp, cwd, fetched))
            os.chdir(root)
            ctx.state(('placeholder', n, fetched))
            ctx.evaluation(('placeholder', n, fetched))
    ctx.trace()


STANDIN = '''#!/bin/sh
{ printf '%s\\0' "${0##*/}" "$#" "$PWD" "$@"; printf '\\0\\n'; } >> LOG
'''


def calls(log):
    """[(program, number of arguments, directory, arguments)]"""
    with unguarded():
        if not os.path.exists(log):
            return []
        with open(log, 'rb') as f:
            data = f.read()
    out = []
    for rec in data.split(b'\0\0\n')[:-1]:
        prog, n, cwd, *args = [os.fsdecode(x) for x in rec.split(b'\0')]
        out.append((prog, int(n), cwd, args))
    return out


def opening(ctx, case):
    root = ctx.fresh()
    bin = os.path.join(root, 'bin')
    log = os.path.join(root, 'log')
    with unguarded():
        os.mkdir(bin)
        os.mkdir('else')
        os.mkdir('d')
        for prog in ('xdg-open', 'open', 'viewer'):
            with open(os.path.join(bin, prog), 'w') as f:
                f.write(STANDIN.replace('LOG', log))
            os.chmod(os.path.join(bin, prog), 0o755)
    old = os.environ['PATH']
    os.environ['PATH'] = bin + ':/usr/bin:/bin'
    try:
        names = list(stems(case['open'], case['len'])) if case['len'] else ['--help', '-rf', 'http:x', 'a b  c', '*', '$(id)', '`id`', ';id', '--', '-']
        for n in names:
            if n in ('.', '..'):
                continue
            d = os.path.join(root, 'd')
            for exists in (True, False):
                if exists:
                    with unguarded():
                        open(os.path.join(d, n), 'w').close()
                for i, (cwd, sp) in enumerate(spellings(root, d, n)):
                    if i > 1 and not (i == 4 and len(n) == 1):
                        continue
                    os.chdir(cwd)
                    for command in (None, 'viewer', os.path.join(bin, 'viewer'), ('not', 'text')):
                        if command not in (None, 'viewer') and (len(n) > 1 or not exists):
                            continue
                        what = '%s(%r).xopen(%r)' % ('XopenPath', sp, command)
                        with unguarded():
                            if os.path.exists(log):
                                os.unlink(log)
                            fresh = snap(d)
                        o = outcome(lambda: XopenPath(sp).xopen(command) if command is not None else XopenPath(sp).xopen())
                        check(o[0] == 'ok', '%s: raised %r', what, o[1])
                        got = wait(log)
                        check_eq(len(got), 1, what + ': number of programs run')
                        prog, nargs, at, args = got[0]
                        check_eq(prog, 'viewer' if isinstance(command, str) else XopenPath._command, what + ': program')
                        check_eq((nargs, len(args)), (1, 1), what + ': number of arguments')
                        a = args[0]
                        check(not a.startswith('-') and not re.match('[A-Za-z][A-Za-z0-9+.-]*:', a), '%s: argument %r is an option or an uri', what, a)
                        check_eq(os.path.normpath(os.path.join(at, a)), os.path.join(d, n), what + ': opens')
                        check_eq(snap(d), fresh, what + ': files')
                        ctx.trans()
                        ctx.evaluation(what)
                os.chdir(root)
                ctx.state((n, exists))
            with unguarded():
                os.unlink(os.path.join(d, n))
        o = outcome(lambda: XopenPath('d').xopen('no-such-program'))
        check(o[0] == 'raise' and isinstance(o[1], FileNotFoundError), 'opening with a program that does not exist: %r', o)
    finally:
        os.environ['PATH'] = old
        os.chdir(root)
    ctx.trace()


def snap(d):
    return fsx.snapshot(d)


def wait(log):
    end = time.time() + 20
    while True:
        try:
            os.waitpid(-1, 0)
        except ChildProcessError:
            pass
        got = calls(log)
        if got or time.time() > end:
            return got
        time.sleep(.002)
