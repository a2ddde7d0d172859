"""C07: copying never overwrites without force, copies every byte, and a copy
that cannot read its source changes nothing."""
import itertools
import os
import shutil
import stat

import augpathlib as aug
from mc import fsx
from mc.harness import check, check_eq, outcome, observe, unguarded

ID = 'C07'
LEVEL = 'model_checking'
RULE = ('cases = every (class, source kind, target kind, force) combination; each is run with every method '
        '(copy_to, copy_from, copy_outto, copy_infrom, data setter) and target class, and with every read or open '
        'of the source failing')
ASSUMPTIONS = ['no concurrent writer', 'failures of the disk in the middle of writing the target are out of scope']
SIZES = (0, 1, 4095, 4096, 4097, 8192, 10000)
SOURCES = tuple('f%d' % n for n in SIZES) + ('link', 'dir', 'missing', 'unreadable', 'dangling', 'loop', 'notdir')
TARGETS = ('missing', 'f0', 'f3', 'f9000', 'same', 'hardlink', 'link2src', 'src2link', 'link', 'dangling', 'loop',
           'dir', 'linkdir', 'noparent', 'readonly', 'selfloop-data')
CLASSES = ('AugmentedPath', 'LocalPath', 'RepoPath')
METHODS = ('copy_to', 'copy_from', 'copy_outto', 'copy_infrom')


def bounds(tier):
    return '%d sources x %d targets x force x %d methods x %d class pairs' % (
        len(SOURCES), len(TARGETS), len(METHODS), len(CLASSES) + 2)


def cases(tier):
    for sc, tc in [(c, c) for c in CLASSES] + [('AugmentedPath', 'LocalPath'), ('LocalPath', 'AugmentedPath')]:
        for s in SOURCES:
            for t in TARGETS:
                yield {'s': s, 't': t, 'sc': sc, 'tc': tc}
    for n in SIZES:
        for chunk in (1, 3, 4096) if n < 4096 or tier == 'thorough' else (1000, 4096):
            for old in (0, 5, 9000):
                yield {'setter': True, 'size': n, 'chunk': chunk, 'old': old}
                if n < 2 or chunk > 3:
                    for gap in (0, 1, 2, 99):
                        yield {'setter': True, 'size': n, 'chunk': chunk, 'old': old, 'gap': gap}


def content(n, tag=7):
    return bytes((i * 31 + i // 251 * 7 + tag) % 256 for i in range(n))


def make(case, sname, tname):
    s, t = case['s'], case['t']
    with unguarded():
        os.makedirs('in')
        os.makedirs('out')
        os.makedirs('w')
        fsx.build('w', {'wf': ('f', b'other file'), 'dd': ('d', {'k': ('f', b'k')})})
        sp, tp = 'in/' + sname, 'out/' + tname
        if s[0] == 'f':
            fsx.put(sp, ('f', content(int(s[1:]))))
        elif s == 'link':
            fsx.put('w/real', ('f', content(5000)))
            fsx.put(sp, ('l', '../w/real'))
        elif s == 'dir':
            fsx.put(sp, ('d', {'x': ('f', b'x')}))
        elif s == 'unreadable':
            fsx.put(sp, ('f', b'secret'))
            os.chmod(sp, 0)
        elif s == 'dangling':
            fsx.put(sp, ('l', 'nowhere'))
        elif s == 'loop':
            fsx.put(sp, ('l', sname + '/x'))
        if t == 'missing':
            pass
        elif t[0] == 'f':
            fsx.put(tp, ('f', content(int(t[1:]), 99)))
            os.setxattr(tp, 'user.keep', b'me')
        elif t == 'hardlink':
            if os.path.isfile(sp) and not os.path.islink(sp):
                os.link(sp, tp)
        elif t == 'link2src':
            fsx.put(tp, ('l', '../' + sp))
        elif t == 'src2link':
            if s[0] == 'f':
                os.rename(sp, tp)
                fsx.put(sp, ('l', '../' + tp))
        elif t == 'link':
            fsx.put(tp, ('l', '../w/wf'))
        elif t == 'dangling':
            fsx.put(tp, ('l', 'gone'))
        elif t == 'loop':
            fsx.put(tp, ('l', tname))
        elif t == 'selfloop-data':
            fsx.put(tp, ('l', tname + '/some/.meta'))
        elif t == 'dir':
            fsx.put(tp, ('d', {'y': ('f', b'y')}))
        elif t == 'linkdir':
            fsx.put(tp, ('l', '../w/dd'))
        elif t == 'readonly':
            fsx.put(tp, ('f', b'keep this'))
            os.chmod(tp, 0o444)
        if t == 'noparent':
            tp = 'nodir/' + tname
        if t == 'same':
            tp = sp
        if s == 'notdir':
            fsx.put('in/plain', ('f', b'p'))
            sp = 'in/plain/x'
    return sp, tp


def run(ctx, case):
    if case.get('setter'):
        return setter(ctx, case)
    for force, method in itertools.product((False, True), METHODS):
        execute(ctx, case, force, method, None)
        if case['s'] in ('f1', 'f4097', 'link') and case['t'] in ('missing', 'f3', 'link'):
            execute(ctx, case, force, method, 'open')


def execute(ctx, case, force, method, fault):
    d = ctx.fresh()
    same_name = method in ('copy_outto', 'copy_infrom')
    sp, tp = make(case, 'n', 'n' if same_name else 'm')
    sc, tc = getattr(aug, case['sc']), getattr(aug, case['tc'])
    S = sc(d, sp)
    if method in ('copy_to', 'copy_from'):
        T = tc(d, tp)
        call = S.copy_to if method == 'copy_to' else T.copy_from
        arg = T if method == 'copy_to' else S
    else:
        T = tc(d, os.path.dirname(tp))
        call = S.copy_outto if method == 'copy_outto' else T.copy_infrom
        arg = T if method == 'copy_outto' else S
    what = '%s %s -> %s %s %s force=%s %s' % (case['sc'], case['s'], case['tc'], case['t'], method, force, fault or '')
    with unguarded():
        before = fsx.snapshot(d)
        try:
            with open(sp, 'rb') as f:
                data = f.read()
            readable = True
        except OSError:
            readable = False
        lexists = os.path.lexists(tp)
        samefile = readable and os.path.exists(tp) and os.path.samefile(sp, tp)
        real = os.path.realpath(tp)
    hit = []

    def obs(event, ps):
        if fault == 'open' and event == 'open-read' and ps[0] and os.path.realpath(ps[0]) == os.path.realpath(sp):
            hit.append(event)
            raise PermissionError(13, 'injected', ps[0])

    with observe(obs):
        o = outcome(call, arg, force=force)
    ctx.trans()
    ctx.trace()
    ctx.state((case['s'], case['t'], case['sc'], case['tc'], force, method, fault))
    after = fsx.snapshot(d)
    dif = fsx.diff(before, after)
    if o[0] == 'raise':
        check(isinstance(o[1], Exception), '%s: %r', what, o[1])
    if lexists and not force or not readable or hit or samefile:
        check_eq(dif, {}, what + ': changed something (%r)' % (o[1],))
        check(o[0] == 'raise' or samefile and force, '%s: succeeded', what)
        if lexists and not force and readable and not hit:
            check(isinstance(o[1], aug.exceptions.PathExistsError), '%s: raised %r', what, o[1])
        return
    if o[0] == 'raise':
        legit = case['t'] in ('noparent', 'readonly', 'dir', 'linkdir', 'loop', 'selfloop-data')
        check(legit, '%s: failed with %r', what, o[1])
        check_eq(dif, {}, what + ': failed and changed something')
        return
    # succeeded: the target reads as the source, nothing else changed
    rel = os.path.relpath(real, d)
    if os.path.isdir(tp):
        rel = os.path.join(rel, os.path.basename(sp))
    with open(rel, 'rb') as f:
        got = f.read()
    check_eq((len(got), got == data), (len(data), True), what + ': content')
    check(set(dif) <= {rel}, '%s: changed %s', what, sorted(dif))
    if case['t'] == 'readonly':
        check(False, '%s: wrote a read only file', what)
    if same_name and o[1] is not None:
        check_eq(str(o[1]), os.path.join(d, tp), what + ': returned')
    if case['tc'] == 'LocalPath' and case['sc'] == 'LocalPath' and case['t'] in ('f0', 'f3', 'f9000'):
        check_eq(os.getxattr(rel, 'user.keep'), b'me', what + ': extended attributes of the target')


class Source(Exception):
    pass


def setter(ctx, case):
    """path.data = iterator, the iterator failing at every point"""
    n, c = case['size'], case['chunk']
    data = content(n)
    chunks = [data[i:i + c] for i in range(0, n, c)]
    if 'gap' in case:
        # nothing arrives for a while: a chunk without content in front of the given one, or of all
        chunks = [x for i, ch in enumerate(chunks or [b'']) for x in ((b'', ch) if case['gap'] in (i, 99) else (ch,))]
    points = list(range(0, min(len(chunks), 4) + 1)) + [None]
    for how in ('data', 'chain', 'append'):
        for p in points:
            ctx.fresh()
            with open('f', 'wb') as f:
                f.write(content(case['old'], 99))
            os.setxattr('f', 'user.keep', b'me')
            ino = os.stat('f').st_ino
            P = aug.LocalPath('f')

            def gen():
                for i, ch in enumerate(chunks):
                    if i == p:
                        raise Source()
                    yield ch
                if p is not None and p >= len(chunks):
                    raise Source()

            def assign():
                if how == 'data':
                    P.data = gen()
                else:
                    out = []
                    for ch in P._data_setter(gen(), append=how == 'append'):
                        out.append(ch)
                    return b''.join(out)

            if how != 'data' and not hasattr(P, '_data_setter'):
                continue
            o = outcome(assign)
            ctx.trans()
            ctx.state((n, c, case['old'], case.get('gap'), how, p))
            ctx.trace()
            what = '%s: %d bytes in chunks of %d over %d, iterator fails at %r' % (how, n, c, case['old'], p)
            with open('f', 'rb') as f:
                now = f.read()
            old = content(case['old'], 99) if how == 'append' or p == 0 else b''
            if p is None:
                check(o[0] == 'ok', '%s: %r', what, o[1])
                check(now == old + data, '%s: content differs, %d bytes', what, len(now))
                if how != 'data':
                    check(o[1] == data, '%s: chunks passed on differ', what)
            else:
                check(o[0] == 'raise' and isinstance(o[1], Source), '%s: %r', what, o[1])
                check(now == old + (b''.join(chunks[:p])), '%s: content %d bytes', what, len(now))
            check_eq(os.stat('f').st_ino, ino, what + ': inode')
            check_eq(os.getxattr('f', 'user.keep'), b'me', what + ': xattr')
    ctx.state((n, c, case['old']))
