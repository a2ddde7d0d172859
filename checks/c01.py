"""C01: path predicates are total and agree with POSIX name resolution on every
symlink graph.  Explicit-state: every graph over a bounded set of names is
built for real, a reference resolver (the POSIX algorithm with its 40-link
budget, written here) computes the expected answer for every query path and the
real predicates are executed on every one of them."""
import errno
import itertools
import os
import pathlib

import augpathlib as aug
from mc import fsx
from mc.harness import Violation, check, check_eq, outcome

ID = 'C01'
LEVEL = 'model_checking'
RULE = ('cases = all assignments of {absent, file, dir with a child, fifo, symlink to each possible target} '
        'to the names of a directory; every query path x every predicate x absolute/relative '
        'is executed on each and compared with a reference implementation of POSIX resolution')
CHUNK = 16
ASSUMPTIONS = ['runs as an unprivileged user on a local Linux file system',
               'the reference resolver is itself compared with os.stat/os.lstat on every query']


def bounds(tier):
    return '3 names, %d node kinds each (quick) / 4 names (thorough); permission grid 8 modes x 6 requests' % len(kinds(tier))


def kinds(tier):
    k = [None, ('f', 'x'), ('d', {'y': ('f', 'q')}),
         ('l', 'a'), ('l', 'b'), ('l', 'c'), ('l', '.'), ('l', '..'), ('l', 'missing'),
         ('l', 'a/y'), ('l', 'b/b'), ('l', 'c/../a'), ('l', '{ROOT}/t/a'), ('p', '')]
    if tier == 'thorough':
        k += [('l', 'd'), ('l', '{ROOT}/t/b/y'), ('l', 'a/')]
    return k


def cases(tier):
    ks = kinds(tier)
    names = 'abc' if tier == 'quick' else 'abcd'
    for combo in itertools.product(range(len(ks)), repeat=len(names)):
        if tier == 'thorough' and len(names) == 4 and combo[3] > 11:
            continue
        yield {'kind': 'graph', 'tier': tier, 'nodes': dict(zip(names, combo))}
    for n in (1, 2, 39, 40, 41, 42):
        yield {'kind': 'chain', 'n': n}
    for mode in range(8):
        for t in ('f', 'd', 'l'):
            yield {'kind': 'access', 'mode': mode, 't': t}
    yield {'kind': 'noaccess'}
    yield {'kind': 'longname'}


class ELoop(Exception):
    pass


def resolve(spec, cwd_parts, path, follow_last=True):
    """reference resolver over the in-memory tree `spec` mounted at /; returns
    node or raises OSError(errno).  path: absolute list or relative to cwd."""
    budget = [40]

    def walk(parts_todo, cur):
        # cur: list of (name,node) from root
        todo = list(parts_todo)
        while todo:
            n = todo.pop(0)
            if n in ('', '.'):
                # a trailing slash requires a directory
                if cur[-1][1][0] != 'd':
                    raise OSError(errno.ENOTDIR, '')
                continue
            if cur[-1][1][0] != 'd':
                raise OSError(errno.ENOTDIR, '')
            if n == '..':
                if len(cur) > 1:
                    cur = cur[:-1]
                continue
            node = cur[-1][1][1].get(n)
            if node is None:
                raise OSError(errno.ENOENT, '')
            if node[0] == 'l' and (todo or follow_last):
                budget[0] -= 1
                if budget[0] < 0:
                    raise OSError(errno.ELOOP, '')
                t = node[1]
                tp = t.split('/')
                if t.startswith('/'):
                    cur = cur[:1]
                    tp = tp[1:]
                if tp and tp[-1] == '':
                    tp[-1] = '.'
                todo = tp + todo
                continue
            cur = cur + [(n, node)]
        return cur

    rootn = ('', ('d', spec))
    if path.startswith('/'):
        return walk([p for p in path.split('/') if p], [rootn])[-1][1]
    cur = [rootn]
    for p in cwd_parts:
        cur = cur + [(p, cur[-1][1][1][p])]
    return walk([p for p in path.split('/') if p], cur)[-1][1]


IGN = (errno.ENOENT, errno.ENOTDIR, errno.ELOOP)


def expected(spec, cwd, path):
    try:
        n = resolve(spec, cwd, path)
        kind = n[0]
    except OSError as e:
        kind = None
        err = e.errno
    try:
        ln = resolve(spec, cwd, path, follow_last=False)[0]
    except OSError as e:
        ln = None
    ex = kind is not None
    sym = ln == 'l'
    return dict(exists=ex, is_file=kind == 'f', is_dir=kind == 'd', is_symlink=sym,
                is_broken_symlink=sym and not ex, exists_not_symlink=ex and not sym), ln


QUERIES = ['a', 'b', 'c', 'a/y', 'b/y', 'c/y', 'a/b', 'b/../a', 'a/y/z', 'missing', 'a/../../t/c', '.',
           'c/a/b/c']
PRED = ('exists', 'is_file', 'is_dir', 'is_symlink', 'is_broken_symlink', 'exists_not_symlink')
CLASSES = ('AugmentedPath', 'LocalPath')


def query(ctx, spec, cwd, path, cls):
    p = getattr(aug, cls)(path)
    exp, ln = expected(spec, cwd, str(p))
    # keep the reference honest
    try:
        os.stat(str(p))
        real = True
    except OSError as e:
        if e.errno not in IGN:
            raise
        real = False
    if real != exp['exists'] or os.path.islink(str(p)) != exp['is_symlink']:
        raise Violation('harness: reference resolver disagrees with the OS on %r' % path)
    for pred in PRED:
        o = outcome(getattr(p, pred))
        ctx.trans()
        if o[0] != 'ok':
            raise Violation('%s(%r).%s() raised %r' % (cls, path, pred, o[1]))
        check(o[1] is exp[pred], '%s(%r).%s() returned %r, expected %r', cls, path, pred, o[1], exp[pred])
    if ln == 'l':
        raw = p.readlink(raw=True)
        check_eq((type(raw), raw), (str, os.readlink(str(p))), 'readlink(raw=True) of %r' % path)
        pl = p.readlink()
        check(isinstance(pl, pathlib.PurePath) and not isinstance(pl, pathlib.Path),
              'readlink must return a pure path, got %r', type(pl))
        check_eq(pl, pathlib.PurePosixPath(os.readlink(str(p))), 'readlink of %r' % path)
    # resolve: the canonical path of whatever exists; a loop is reported, never hangs
    o = outcome(p.resolve)
    ctx.trans()
    if exp['exists']:
        check(o[0] == 'ok' and str(o[1]) == os.path.realpath(str(p)), 'resolve(%r) -> %r, expected %r',
              path, o, os.path.realpath(str(p)))
    else:
        check(o[0] == 'ok' and o[1].is_absolute() or isinstance(o[1], RuntimeError),
              'resolve of the unresolvable %r: %r', path, o)
    ctx.state((str(sorted(spec_key(spec).items())), path, cls))
    ctx.trace()


def spec_key(spec):
    return {k: (v[0], v[1] if v[0] != 'd' else spec_key(v[1])) for k, v in spec.items() if v is not None}


def run(ctx, case):
    d = ctx.fresh()
    if case['kind'] == 'graph':
        ks = kinds(case['tier'])
        os.mkdir('t')
        inner = {n: ks[i] for n, i in case['nodes'].items()}
        fsx.build('t', {n: v for n, v in inner.items() if v is not None and v[0] != 'l'})
        for n, v in inner.items():
            if v is not None and v[0] == 'l':
                os.symlink(v[1].replace('{ROOT}', d), 't/' + n)
        inner = {n: (('l', v[1].replace('{ROOT}', d)) if v and v[0] == 'l' else v)
                 for n, v in inner.items() if v is not None}
        spec = {'t': ('d', inner)}
        parts = [x for x in d.split('/') if x]
        for x in reversed(parts):
            spec = {x: ('d', spec)}
        os.chdir('t')
        for q in QUERIES:
            for cls in CLASSES:
                query(ctx, spec, parts + ['t'], q, cls)
                query(ctx, spec, parts + ['t'], d + '/t/' + q, cls)
    elif case['kind'] == 'chain':
        n = case['n']
        inner = {'end': ('f', 'x')}
        prev = 'end'
        for i in range(n):
            inner['l%d' % i] = ('l', prev)
            prev = 'l%d' % i
        fsx.build('.', inner)
        spec = inner
        parts = [x for x in d.split('/') if x]
        for x in reversed(parts):
            spec = {x: ('d', spec)}
        for cls in CLASSES:
            for q in (prev, d + '/' + prev, prev + '/x'):
                # pathlib resolve itself has no 40 link budget: predicates only
                p = getattr(aug, cls)(q)
                exp, _ = expected(spec, parts, str(p))
                for pred in PRED:
                    o = outcome(getattr(p, pred))
                    ctx.trans()
                    check(o[0] == 'ok' and o[1] is exp[pred], 'chain of %d links: %s(%r) -> %r expected %r',
                          n, pred, q, o, exp[pred])
        ctx.trace()
    elif case['kind'] == 'access':
        mode = case['mode'] << 6
        if case['t'] == 'd':
            os.mkdir('x')
        else:
            open('x', 'w').close()
        os.chmod('x', mode)
        target = 'x'
        if case['t'] == 'l':
            os.symlink('x', 'lnk')
            target = 'lnk'
        for cls in CLASSES:
            for q in (target, d + '/' + target, 'nope'):
                p = getattr(aug, cls)(q)
                for req, bit in (('read', os.R_OK), ('write', os.W_OK), ('execute', os.X_OK),
                                 (os.R_OK, os.R_OK), (os.W_OK, os.W_OK), (os.X_OK, os.X_OK)):
                    want = q != 'nope' and bool(case['mode'] & bit)
                    o = outcome(p.access, req)
                    ctx.trans()
                    check(o == ('ok', want), 'access(%r) with mode %o: %r expected %r', req, mode, o, want)
                o = outcome(p.access, 'bogus')
                check(o[0] == 'raise' and isinstance(o[1], TypeError), 'access of unknown mode: %r', o)
                if case['t'] == 'l' and q != 'nope':
                    check(p.access('read', follow_symlinks=False) ==
                          os.access(q, os.R_OK, follow_symlinks=False), 'access of the link itself')
        ctx.trace()
        os.chmod('x', 0o700)
    elif case['kind'] == 'noaccess':
        fsx.build('.', {'n': ('d', {'f': ('f', '')}), 'ln': ('l', 'n/f')})
        os.chmod('n', 0)
        for cls in CLASSES:
            for q in ('n/f', 'ln', d + '/n/f'):
                p = getattr(aug, cls)(q)
                for pred in ('exists', 'is_file', 'is_dir', 'exists_not_symlink'):
                    o = outcome(getattr(p, pred))
                    ctx.trans()
                    check(o[0] == 'raise' and isinstance(o[1], PermissionError),
                          '%s below an unsearchable directory must not be answered, got %r', pred, o)
            check(getattr(aug, cls)('ln').is_symlink() is True, 'link itself is visible')
        os.chmod('n', 0o700)
        ctx.trace()
    elif case['kind'] == 'longname':
        for cls in CLASSES:
            p = getattr(aug, cls)('n' * 300)
            for pred in ('exists', 'is_file', 'is_dir'):
                o = outcome(getattr(p, pred))
                ctx.trans()
                check(o[0] == 'raise' and isinstance(o[1], OSError) and o[1].errno == errno.ENAMETOOLONG,
                      'over-long name: %s -> %r', pred, o)
        ctx.trace()
