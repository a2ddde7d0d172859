"""C20: sparse directories."""
import itertools
import os

from augpathlib import EatPath, LocalPath, CachePath, PathMeta
from mc import sync
from mc.fsx import snapshot
from mc.harness import check, check_eq, outcome, unguarded

ID = 'C20'
LEVEL = 'model_checking'
RULE = ('marks: every sequence of marking and clearing on a tree of directories, files, a link and missing paths up to the depth '
        'bound x {paths with xattrs, cached paths, caches without xattrs}, after each every path is asked from every directory in '
        'absolute and relative spelling; bootstrap: every remote tree up to a size x every set of included files x {only, skip, '
        'sparse} with this object, another one, both')
ASSUMPTIONS = ['an in-memory remote', 'nothing above the project is marked']
CHUNK = 1
CASE_LIMIT = 200
META = PathMeta(id='X', size=3).as_symlink(local_name='p').name
DIRS = ('', 'a', 'a/b', 'a/b/c', 'd')
PATHS = DIRS + ('f', 'a/f', 'a/b/f', 'a/b/c/f', 'a/b/no', 'no/no', 'a/b/l', 'a/b/c/l', 'a/p', 'a/b/p', 'a/b/p/x', 'a/f/x')


def bounds(tier):
    return 'marks: %d places, depth %d; bootstrap: all trees <= %d objects' % (len(MARKS), 3 if tier == 'quick' else 4,
                                                                           4 if tier == 'quick' else 5)


MARKS = ('', 'a', 'a/b', 'a/b/c', 'd', 'a/b/f')


def cases(tier):
    for kind in ('eat', 'local', 'cache', 'plain'):
        for m in MARKS:
            yield {'kind': kind, 'first': m, 'depth': 3 if tier == 'quick' else 4}
    for n in range(1, 5 if tier == 'quick' else 6):
        for spec in sync.shapes(n):
            yield {'spec': spec}


def tree(d):
    for n in DIRS:
        os.makedirs(os.path.join(d, n), exist_ok=True)
    for n in PATHS:
        if n.endswith('f'):
            with open(os.path.join(d, n), 'w') as f:
                f.write('x')
        elif n.endswith('/l'):
            os.symlink('nowhere', os.path.join(d, n))
        elif n.endswith('/p'):      # a placeholder
            os.symlink('p/' + META, os.path.join(d, n))


def paths_to_ask(kind, root, p):
    yield root, os.path.join(root, p)
    for cwd in DIRS:
        at = os.path.join(root, cwd)
        full = os.path.join(root, p)
        if full == at or full.startswith(at + '/'):
            yield at, os.path.relpath(full, at)


def marks(ctx, case, d):
    kind = case['kind']
    with unguarded():
        tree(d)
    if kind in ('eat', 'local'):
        cls = EatPath if kind == 'eat' else LocalPath
        mk = cls
    elif kind == 'cache':
        L, C, R, h = sync.make(sync.build([]))
        with unguarded():
            sync.anchor_here(L, C, R, h, d)
            for i, n in enumerate(PATHS):
                p = os.path.join(d, n)
                if n and os.path.exists(p):
                    L(p).cache_init('X%d' % i)
                elif n.endswith('/p'):
                    os.unlink(p)
                    os.symlink(PathMeta(id='X%d' % i, size=3).as_symlink(local_name='p'), p)
        mk = C
    else:
        class P(CachePath):
            meta = property(lambda self: PathMeta(id='x'))
        P._bind_flavours()
        P._local_class = LocalPath
        mk = lambda p: P(p)
    ops = [(o, m) for m in MARKS for o in ('mark', 'clear')]
    firsts = [(o, case['first']) for o in ('mark', 'clear')]
    seen = set()

    def go(seq, marked, k):
        nonlocal n
        if k == 0:
            return
        for op in firsts if not seq else ops:
            target = os.path.join(d, op[1])
            new = set(marked)
            if kind == 'plain' and op[1].endswith('f'):
                continue
            p = mk(target)
            o = outcome(p._mark_sparse if op[0] == 'mark' else p._clear_sparse)
            ctx.trans()
            if op[0] == 'mark':
                new.add(op[1])
            else:
                new.discard(op[1])
            check(o[0] == 'ok', '%s %s: raised %r', kind, seq + [op], o[1])
            key = frozenset(new)
            if (key, k) not in seen:
                seen.add((key, k))
                look(ctx, kind, d, mk, new, seq + [op])
                go(seq + [op], new, k - 1)
            ctx.trace()
            # back
            for m in MARKS:
                if (m in new) != (m in marked):
                    q = mk(os.path.join(d, m))
                    (q._mark_sparse if m in marked else q._clear_sparse)()
    n = 0
    go([], set(), case['depth'])


def look(ctx, kind, d, mk, marked, seq):
    here = os.getcwd()
    for p in PATHS:
        want = any(a in marked for a in [p] + [os.path.dirname(p) if p.count('/') < 1 else '/'.join(p.split('/')[:i])
                                            for i in range(p.count('/') + 1)] + [''])
        for cwd, spelled in paths_to_ask(kind, d, p):
            if kind == 'cache' and ('no' in p or p.endswith('l') or p.endswith('/x')):
                continue
            if kind == 'cache' and not spelled.startswith('/') and cwd != d:
                continue
            os.chdir(cwd)
            try:
                o = outcome(lambda: mk(spelled).is_sparse())
            finally:
                os.chdir(here)
            what = '%s after %s: is_sparse of %r in %r' % (kind, seq, spelled, os.path.relpath(cwd, d))
            check(o[0] == 'ok', '%s: raised %r', what, o[1])
            check_eq(bool(o[1]), want, what)
            ctx.evaluation(what)
    ctx.state((kind, tuple(sorted(marked))))


def strap(ctx, case, root):
    spec = [tuple(x) for x in case['spec']]
    tops = [i for i, (p, k) in enumerate(spec) if p < 0]
    if len(tops) != 1 or spec[tops[0]][1] != 'dir':
        return
    top = 'I%d' % tops[0]
    near = top[:-1], top + '0'      # ids that are not the one
    files = ['I%d' % i for i, (p, k) in enumerate(spec) if k == 'file']
    n = 0
    for inc in itertools.chain.from_iterable(itertools.combinations(files, r) for r in range(len(files) + 1)):
        for only, skip, sparse in itertools.product(((), (top,), near, (top,) + near), repeat=3):
            n += 1
            d = os.path.join(root, 'x%d' % n)
            s = sync.build(spec)
            L, C, R, h = sync.make(s, sparse_include=lambda c: c.id in inc)
            R._sparse_include = lambda self: self.id in inc
            sync.anchor_here(L, C, R, h, d)
            with unguarded():
                remote = R(top)
            cache = remote.cache_init()
            before = snapshot(d)
            got = [c.id for c in remote.bootstrap(recursive=True, only=only, skip=skip, sparse=sparse)]
            what = '%s included %s only %s skip %s sparse %s' % (spec, inc, only, skip, sparse)
            ctx.trans()
            ctx.state(what)
            ctx.trace()
            ctx.evaluation(what)
            name = s.nodes[top].name
            there = {os.path.relpath(os.path.join(dp, x), d) for dp, dn, fn in os.walk(d) for x in dn + fn
                     if '.operations' not in dp and x != '.operations'}
            if top in skip or only and top not in only:
                check_eq(got, [], what + ': skipped')
                check_eq(snapshot(d), before, what + ': skipped but changed')
                continue
            is_sparse = top in sparse
            want = {i for i in s.nodes if i != 'R' and (s.nodes[i].kind == 'dir' or not is_sparse or i in inc)}
            check_eq(there, {'/'.join(s.path(i)) for i in want}, what + ': local files')
            check_eq(sorted(got), sorted(want), what + ': returned')
            for i in want:
                p = os.path.join(d, '/'.join(s.path(i)))
                check_eq(C(p).meta.id, i, what + ': id')
                if s.nodes[i].kind == 'dir':
                    check_eq(C(p).is_sparse(), is_sparse, what + ': is_sparse of ' + i)


def run(ctx, case):
    root = ctx.fresh()
    d = os.path.join(root, 'proj')
    if 'kind' in case:
        marks(ctx, case, d)
    else:
        strap(ctx, case, root)
