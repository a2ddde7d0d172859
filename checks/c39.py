"""C39: an object of the remote and its place in the project."""
import itertools
import os

from mc import sync
from mc.fakes import Node, Server
from mc.fsx import diff, snapshot
from mc.harness import check, check_eq, outcome, unguarded
from mc.metas import mismatch

ID = 'C39'
LEVEL = 'model_checking'
RULE = ('cases = every remote tree of up to n objects x three ways to name the objects (all different, every object named like the root '
        'where its siblings allow it, named like its uncles) x whether the root of the remote is called like the directory of the project; '
        'for each (a) every object asked about its place from a fresh object, from its cache, through its parents and twice, in every state '
        '{only the root is local, everything is local, fetched} and after every single change of the remote was followed; (b) every sequence '
        'of ways to make objects local (a directory / object for every local directory above it, cache_init with and without parents, '
        'children and rchildren of a local directory) up to the depth bound, compared with the model after each step, and completed at the end')
ASSUMPTIONS = ['an in-memory remote that answers with ids', 'questions are asked when the local place of the object and of the directories above '
               'it is what the remote says (objects that moved and were not followed yet are left out)']
CHUNK = 1
CASE_LIMIT = 300
NAMING = ('different', 'root', 'uncle')


def bounds(tier):
    n, d = (4, 2) if tier == 'quick' else (5, 3)
    return 'trees of up to %d objects, sequences of %d steps' % (n, d)


def cases(tier):
    top = 4 if tier == 'quick' else 5
    for n in range(1, top + 1):
        for spec in sync.shapes(n):
            for naming in NAMING:
                for same in (True, False):
                    yield {'spec': [list(x) for x in spec], 'naming': naming, 'same': same, 'mode': 'place'}
                if n <= 3 or tier != 'quick' and n == 4 or n == top and deep(spec) >= 3 and naming != 'different':
                    yield {'spec': [list(x) for x in spec], 'naming': naming, 'same': True, 'mode': 'make',
                           'depth': 3 if tier != 'quick' and n <= 3 else 2}


def deep(spec):
    d = {-1: 0}
    for i, (p, _) in enumerate(spec):
        d[i] = d[p] + 1
    return max(d.values())


def server(spec, naming):
    s = Server([Node('R', 'proj', None, 'dir')])
    for i, (p, kind) in enumerate(spec):
        pid = 'R' if p < 0 else 'I%d' % p
        taken = {k.name for k in s.kids(pid)}
        name = 'n%d' % i
        if naming == 'root' and 'proj' not in taken:
            name = 'proj'
        elif naming == 'uncle' and 'x' not in taken:
            name = 'x'
        elif naming == 'uncle' and 'y' not in taken:
            name = 'y'
        s.add('I%d' % i, name, pid, kind, b'data of %d' % i if kind == 'file' else b'')
    return s


class World:
    def __init__(self, ctx, case):
        root = ctx.fresh()
        with unguarded():
            os.mkdir(root + '/w')
        self.s = server(case['spec'], case['naming'])
        self.c = sync.Client(self.s, root + '/w/proj')
        if not case.get('same', True):
            self.c.h.root_name = 'called otherwise'
        self.same = case.get('same', True)

    def restart(self):
        self.c = self.c.restart()
        if not self.same:
            self.c.h.root_name = 'called otherwise'
        return self.c


def place(w, ctx, what, ids, cached=True):
    """everything an object says about where it is"""
    s, c = w.s, w.c
    for i in ids:
        path = s.path(i)
        local = os.path.join(c.root, *path)
        above = sync.ancestors(s, i)[1:]
        objs = [('fresh', lambda: c.R(i))]
        if cached:
            objs += [('of the path', lambda: c.L(local).remote), ('of the cache', lambda: c.L(local).cache.remote),
                     ('through the cache', lambda: c.C(local).remote)]
        if above:
            kid = lambda: next(x for x in c.R(above[0]).children if x.id == i)
            objs.append(('child of its parent', kid))
            rkid = lambda: next(x for x in c.R('R').rchildren if x.id == i)
            objs.append(('below the root', rkid))
        for k in s.kids(i):
            objs.append(('parent of its child', lambda: c.R(k.id).parent))
            if cached:
                objs.append(('parent of the remote of its child', lambda: c.L(os.path.join(local, k.name)).remote.parent))
            break
        for how, get in objs:
            w1 = '%s: %s %r (%s)' % (what, i, '/'.join(path), how)
            r = get()
            ctx.trans(1)
            check(r is not None, w1 + ': nothing')
            for again in ('', ' again'):
                check_eq(outcome(lambda: tuple(r.parts)), ('ok', path), w1 + ': parts' + again)
                check_eq(outcome(lambda: r.as_path().parts), ('ok', path), w1 + ': as_path' + again)
                check_eq(outcome(lambda: [x.id for x in r.parents]), ('ok', above), w1 + ': parents' + again)
            check_eq(outcome(lambda: r.parent_id), ('ok', above[0] if above else None), w1 + ': parent_id')
            if cached and how.startswith(('of', 'through')):
                check_eq(outcome(lambda: str(r.local)), ('ok', local), w1 + ': local')
                check_eq(outcome(lambda: (str(r.cache), r.cache.id)), ('ok', (local, i)), w1 + ': cache')
                check_eq(outcome(lambda: r.cache.remote.id), ('ok', i), w1 + ': remote of its cache')
                check_eq(outcome(lambda: str(r.cache.local)), ('ok', local), w1 + ': local of its cache')
                if above:
                    check_eq(outcome(lambda: r.cache.parent.id), ('ok', above[0]), w1 + ': parent of its cache')
                    o = outcome(lambda: (lambda x: (str(x), x.id))(r.cache.parent / path[-1]))
                    check_eq(o, ('ok', (local, i)), w1 + ': the cache with its name in its parent')
                if s.nodes[i].kind == 'dir':
                    o = outcome(lambda: r.cache / 'missing')
                    check(o[0] == 'raise' and isinstance(o[1], FileNotFoundError), '%s / missing: %r' % (w1, o))
            for j in s.nodes:
                o = c.R(j)
                check_eq((r == o, o == r, r != o), (i == j, i == j, i != j), '%s: equality with %s' % (w1, j))
                if i == j:
                    check_eq(hash(r), hash(o), w1 + ': hash')
            check(not r == None and r != None, w1 + ': equals None')     # noqa: E711
        ctx.state((what, i))


def run_place(ctx, case):
    w = World(ctx, case)
    s, c = w.s, w.c
    ids = list(s.nodes)
    place(w, ctx, 'only the root is local', ids, cached=False)
    c.bootstrap()
    place(w, ctx, 'bootstrapped', ids)
    w.restart()
    place(w, ctx, 'opened again', ids)
    for i in ids:
        if s.nodes[i].kind == 'file':
            w.c.p(*s.path(i)).cache.fetch(size_limit_mb=None)
    place(w, ctx, 'fetched', ids)
    if len(case['spec']) > 3 and ctx.tier == 'quick' or not case['same']:
        ctx.trace(1)
        return
    # after every change that can be followed
    for ch in list(sync.changes(s, ('new', 'proj'), add=False)):
        w = World(ctx, case)
        w.c.bootstrap()
        before = {i: w.s.path(i) for i in w.s.nodes}
        for i, path in before.items():
            # what was said before the change must not be repeated after it
            check_eq(tuple(w.c.p(*path).remote.parts), tuple(path), 'parts of %s' % i)
            check_eq(tuple(w.c.R(i).parts), tuple(path), 'parts of a fresh %s' % i)
        sync.apply(w.s, ch)
        if not sync.valid(w.s) or sync.collides({'/'.join(p): i for i, p in before.items()}, sync.paths(w.s)):
            continue
        for _ in range(3):
            w.c.refresh_all()
        if ch[0] == 'delete':
            w.c.bootstrap()
        place(w, ctx, 'after %r' % (ch,), list(w.s.nodes))
        w.restart()
        place(w, ctx, 'after %r and opened again' % (ch,), list(w.s.nodes))
        ctx.trace(1)


def actions(s):
    out = []
    for n in s.nodes.values():
        if n.kind == 'dir':
            out += [('children', n.id), ('rchildren', n.id)]
        if n.parent is not None:
            for a in sync.ancestors(s, n.id)[1:]:
                out.append(('/', a, n.id))
            out += [('init', n.id), ('init parents', n.id)]
    return out


def act(c, s, a, have):
    """do it; (outcome, ids that must be there afterwards, ids that may get their metadata)"""
    k, i = a[:2]
    d = lambda i: c.L(os.path.join(c.root, *s.path(i))).cache
    if k in ('children', 'rchildren'):
        below = [x.id for x in s.kids(i)] if k == 'children' else [x for x in s.nodes if i in sync.ancestors(s, x)[1:]]
        o = outcome(lambda: [(str(x), x.id) for x in getattr(d(i), k)])
        return o, below, [(os.path.join(c.root, *s.path(x)), x) for x in below]
    if k == '/':
        o = outcome(lambda: d(i) / c.R(a[2]))
        want = [a[2]]
    elif k == 'init':
        o = outcome(lambda: c.R(i).cache_init())
        want = [i]
    else:
        o = outcome(lambda: c.R(i).cache_init(parents=True))
        want = sync.ancestors(s, i)[:-1]
    t = want[0]
    if o[0] == 'ok':
        o = ('ok', [(str(o[1]), o[1].id)])
    return o, want, [(os.path.join(c.root, *s.path(t)), t)]


def local_ids(w):
    """{path: id or None} of everything that is there"""
    return {p: None if m is None else m.id for p, (_, m) in w.c.local().items()}


def step(w, ctx, a, what, made):
    """one way to make objects local; False if it does not apply in this state"""
    s, c = w.s, w.c
    start = a[1]
    if a[0] in ('/', 'children', 'rchildren') and start != 'R' and start not in made:
        return False
    before = snapshot(c.root, xattrs=True)
    o, want, result = act(c, s, a, made)
    ctx.trans(1)
    what = '%s; %s' % (what, ' '.join(a)) if what else ' '.join(a)
    need = [i for i in sync.ancestors(s, want[0])[1:] if i != 'R'] if a[0] in ('/', 'init') else []
    if any(i not in made for i in need) and o[0] != 'ok':
        # directories above it are not there: may be refused
        return what
    check(o[0] == 'ok', '%s: %r' % (what, o))
    check_eq(sorted(o[1]), sorted(result), what + ': what was given')
    made.update(want)
    compare(w, what, before, made)
    return what


def compare(w, what, before, made):
    s, c = w.s, w.c
    got = c.local()
    want = {'/'.join(s.path(i)): i for i in made}
    for p, i in want.items():
        check(p in got, '%s: %s is not there' % (what, p))
        n = s.nodes[i]
        kind, meta = got[p]
        check(kind == ('dir' if n.kind == 'dir' else 'link'), '%s: %s is %r' % (what, p, kind))
        m = mismatch(meta, dict(n.meta().items())) if meta is not None else 'none'
        check(not m, '%s: metadata of %s: %s' % (what, p, m))
    for p in got:
        if p not in want:
            # a directory that was needed for something below it
            check(any(q.startswith(p + '/') for q in want) and got[p][0] == 'dir', '%s: %s appeared' % (what, p))
            check(got[p][1] is None or p in sync.paths(s) and got[p][1].id == sync.paths(s)[p], '%s: metadata of %s' % (what, p))
    with unguarded():
        d = {k: v for k, v in diff(before, snapshot(c.root, xattrs=True)).items()}
    for k in d:
        k = k if isinstance(k, str) else k.decode()
        inside = k.strip('/')
        known = inside in want or inside in got or inside in ('', '.')
        check(known or inside.startswith(sync.OPS), '%s: %r changed: %r' % (what, k, d))


def run_make(ctx, case):
    acts = actions(server(case['spec'], case['naming']))
    for prog in itertools.product(acts, repeat=case['depth']):
        w = World(ctx, case)
        made, what = set(), ''
        for a in prog:
            r = step(w, ctx, a, what, made)
            if r is False:
                break
            what = r
        else:
            # the rest, and once more: the mirror, and nothing changes
            ctx.trace(1)
            ctx.state((str(case['spec']), case['naming'], prog))
            w.restart()
            for n in w.s.nodes.values():
                if n.parent is not None:
                    o = outcome(lambda: w.c.R(n.id).cache_init(parents=True))
                    check(o[0] == 'ok', '%s; cache_init(parents) of %s: %r' % (what, n.id, o))
                    made.add(n.id)
            compare(w, what + '; everything', snapshot(w.c.root, xattrs=True), made)
            check_eq(sorted(local_ids(w)), sorted(sync.paths(w.s)), what + '; everything: paths')
            before = snapshot(w.c.root, xattrs=True)
            for a in prog:
                o, want, result = act(w.c, w.s, a, made)
                check(o[0] == 'ok', '%s; everything; %s: %r' % (what, ' '.join(a), o))
                check_eq(sorted(o[1]), sorted(result), '%s; everything; %s' % (what, ' '.join(a)))
            check_eq(diff(before, snapshot(w.c.root, xattrs=True)), {}, what + '; everything; again')


def run(ctx, case):
    (run_place if case['mode'] == 'place' else run_make)(ctx, case)
