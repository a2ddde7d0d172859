"""C19: the local tree mirrors the remote."""
import os

from augpathlib import exceptions as exc
from mc import sync
from mc.fsx import snapshot
from mc.harness import check, check_eq, outcome, unguarded

ID = 'C19'
LEVEL = 'model_checking'
RULE = ('cases = every remote tree up to a number of objects, with no object or every file fetched, and every sequence of '
        'changes of the remote (content, emptied, touched, renamed, moved, deleted, added; names drawn from the existing '
        'and new ones) up to a depth; the client bootstraps, fetches, the remote changes, the client follows in every '
        'plan (refresh parents first until stable then bootstrap; bottom up; bootstrap first); the local tree is compared '
        'with the remote, and every byte that was fetched must still be somewhere; and clients that follow and fetch after every '
        'single change, with identifiers that are short or too long for the name of a file')
ASSUMPTIONS = ['an in-memory remote', 'refreshing goes from parents to children; other orders and histories in which an '
               'object takes the path of another one are only checked for loss of data']
CHUNK = 2
CASE_LIMIT = 300
FIXED = [(-1, 'dir'), (-1, 'dir'), (0, 'file'), (-1, 'file'), (0, 'file')]


# a directory and the one inside of it change places: recorded as known findings
# (only for this failure: not converging without loss of data)
INVERTED = {
    'inverted-directories': ([(-1, 'dir'), (0, 'dir'), (1, 'dir')], [('move', 'I1', 'R'), ('move', 'I0', 'I1')]),
    'inverted-directories-with-file': ([(-1, 'dir'), (0, 'dir'), (1, 'file')], [('move', 'I1', 'R'), ('move', 'I0', 'I1')]),
}


def key(case, v):
    if 'history' in case and 'local tree differs' in v:
        return case['history']


def bounds(tier):
    return 'quick: all trees <= 3 objects x 1 change, one tree of 5 objects x 2 changes, rounds: <= 2 objects x 2; thorough: 5 x 1, 3 x 2, 5 objects x 2 with 3 names, rounds: 2 x 3, 3 x 2'


def cases(tier):
    quick = tier == 'quick'
    for k in INVERTED:
        yield {'history': k}
    for n in range(0, 4 if quick else 6):
        for spec in sync.shapes(n):
            yield {'spec': spec, 'depth': 1, 'names': ['new', 'n0'], 'part': None}
    if not quick:
        for n in range(1, 4):
            for spec in sync.shapes(n):
                firsts = list(sync.changes(sync.build(spec), ('new', 'n0', 'n1')))
                for c in firsts:
                    yield {'spec': spec, 'depth': 2, 'names': ['new', 'n0', 'n1'], 'part': list(c)}
    for n in range(1, 3 if quick else 4):
        for spec in sync.shapes(n):
            for c in sync.changes(sync.build(spec), ['new']):
                for long in (False, True):
                    yield {'spec': spec, 'depth': 2 if quick or n == 3 else 3, 'names': ['new'], 'part': list(c), 'rounds': long}
    names = ['new', 'n2'] if quick else ['new', 'n0', 'n2', 'n3']
    for c in sync.changes(sync.build(FIXED), names):
        yield {'spec': FIXED, 'depth': 2, 'names': names, 'part': list(c)}


def follow(ctx, root, spec, seq, fetched, plan):
    s = sync.build(spec)
    with unguarded():
        os.mkdir(root)
    c = sync.Client(s, os.path.join(root, 'proj'))
    c.bootstrap()
    check_eq(sync.difference(c.local(), sync.expected(s)), [], 'first bootstrap of %s' % (spec,))
    files = [i for i in s.nodes if s.nodes[i].kind == 'file'] if fetched else []
    for i in files:
        c.p(*s.path(i)).cache.fetch()
    check_eq(sync.difference(c.local(), sync.expected(s, files)), [], 'fetching all files of %s' % (spec,))
    before = sync.paths(s)
    kept = sorted(set(c.contents()))
    for ch in seq:
        sync.apply(s, ch)
    ctx.trans(len(seq))
    collision = sync.collides(before, sync.paths(s))
    what = 'remote %s, %s fetched, changes %s, client %s' % (spec, 'all' if fetched else 'none', seq, plan)
    c = c.restart()

    def go():
        for step in plan:
            if step == 'r':
                c.refresh_all()
            elif step == 'u':
                c.refresh_all(bottom_up=True)
            else:
                c.bootstrap()
    o = outcome(go)
    left = set(c.contents())
    lost = [d for d in kept if d not in left]
    check(not lost, '%s: lost the local data %s', what, lost)
    ctx.state((spec, seq, fetched, plan, sorted((p, str(k)) for p, (k, m) in c.local().items())))
    ctx.trace()
    if collision or plan[0] == 'u':
        ctx.count('checked for loss of data only')
        return
    check(o[0] == 'ok', '%s: raised %r', what, o[1])
    now = [i for i in files if i in s.nodes]
    # what was below something deleted is in the trash
    relaxed = any(ch[0] == 'delete' for ch in seq)
    check_eq(sync.difference(c.local(), sync.expected(s, now), relaxed), [], what + ': local tree differs')
    ids = c.trashed_ids()
    for p, i in before.items():
        if i not in s.nodes and not any(a not in s.nodes for a in sync.ancestors(sync.build(spec), i)[1:]):
            check(i in ids, '%s: deleted object %s is not in the trash (%s)', what, i, sorted(map(str, ids)))
    snap = snapshot(c.root)
    c.bootstrap()
    check_eq(snapshot(c.root), snap, what + ': bootstrapping again changes something')
    c.refresh_all()
    check_eq(snapshot(c.root), snap, what + ': refreshing again changes something')
    ctx.count('converged')


def mk(spec, long):
    s = sync.build(spec)
    if long:    # neither the identifiers nor two of them together are names of files
        new = {i: i if i == 'R' else i + 'x' * 300 for i in s.nodes}
        for n in s.nodes.values():
            n.id = new[n.id]
            n.parent = new.get(n.parent)
        s.nodes = {new[i]: n for i, n in s.nodes.items()}
    return s


def rounds(ctx, root, spec, seq, long):
    """the client follows after every single change"""
    s = mk(spec, long)
    with unguarded():
        os.mkdir(root)
    c = sync.Client(s, os.path.join(root, 'proj'))
    c.bootstrap()
    kept = set()

    def fetch():
        for i in s.nodes:
            if s.nodes[i].kind == 'file':
                c.p(*s.path(i)).cache.fetch()
    fetch()
    for k, ch in enumerate(seq):
        kept.update(c.contents())
        before = sync.paths(s)
        sync.apply(s, ch)
        collision = sync.collides(before, sync.paths(s))
        c = c.restart()
        what = 'remote %s%s, client follows each of %s' % (spec, ' long ids' if long else '', seq[:k + 1])

        had = [i for i in before.values() if i in s.nodes and s.nodes[i].kind == 'file']

        def go():
            c.refresh_all()
            c.refresh_all()
            c.bootstrap()
            if not collision:
                check_eq(sync.difference(c.local(), sync.expected(s, had), True), [], what + ': local tree differs')
            fetch()
        o = outcome(go)
        ctx.trans()
        left = set(c.contents())
        check(kept <= left, '%s: lost the local data %s', what, sorted(kept - left))
        if collision:
            ctx.count('checked for loss of data only')
            return
        check(o[0] == 'ok', '%s: raised %r', what, o[1])
        files = [i for i in s.nodes if s.nodes[i].kind == 'file']
        check_eq(sync.difference(c.local(), sync.expected(s, files), True), [], what + ': local tree after fetching differs')
        ids = c.trashed_ids()
        for p, i in before.items():
            if i not in s.nodes and (k or not any(a not in s.nodes for a in sync.ancestors(mk(spec, long), i)[1:])):
                check(i in ids, '%s: deleted object %s is not in the trash (%s)', what, i[:9], [i[:9] for i in sorted(map(str, ids))])
        ctx.state((spec, long, seq[:k + 1]))
    ctx.trace()
    ctx.count('followed in rounds')


def run(ctx, case):
    root = ctx.fresh()
    if 'rounds' in case:
        spec = [tuple(x) for x in case['spec']]
        first = tuple(case['part'])
        if case['rounds']:
            new = lambda x: x + 'x' * 300 if isinstance(x, str) and x[0] in 'IX' and x[1:].isdigit() else x
            first = tuple(map(new, first))
        n = 0
        for seq in sync.sequences(spec, case['depth'], case['names'], mk=lambda spec: mk(spec, case['rounds'])):
            if seq[0] == first:
                n += 1
                rounds(ctx, os.path.join(root, 'x%d' % n), spec, seq, case['rounds'])
        return
    if 'history' in case:
        spec, seq = INVERTED[case['history']]
        for i, (fetched, plan) in enumerate(((False, 'rrb'), (False, 'urb'), (True, 'rrb'))):
            follow(ctx, os.path.join(root, 'x%d' % i), spec, seq, fetched, plan)
        return
    spec = [tuple(x) for x in case['spec']]
    n = 0
    if case['part'] is None:
        seqs = [[]] + list(sync.sequences(spec, case['depth'], case['names']))
    else:
        first = tuple(case['part'])
        seqs = [q for q in sync.sequences(spec, case['depth'], case['names']) if q[0] == first]
    for seq in seqs:
        if (spec, seq) in INVERTED.values():
            continue
        for fetched in (False, True):
            for plan in ('rrb', 'brrb', 'urb') if case['depth'] == 1 else ('rrb', 'urb') if fetched else ('rrb',):
                n += 1
                follow(ctx, os.path.join(root, 'x%d' % n), spec, seq, fetched, plan)
