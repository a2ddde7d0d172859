"""C22: finding the project of a path and listing what belongs to it."""
import itertools
import os

from mc import sync
from mc.harness import check, check_eq, outcome, unguarded
from augpathlib import PathMeta

ID = 'C22'
LEVEL = 'model_checking'
RULE = ('root: every subset of cached directories on two nested chains x every path (there, ignored, missing, placeholder, link) '
        'from every directory in absolute and relative spelling; list: every tree out of names that are or look like internal '
        'ones x kinds (file, directory with content, link to a file, link to a directory, link upwards, placeholder); children and '
        'rchildren of every directory are compared with the tree on disk')
ASSUMPTIONS = ['links that are followed lead to one project only']
CHUNK = 4
CASE_LIMIT = 200
CHAIN = ('p', 'p/a', 'p/a/b', 'p/a/b/c')
NAMES = ('x', '.git', '.operations', '.sparse', '.git.x', '.operations.bak', '.gitignore', '.sparse.py', 'git', 'x.git')
KINDS = ('file', 'dir', 'deep', 'link file', 'link dir', 'link up', 'placeholder')


def bounds(tier):
    return '%d directories, %d names x %d kinds in %s' % (len(CHAIN), len(NAMES), len(KINDS), 'pairs' if tier == 'quick' else 'pairs and triples')


def cases(tier):
    for r in range(1 << len(CHAIN)):
        yield {'cached': [c for i, c in enumerate(CHAIN) if r >> i & 1]}
    for a, k in itertools.product(NAMES, KINDS):
        yield {'entry': [a, k], 'more': 1 if tier == 'quick' else 2}


def classes():
    L, C, R, h = sync.make(sync.build([]))
    return L, C, R, h


def find(ctx, case, root):
    L, C, R, h = classes()
    with unguarded():
        os.makedirs(os.path.join(root, 'p/a/b/c'))
        os.makedirs(os.path.join(root, 'p/.operations/objects'))
        os.makedirs(os.path.join(root, 'p/a/.git'))
        for f in ('p/f', 'p/a/f', 'p/a/b/c/f', 'p/.operations/objects/f', 'p/a/.git/f'):
            open(os.path.join(root, f), 'w').close()
        os.symlink('nowhere', os.path.join(root, 'p/a/broken'))
        os.symlink('p/a/b', os.path.join(root, 'outside'))
        for i, c in enumerate(case['cached']):
            L(os.path.join(root, c)).cache_init('I%d' % i)
        if case['cached']:
            h.anchor_cache = L(os.path.join(root, case['cached'][0])).cache
    asked = ('p', 'p/f', 'p/a', 'p/a/f', 'p/a/b', 'p/a/b/c', 'p/a/b/c/f', 'p/no', 'p/a/b/no/no', 'p/.operations/objects/f',
             'p/a/.git/f', 'p/a/broken', 'outside', 'outside/c', 'outside/c/f', 'outside/no', '.', 'no')
    cwds = ('.', 'p', 'p/a', 'p/a/b', 'p/a/b/c', 'outside', 'p/.operations')
    here = os.getcwd()
    for q in asked:
        full = os.path.join(root, q)
        real = full.replace(os.path.join(root, 'outside'), os.path.join(root, 'p/a/b'))
        above = [c for c in case['cached'] if real == os.path.join(root, c) or real.startswith(os.path.join(root, c) + '/')]
        want = os.path.join(root, above[0]) if above else None
        for cwd in cwds:
            at = os.path.join(root, cwd)
            spelled = [full] if cwd == '.' else []
            if full == at or full.startswith(at + '/'):
                spelled.append(os.path.relpath(full, at))
            for s in spelled:
                os.chdir(at)
                try:
                    o = outcome(lambda: L(s).find_cache_root())
                    what = 'cached %s: root of %r in %r' % (case['cached'], s.replace(root, '<root>'), cwd)
                    check(o[0] == 'ok', '%s: raised %r', what, o[1])
                    got = None if o[1] is None else os.path.realpath(str(o[1]))
                finally:
                    os.chdir(here)
                if q.startswith('outside') and want:
                    # the first cached one on the way as it was spelled is fine as well
                    lex = [x for x in (root + '/outside', root + '/outside/c') if (full + '/').startswith(x + '/') and
                           os.path.relpath(os.path.realpath(x), root) in case['cached']]
                    check(got in [want] + [os.path.realpath(x) for x in lex[:1]], '%s: got %s', what, got)
                else:
                    check_eq(got, want, what)
                ctx.trans()
                ctx.evaluation(what)
                ctx.state(what)
    if case['cached']:
        top = os.path.join(root, case['cached'][0])
        for q in asked:
            full = os.path.join(root, q)
            if not full.startswith(top + '/') or q.startswith('outside') or 'no' in q or 'broken' in q:
                continue
            p = L(full)
            if p.cache is not None:
                continue
            o = outcome(lambda: p.skip_cache)
            what = 'cached %s: skip_cache of %r' % (case['cached'], q)
            check(o[0] == 'ok', '%s: raised %r', what, o[1])
            check_eq(bool(o[1]), os.path.relpath(full, top).split('/')[0] in ('.operations', '.sparse', '.git'), what)
            ctx.trans()
    ctx.trace()


def make_entry(d, n, k):
    p = os.path.join(d, n)
    if k == 'file':
        open(p, 'w').close()
    elif k in ('dir', 'deep'):
        os.makedirs(os.path.join(p, '.git', 'in') if k == 'deep' else p)
        open(os.path.join(p, 'f'), 'w').close()
    elif k == 'link file':
        os.symlink('keep', p)
    elif k == 'link dir':
        os.symlink('sub', p)
    elif k == 'link up':
        os.symlink('.', p)
    elif k == 'placeholder':
        os.symlink('nowhere/%s' % n, p)


def listing(ctx, case, root):
    rest = [x for x in itertools.product(NAMES, KINDS)]
    n = 0
    combos = [[]] + [[x] for x in rest if x[0] > case['entry'][0]]
    if case['more'] > 1:
        combos += [[x, y] for x, y in itertools.combinations(rest[::3], 2) if case['entry'][0] < x[0] < y[0]]
    for more in combos:
        n += 1
        d = os.path.join(root, 'x%d' % n)
        entries = [tuple(case['entry'])] + more
        L, C, R, h = classes()
        with unguarded():
            os.makedirs(os.path.join(d, 'sub', 'subsub', '.operations'))
            open(os.path.join(d, 'keep'), 'w').close()
            open(os.path.join(d, 'sub', 'f'), 'w').close()
            os.symlink('subsub', os.path.join(d, 'sub', 'l'))
            for e in entries:
                make_entry(d, *e)
            for x in ('', 'sub', 'sub/subsub'):
                L(os.path.join(d, x)).cache_init('I' + x)
            h.anchor_cache = L(d).cache
        what = 'entries %s' % (entries,)
        hidden = ('.operations', '.sparse', '.git')
        for at in ('', 'sub', 'sub/subsub'):
            base = os.path.join(d, at)
            kids = sorted(x for x in os.listdir(base) if at or x not in hidden)
            check_eq(sorted(os.path.relpath(str(c), base) for c in L(base).children), kids, '%s: children of %r' % (what, at))
            want = []
            for dp, dn, fn in os.walk(base):
                if dp == base and not at:
                    dn[:] = [x for x in dn if x not in hidden]
                    fn = [x for x in fn if x not in hidden]
                want += [os.path.relpath(os.path.join(dp, x), base) for x in dn + fn]
            o = outcome(lambda: sorted(os.path.relpath(str(c), base) for c in L(base).rchildren))
            check(o[0] == 'ok', '%s: rchildren of %r raised %r', what, at, o[1])
            check_eq(o[1], sorted(want), '%s: rchildren of %r' % (what, at))
            ctx.trans(2)
            ctx.evaluation(what)
        ctx.state(what)
        ctx.trace()


def run(ctx, case):
    root = ctx.fresh()
    if 'cached' in case:
        find(ctx, case, root)
    else:
        listing(ctx, case, root)
