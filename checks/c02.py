"""C02: recursive removal deletes exactly the named tree, never through a
symlink, refuses guarded paths however they are spelled, and with error
handling removes everything that can be removed and reports the rest."""
import errno
import os

import augpathlib as aug
from augpathlib import exceptions as exc
from mc import fsx, trees
from mc.harness import Violation, Escape, check, check_eq, outcome, observe, unguarded

ID = 'C02'
LEVEL = 'model_checking'
RULE = ('cases = all trees up to isomorphism with <= N nodes over {file, dir, fifo, symlink to an outside '
        'file / outside dir / nowhere / own parent}; on each: fault-free removal for 3 classes, every single '
        '(thorough: and every pair of) failing unlink/rmdir/listing x {raise, ignore_errors, onerror}; plus '
        'every spelling of every guarded path')
ASSUMPTIONS = ['no concurrent modification of the tree while it is removed',
               'faults are injected by raising from the audit event of the removal / listing call']
LEAFS = ('F', 'P', 'LF', 'LD', 'LB', 'LU')
NAMES = 'abcdefgh'
CHUNK = 4


def bounds(tier):
    return 'trees <= %d nodes below the removed directory; %s' % (
        (4, 'single faults on all, fault pairs on <= 2 nodes') if tier == 'quick' else (5, 'single faults on all, fault pairs on <= 4 nodes'))


def cases(tier):
    nmax = 4 if tier == 'quick' else 5
    for n in range(0, nmax + 1):
        for f in trees.forests(n, LEAFS):
            yield {'kind': 'tree', 'forest': trees.detuple(f),
                   'faults': 2 if (n <= 2 or tier == 'thorough' and n <= 4) else 1}
    if tier == 'quick':
        # a few deeper shapes: chains of directories holding links
        for l1 in LEAFS:
            for l2 in ('F', 'LD'):
                yield {'kind': 'tree', 'forest': [['D', [['D', [['D', [l1]], l2]]]], l2], 'faults': 1}
    for top in ('file', 'link-dir', 'link-file', 'link-broken', 'missing', 'fifo'):
        yield {'kind': 'top', 'top': top}
    for i in range(len(GUARDED)):
        yield {'kind': 'guard', 'i': i}
    for where in ('.', 'a', 'a/b'):
        yield {'kind': 'cwd', 'where': where}


def leaf(kind, root):
    return {'F': ('f', 'data'), 'P': ('p',), 'LF': ('l', root + '/out/file'),
            'LD': ('l', root + '/out'), 'LB': ('l', 'nowhere'), 'LU': ('l', '..')}[kind]


def make(ctx, forest):
    d = ctx.fresh()
    with unguarded():
        fsx.build('.', {'out': ('d', {'file': ('f', 'keep'), 'sub': ('d', {'x': ('f', 'keep2')})}),
                        'z': ('f', 'sibling')})
        os.mkdir('t')
        spec = trees.to_spec(forest, lambda k: leaf(k, d))
        fsx.build('t', {'tree': ('d', spec)})
    return d, spec


CLASSES = ('AugmentedPath', 'LocalPath', 'RepoPath')


class Injected(PermissionError):
    pass


def run_tree(ctx, case):
    forest = case['forest']
    # 1. fault free
    for cls in CLASSES:
        for kw in ({}, {'ignore_errors': True}, {'DANGERZONE': True}, {'onerror': lambda *a: 1 / 0}):
            d, spec = make(ctx, forest)
            before = fsx.snapshot(d)
            o = outcome(getattr(aug, cls)(d, 't', 'tree').rmtree, **kw)
            ctx.trans(len(list(trees.flatten(spec))) + 1)
            check(o[0] == 'ok', 'rmtree(%s) raised %r', kw, o[1])
            exp = {k: v for k, v in before.items() if not (k == 't/tree' or k.startswith('t/tree/'))}
            check_eq(fsx.diff(exp, fsx.snapshot(d)), {}, 'tree and surroundings after rmtree %r' % (kw,))
            ctx.trace()
    # 2. faults
    nodes = [''] + [p for p, _ in trees.flatten(spec)]
    types = {'': 'd'}
    types.update({p: v[0] for p, v in trees.flatten(spec)})
    victims = [('rm', p) for p in nodes] + [('ls', p) for p in nodes if types[p] == 'd']
    sets = [(v,) for v in victims]
    if case['faults'] > 1:
        sets += [(victims[i], victims[j]) for i in range(len(victims)) for j in range(i)]
    for vs in sets:
        for mode in ('raise', 'ignore', 'onerror'):
            fault(ctx, forest, vs, mode, types)
    ctx.state(forest)


def remaining_model(nodes, types, vs):
    """what must be left below t/tree, and what must be reported"""
    rem, rep = set(), set()

    def anc(p):
        while p:
            p = p.rpartition('/')[0]
            yield p

    lsfail = [p for k, p in vs if k == 'ls']
    under = lambda p: any(a in lsfail for a in anc(p))
    for k, p in vs:
        if under(p):
            continue  # never reached
        rem.add(p)
        rep.add(p)
        if k == 'ls':
            for q in nodes:
                if p in set(anc(q)):
                    rem.add(q)
        for a in anc(p):
            rem.add(a)
            rep.add(a)
    return rem, rep


def fault(ctx, forest, vs, mode, types):
    d, spec = make(ctx, forest)
    base = d + '/t/tree'
    before = fsx.snapshot(d)
    vmap = {}
    for k, p in vs:
        vmap.setdefault(base + ('/' + p if p else ''), set()).add(k)
    raised = []

    def obs(event, paths):
        if not paths or paths[0] is None:
            return
        p = os.path.normpath(paths[0])
        ks = vmap.get(p)
        if not ks:
            return
        if event in ('os.remove', 'os.rmdir') and 'rm' in ks or \
           event in ('os.listdir', 'os.scandir') and 'ls' in ks:
            e = Injected(errno.EACCES, 'injected', p)
            raised.append(e)
            raise e

    calls = []

    def onerror(func, path, ei):
        calls.append((func, path, ei))

    kw = {'raise': {}, 'ignore': {'ignore_errors': True}, 'onerror': {'onerror': onerror}}[mode]
    with observe(obs):
        o = outcome(aug.AugmentedPath(base).rmtree, **kw)
    ctx.trans(len(types))
    ctx.trace()
    what = 'faults %r mode %s' % (vs, mode)
    after = fsx.snapshot(d)
    out_before = {k: v for k, v in before.items() if not (k == 't/tree' or k.startswith('t/tree/'))}
    out_after = {k: v for k, v in after.items() if not (k == 't/tree' or k.startswith('t/tree/'))}
    check_eq(fsx.diff(out_before, out_after), {}, what + ': outside of the tree')
    for k in after:
        check(before.get(k) == after[k], what + ': %r was altered', k)
    nodes = list(types)
    rem, rep = remaining_model(nodes, types, vs)
    left = {k[len('t/tree/'):] if k != 't/tree' else '' for k in after if k == 't/tree' or k.startswith('t/tree/')}
    if mode == 'raise':
        check(o[0] == 'raise', what + ': the failure was swallowed')
        check(any(o[1] is e for e in raised), what + ': the injected error did not propagate, got %r', o[1])
        check(rem <= left, what + ': %r vanished', rem - left)
    else:
        check(o[0] == 'ok', what + ': raised %r', o[1])
        check_eq(sorted(left), sorted(rem), what + ': entries left behind')
        if mode == 'onerror':
            got = []
            for func, path, ei in calls:
                rel = os.path.relpath(str(path), base)
                rel = '' if rel == '.' else rel
                got.append(rel)
                want = 'rmdir' if types.get(rel) == 'd' else 'unlink'
                check(getattr(func, '__name__', None) == want,
                      what + ': onerror got function %r for %r', func, rel)
                check(isinstance(ei, tuple) and len(ei) == 3 and isinstance(ei[1], BaseException),
                      what + ': onerror excinfo %r', ei)
            check_eq(sorted(got), sorted(rep), what + ': entries reported to onerror')


def run_top(ctx, case):
    for cls in CLASSES:
        d, _ = make(ctx, [])
        top = case['top']
        with unguarded():
            if top == 'missing':
                pass
            else:
                fsx.put('t/x', {'file': ('f', 'data'), 'link-dir': ('l', d + '/out'), 'fifo': ('p',),
                                'link-file': ('l', d + '/out/file'), 'link-broken': ('l', 'no')}[top])
        before = fsx.snapshot(d)
        o = outcome(getattr(aug, cls)(d, 't', 'x').rmtree)
        ctx.trans()
        ctx.trace()
        after = fsx.snapshot(d)
        if top == 'missing':
            check(o[0] == 'raise' and isinstance(o[1], FileNotFoundError), 'rmtree of a missing path: %r', o)
        elif top == 'link-dir':
            check(o[0] == 'raise' and isinstance(o[1], OSError), 'rmtree of a symlink to a dir: %r', o)
        else:
            check(o[0] == 'ok', 'rmtree of %s: %r', top, o)
            before.pop('t/x')
        check_eq(fsx.diff(before, after), {}, 'after rmtree of %s' % top)
        ctx.state(('top', top, cls))


# spellings of things that must never be removed.  None of them names anything
# real that could be lost: the process is unprivileged, every destructive call
# outside of the scratch directory is refused by the audit hook, and most of
# the names do not exist.
GUARDED = ['/', '//', '/vp-no-such-thing', '//vp-no-such-thing', '/home', '/home/vp-no-such-user',
           '//home/vp-no-such-user', '/vp-no-such-thing/', '/./vp-no-such-thing', '/dev/../vp-no-such-thing',
           '/usr/share/..', '/usr/share/../../vp-no-such-thing', '/usr/..', '/usr/share/../..',
           '/usr/../home/vp-no-such-user', '/usr/share/../../home/vp-no-such-user',
           '/proc/self/root/vp-no-such-thing', '/home/vp-no-such-user/', '/home/./vp-no-such-user',
           'relative', './relative', '../relative', 'relative/a/b/c', './relative/a/b/c/', 'relative/a/b/file', 'relative/a/b/missing',
           'relative/../relative/a/b/c', 't/../t/../out/sub', 'relative/a/b/link', '{LINK}/vp-no-such-thing', '{LINK}/home/vp-no-such-user',
           '{D}/t/..//../{UPS}vp-no-such-thing', '{USR}/..', '{USR}/../', '{TOP}/..', '{TOP}/../', '{HOME}/..', '{TOP}/../.']


def run_guard(ctx, case):
    spell = GUARDED[case['i']]
    for cls in CLASSES:
        for kw in ({}, {'ignore_errors': True}, {'onerror': lambda *a: None}, {'DANGERZONE': 1},
                   {'DANGERZONE': 'yes'}):
            d, _ = make(ctx, ['F'])
            with unguarded():
                os.symlink('/', 'rootlink')
                os.symlink('/usr/share', 'usrlink')
                os.symlink('/vp-no-such-thing/sub', 'toplink')
                os.symlink('/home/vp-no-such-user/x', 'homelink')
                fsx.build('.', {'relative': ('d', {'a': ('d', {'b': ('d', {'c': ('d', {'keep': ('f', 'v')}), 'file': ('f', 'w'), 'link': ('l', 'nowhere')})})})})
            ups = '../' * (len(d.split('/')))
            s = spell.replace('{LINK}', d + '/rootlink').replace('{D}', d).replace('{UPS}', ups)
            for k, l in (('{USR}', 'usrlink'), ('{TOP}', 'toplink'), ('{HOME}', 'homelink')):
                s = s.replace(k, d + '/' + l)
            before = fsx.snapshot(d)
            attempts = []

            def obs(event, paths):
                if event in ('os.remove', 'os.rmdir', 'os.listdir', 'os.scandir'):
                    attempts.append((event, paths))
                    raise Escape('rmtree of guarded %r reached %s %r' % (s, event, paths))

            with observe(obs):
                try:
                    o = outcome(getattr(aug, cls)(s).rmtree, **kw)
                except Escape:
                    o = ('escape', None)
            ctx.trans()
            ctx.trace()
            check(not attempts, 'rmtree(%r, %r) attempted %r', s, kw, attempts[:2])
            check(o[0] == 'raise' and isinstance(o[1], exc.WillNotRemovePathError),
                  'rmtree(%r, %r) -> %r instead of refusing', s, kw, o)
            check_eq(fsx.diff(before, fsx.snapshot(d)), {}, 'after refused rmtree')
            ctx.state(('guard', s, str(kw), cls))


def run_cwd(ctx, case):
    """removing the cwd (any spelling) or a tree that contains it"""
    where = case['where']
    for spell in ('{T}', '{T}/', '{T}/a/..', '{T}/../tree', '{L}/tree'):
        for cls in CLASSES:
            d, _ = make(ctx, [])
            with unguarded():
                fsx.build('t/tree', {'a': ('d', {'b': ('d', {'keep': ('f', 'v')}), 'f': ('f', 'w')}),
                                     'k': ('f', 'k')})
                os.symlink(d + '/t', 'tl')
            s = spell.replace('{T}', d + '/t/tree').replace('{L}', d + '/tl')
            cwd = os.path.normpath(d + '/t/tree/' + where)
            os.chdir(cwd)
            before = fsx.snapshot(d)
            o = outcome(getattr(aug, cls)(s).rmtree)
            ctx.trans()
            ctx.trace()
            after = fsx.snapshot(d)
            check(o[0] == 'raise' and isinstance(o[1], exc.WillNotRemovePathError),
                  'rmtree(%r) with cwd %r -> %r', s, cwd, o)
            rel = os.path.relpath(cwd, d)
            for k, v in before.items():
                if k == rel or k.startswith(rel + '/') or not k.startswith('t/tree'):
                    check(after.get(k) == v, 'cwd content %r lost by rmtree(%r)', k, s)
            ctx.state(('cwd', where, spell, cls))
            # DANGERZONE is the documented override
            o = outcome(getattr(aug, cls)(d + '/t/tree').rmtree, DANGERZONE=True)
            check(o[0] == 'ok' and not os.path.lexists(d + '/t/tree'), 'DANGERZONE removal: %r', o)


def run(ctx, case):
    {'tree': run_tree, 'top': run_top, 'guard': run_guard, 'cwd': run_cwd}[case['kind']](ctx, case)
