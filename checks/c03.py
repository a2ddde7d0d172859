"""C03: rmdirtree removes exactly the directories whose whole subtree consists
of directories (find -type d -empty -delete), nothing else, through no symlink,
whatever happens concurrently."""
import errno
import os

import augpathlib as aug
from mc import fsx, trees
from mc.harness import check, check_eq, outcome, observe, unguarded

ID = 'C03'
LEVEL = 'model_checking'
RULE = ('cases = all trees up to isomorphism with <= N nodes over {file, empty file, fifo, symlinks, dir}; '
        'each is pruned fault-free for absolute/relative/dot spellings and 3 classes, with every directory in '
        'turn failing to be removed, every directory in turn unreadable, and with a file appearing in every '
        'directory in turn just before its removal or just before any other removal')
LEAFS = ('F', 'P', 'LD', 'LB')
CHUNK = 4
ASSUMPTIONS = ['a concurrent writer is modelled as one file creation immediately before a directory removal']


def bounds(tier):
    return 'trees <= %d nodes' % (5 if tier == 'quick' else 6)


def cases(tier):
    for n in range(0, (5 if tier == 'quick' else 6) + 1):
        for f in trees.forests(n, LEAFS):
            yield {'kind': 'tree', 'forest': trees.detuple(f)}
    for top in ('file', 'link-empty', 'link-full', 'link-broken', 'missing'):
        yield {'kind': 'top', 'top': top}


def leaf(kind, root):
    return {'F': ('f', ''), 'P': ('p',), 'LD': ('l', root + '/empty'), 'LB': ('l', 'nowhere')}[kind]


# names do not matter: visible, hidden, both
NAMES = {'AugmentedPath': tuple('abcdefgh'), 'LocalPath': tuple('.' + c for c in 'abcdefgh'),
         'RepoPath': ('..a', 'b b', '.git', 'd', '.~e', 'f~', '-g', '#h')}


def make(ctx, forest, names=NAMES['AugmentedPath']):
    d = ctx.fresh()
    with unguarded():
        fsx.build('.', {'empty': ('d', {'e2': ('d', {})}), 't': ('d', {'sib': ('d', {})})})
        spec = trees.to_spec(forest, lambda k: leaf(k, d), names)
        fsx.put('t/tree', ('d', spec))
    return d, spec


def only_dirs(node):
    return node[0] == 'd' and all(only_dirs(c) for c in node[1].values())


def expected_removed(spec):
    out = set()
    full = {'tree': ('d', spec)}
    for p, v in trees.flatten(full):
        if only_dirs(v):
            out.add('t/' + p)
    return out


def run(ctx, case):
    if case['kind'] == 'top':
        return run_top(ctx, case)
    forest = case['forest']
    for cls in ('AugmentedPath', 'LocalPath', 'RepoPath'):
        for spell in ('{D}/t/tree', 't/tree', '.'):
            d, spec = make(ctx, forest, NAMES[cls])
            gone = expected_removed(spec)
            if spell == '.':
                if 't/tree' in gone:
                    continue  # cannot rmdir '.'
                os.chdir('t/tree')
            before = fsx.snapshot(d)
            o = outcome(getattr(aug, cls)(spell.replace('{D}', d)).rmdirtree)
            ctx.trans(len(before))
            ctx.trace()
            check(o[0] == 'ok', 'rmdirtree(%s) raised %r', spell, o[1])
            exp = {k: v for k, v in before.items() if k not in gone}
            check_eq(fsx.diff(exp, fsx.snapshot(d)), {}, 'after rmdirtree(%s)' % spell)
    ctx.state(forest)
    spec = make(ctx, forest)[1]
    dirs = ['t/tree'] + ['t/tree/' + p for p, v in trees.flatten(spec) if v[0] == 'd']
    for victim in dirs:
        for kind in ('fail', 'unreadable', 'create'):
            d, spec = make(ctx, forest)
            gone = expected_removed(spec)
            vp = d + '/' + victim
            before = fsx.snapshot(d)
            if kind == 'unreadable':
                os.chmod(vp, 0o300)
            created = []

            def obs(event, paths):
                if event != 'os.rmdir':
                    return
                if kind == 'fail' and os.path.normpath(paths[0]) == vp:
                    raise PermissionError(errno.EACCES, 'injected', vp)
                if kind == 'create' and not created:
                    with unguarded():
                        if os.path.isdir(vp):
                            with open(vp + '/new', 'w') as f:
                                f.write('precious')
                            created.append(victim + '/new')

            with observe(obs):
                o = outcome(aug.AugmentedPath(d + '/t/tree').rmdirtree)
            ctx.trans(len(dirs))
            ctx.trace()
            if kind == 'unreadable':
                check(os.path.isdir(vp), 'unreadable dir %r was removed', victim)
                os.chmod(vp, 0o700)
            after = fsx.snapshot(d)
            what = 'rmdirtree with %s at %s' % (kind, victim)
            for k, v in before.items():
                if k not in gone:
                    check(after.get(k) == v, '%s: lost %r', what, k)
            for k in after:
                check(k in before or k in created, '%s: made %r', what, k)
            for c in created:
                check(after.get(c) == ('f', b'precious'), '%s: removed a file that appeared concurrently', what)
            if kind == 'fail' and victim in gone:
                check(o[0] == 'raise', '%s: failure was swallowed', what)
                check(victim in after, '%s: vanished', what)
            if kind == 'unreadable':
                anc = victim
                while anc.startswith('t/tree'):
                    check(anc in after, '%s: ancestor %r removed', what, anc)
                    anc = os.path.dirname(anc)


def run_top(ctx, case):
    for cls in ('AugmentedPath', 'LocalPath', 'RepoPath'):
        for spell in ('{D}/t/x', 't/x'):
            d, _ = make(ctx, [])
            top = case['top']
            if top != 'missing':
                fsx.put('t/x', {'file': ('f', ''), 'link-empty': ('l', d + '/empty'),
                                'link-full': ('l', d + '/t'), 'link-broken': ('l', 'no')}[top])
            before = fsx.snapshot(d)
            o = outcome(getattr(aug, cls)(spell.replace('{D}', d)).rmdirtree)
            ctx.trans()
            ctx.trace()
            if top.startswith('link'):
                check(o[0] == 'raise' and isinstance(o[1], NotADirectoryError), 'rmdirtree of a symlink: %r', o)
            check_eq(fsx.diff(before, fsx.snapshot(d)), {}, 'after rmdirtree of %s' % top)
            ctx.state((top, cls))
