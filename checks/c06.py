"""C06: relative_path_from / relative_path_to / commonpath / to_relative."""
import itertools
import os
import posixpath

import augpathlib as aug
from mc.harness import check, check_eq, outcome, unguarded

ID = 'C06'
LEVEL = 'model_checking'
RULE = ('cases = every first path; it is paired with every second path over the component alphabet up to the length '
        'bound, absolute and relative, in every class; the result is compared with a lexical model and, stored in a '
        'real symlink at the position of the other path, must lead to self')
ASSUMPTIONS = ['paths without .. components (those have no lexical answer)']
CHUNK = 4
CLASSES = ('AugmentedPath', 'LocalPath', 'RepoPath')


def names(tier):
    return ('a', 'b', 'ab') if tier == 'quick' else ('a', 'b', 'ab', 'a b')


def paths(tier):
    n = 3 if tier == 'quick' else 4
    out = []
    for k in range(0, n + 1):
        for c in itertools.product(names(tier)[:3 if k < 4 else 2], repeat=k):
            out.append(c)
    return out


def bounds(tier):
    return 'all pairs of %d paths (<= %d components), absolute and relative' % (
        2 * len(paths(tier)), 3 if tier == 'quick' else 4)


def cases(tier):
    for c in paths(tier):
        for ab in (0, 1):
            yield {'p': list(c), 'abs': ab, 'tier': tier}


def common(a, b):
    out = []
    for x, y in zip(a, b):
        if x != y:
            break
        out.append(x)
    return out


def spell(c, ab, how):
    s = '/'.join(c)
    if how == 'dots' and c:
        s = '/./'.join(c) + '/.'
    if how == 'slashes' and c:
        s = '//'.join(c) + '/'
    return ('/' if ab else '') + s


def run(ctx, case):
    a = case['p']
    d = ctx.fresh()
    for cls in (getattr(aug, n) for n in CLASSES):
        for how in (('plain', 'dots', 'slashes') if cls is aug.AugmentedPath else ('plain',)):
            s = cls(spell(a, case['abs'], how))
            for b in paths(case['tier']):
                for bab in (0, 1):
                    t = cls(spell(b, bab, 'plain'))
                    pair(ctx, cls, s, a, case['abs'], t, list(b), bab)
    # the answer is what has to be stored in a symlink
    for b in paths(case['tier']):
        if case['abs'] and b and a[:len(b)] != list(b) and list(b)[:len(a)] != a:
            link(ctx, d, a, list(b))
    ctx.trace()


def pair(ctx, cls, s, a, aab, t, b, bab):
    ctx.trans()
    what = '%s(%r) from %r' % (cls.__name__, str(s), str(t))
    o = outcome(s.relative_path_from, t)
    o2 = outcome(t.relative_path_to, s)
    oc = outcome(s.commonpath, t)
    if aab != bab:
        for x in (o, o2, oc):
            check(x[0] == 'raise' and isinstance(x[1], ValueError), '%s: mixed paths gave %r', what, x[1])
        return
    for x in (o, o2, oc):
        check(x[0] == 'ok', '%s: %r', what, x[1])
        check(isinstance(x[1], cls), '%s: class %s', what, type(x[1]))
    com = common(a, b)
    check_eq(list(oc[1].parts), (['/'] if aab else []) + com, 'commonpath of ' + what)
    base = b if com == b else b[:-1]      # an ancestor is where we start, everything else is an entry
    # the shortest way there
    k = len(common(base, a))
    expect = ['..'] * (len(base) - k) + a[k:]
    check_eq(list(o[1].parts), expect, 'relative path of ' + what)
    check_eq(list(o2[1].parts), expect, 'relative path to of ' + what)
    tr = outcome(t.to_relative, oc[1])
    check(tr[0] == 'ok' and list(tr[1].parts) == ['..'] * (len(base) - k), '%s: to_relative %r', what, tr[1])
    ctx.state((tuple(a), aab, tuple(b)))


def link(ctx, d, a, b):
    with unguarded():
        r = os.path.join(d, 'r%d' % ctx.n_trans)
        src = os.path.join(r, *a) if a else r
        dst = os.path.join(r, *b)
        if not a:
            return
        os.makedirs(os.path.dirname(src), exist_ok=True)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        open(src, 'w').close()
    S, T = aug.AugmentedPath(src), aug.AugmentedPath(dst)
    T.symlink_to(S.relative_path_from(T))
    check(os.path.samefile(dst, src), 'link %s -> %s does not lead to %s', dst, os.readlink(dst), src)
    ctx.count('symlinks_followed')
    ctx.trans()
