"""C04: swap and swap_carefree exchange two paths completely or leave both as
they were, whatever the paths are and wherever a system call fails."""
import errno
import os

import augpathlib as aug
from mc import fsx
from mc.harness import Violation, check, check_eq, outcome, observe, unguarded

ID = 'C04'
LEVEL = 'model_checking'
RULE = ('cases = every (type of self, type of target, relative position, spelling, method) combination; the '
        'fall-back path is additionally explored with every single and every pair of failing file system '
        'events, and the tree is examined at every event (crash points) for lost content')
ASSUMPTIONS = ['a crash is modelled at every audited file system event of the operation',
               'the atomic primitive itself (renameat2) is the kernel\'s']
TYPES = ('file', 'file0', 'dir', 'dirfull', 'lfile', 'ldir', 'broken', 'fifo', 'missing')
POS = ('sibling', 'other-dir', 'same-name', 'self-in-target', 'target-in-self', 'same', 'hardlink')
SPELL = ('abs', 'rel', 'mixed', 'dots')
METHODS = ('swap', 'carefree', 'fallback')
CHUNK = 8


def bounds(tier):
    return '%d type pairs x %d positions x %d spellings x %d methods; up to %d injected faults' % (
        len(TYPES) ** 2, len(POS), len(SPELL), len(METHODS), 2 if tier == 'thorough' else 1)


def cases(tier):
    for ts in TYPES:
        for tt in TYPES:
            for pos in POS:
                if pos == 'self-in-target' and tt != 'dirfull' or pos == 'target-in-self' and ts != 'dirfull':
                    continue
                if pos in ('same', 'hardlink') and ts != tt or pos == 'hardlink' and ts not in ('file', 'file0'):
                    continue
                for sp in SPELL:
                    for m in METHODS:
                        yield {'ts': ts, 'tt': tt, 'pos': pos, 'spell': sp, 'method': m, 'faults': 0}
                        if m == 'fallback':
                            yield {'ts': ts, 'tt': tt, 'pos': pos, 'spell': sp, 'method': m,
                                   'faults': 2 if tier == 'thorough' or (sp == 'abs' and pos == 'sibling') else 1}


def node(t, tag):
    return {'file': ('f', 'content ' + tag), 'file0': ('f', ''), 'dir': ('d', {}),
            'dirfull': ('d', {'in' + tag: ('f', tag), 'sub': ('d', {'y': ('f', tag)})}),
            'lfile': ('l', '../w/file'), 'ldir': ('l', '../w'), 'broken': ('l', 'no-' + tag),
            'fifo': ('p',), 'missing': None}[t]


def make(ctx, case):
    d = ctx.fresh()
    with unguarded():
        fsx.build('.', {'w': ('d', {'file': ('f', 'w')}), 'p': ('d', {}), 'q': ('d', {})})
        pos = case['pos']
        a, b = {'sibling': ('p/a', 'p/b'), 'other-dir': ('p/a', 'q/b'), 'same-name': ('p/n', 'q/n'),
                'self-in-target': ('p/b/sub/y', 'p/b'), 'target-in-self': ('p/a', 'p/a/sub/y'),
                'same': ('p/a', 'p/a'), 'hardlink': ('p/a', 'p/b')}[pos]
        if pos == 'self-in-target':
            fsx.put(b, node(case['tt'], 'T'))
            os.unlink(a)
            fsx.put(a, node(case['ts'], 'S'))
        elif pos == 'target-in-self':
            fsx.put(a, node(case['ts'], 'S'))
            os.unlink(b)
            fsx.put(b, node(case['tt'], 'T'))
        elif pos == 'hardlink':
            fsx.put(a, node(case['ts'], 'S'))
            os.link(a, b)
        else:
            fsx.put(a, node(case['ts'], 'S'))
            if a != b:
                fsx.put(b, node(case['tt'], 'T'))
    return d, a, b


class NoAtomic(aug.AugmentedPath):
    """a platform without an atomic exchange"""

    def swap(self, target):
        raise NotImplementedError('This OS has no atomic swap operation!')


def paths(case, d, a, b, cls):
    sp = case['spell']
    if sp == 'abs':
        return cls(d, a), cls(d, b)
    if sp == 'rel':
        return cls(a), cls(b)
    if sp == 'mixed':
        return cls(a), cls(d, b)
    return cls(d, 'w', '..', a), cls('p', '..', b)


def under(k, r):
    return k == r or k.startswith(r + '/')


def exchanged(before, a, b):
    if a == b:
        return before
    out = {}
    for k, v in before.items():
        if under(k, a):
            out[b + k[len(a):]] = v
        elif under(k, b):
            out[a + k[len(b):]] = v
        else:
            out[k] = v
    return out


def run(ctx, case):
    execute(ctx, case, ())
    if not case['faults']:
        return
    # every event index failing, until the operation has no further event
    fault_sets = [(k,) for k in range(0, 7)]
    if case['faults'] == 2:
        fault_sets += [(i, j) for i in range(7) for j in range(i + 1, 9)]
    for fs in fault_sets:
        execute(ctx, case, fs)
        if len(fs) == 1:
            execute(ctx, case, fs, KeyboardInterrupt)


def inodes(snap):
    return sorted(v[-1] for k, v in snap.items())


def execute(ctx, case, faults, kind=OSError):
    d, a, b = make(ctx, case)
    cls = NoAtomic if case['method'] == 'fallback' else aug.AugmentedPath
    s, t = paths(case, d, a, b, cls)
    before = fsx.snapshot(d, ino=True)
    keep = {v[-1]: v for v in before.values()}
    lost = []
    n = [0]
    hit = []

    def obs(event, ps):
        if event not in ('os.mkdir', 'os.rename', 'os.rmdir', 'os.remove', 'os.link', 'os.symlink', 'open-write'):
            return
        with unguarded():
            now = fsx.snapshot(d, ino=True)
        have = {v[-1]: v for v in now.values()}
        for i, v in keep.items():
            if have.get(i) != v:
                lost.append((n[0], event, v))
        k = n[0]
        n[0] += 1
        if k in faults:
            hit.append((k, event))
            if kind is not OSError:
                raise kind('injected')
            raise OSError(errno.EXDEV, 'injected', *[str(p) for p in ps[:1]])

    fds = len(os.listdir('/proc/self/fd'))
    with observe(obs):
        o = outcome(getattr(s, 'swap' if case['method'] == 'swap' else 'swap_carefree'), t)
    ctx.trans(n[0] + 1)
    ctx.trace()
    check_eq(len(os.listdir('/proc/self/fd')), fds, 'open file descriptors after swap')
    after = fsx.snapshot(d, ino=True)
    what = '%s of %s and %s' % (case['method'], case['ts'], case['tt'])
    if hit:
        what += ' with failing events %r' % hit
    check(not lost, '%s: content unreachable at a crash point: %r', what, lost[:2])
    ctx.state((case['ts'], case['tt'], case['pos'], case['spell'], case['method'], tuple(hit)))
    ex = exchanged(before, a, b)
    nested = case['pos'] in ('self-in-target', 'target-in-self')
    if o[0] == 'ok':
        check(not nested, '%s: nested paths cannot be exchanged but no error', what)
        check('missing' not in (case['ts'], case['tt']), '%s: succeeded with a missing path', what)
        check_eq(fsx.diff(ex, after), {}, what + ': not a complete exchange')
        return
    natural = nested or case['pos'] == 'same' or 'missing' in (case['ts'], case['tt'])
    if len(hit) + natural >= 2:
        # the roll back itself failed: nothing may be lost
        have = {v[-1]: v for v in after.values()}
        for i, v in keep.items():
            check(have.get(i) == v, '%s: lost %r', what, v)
        return
    ok = not fsx.diff(before, after)
    if hit and hit[-1][1] == 'os.rmdir':
        # only the clean up of the temporary directory failed
        extra = [k for k in after if k not in before and k not in ex]
        rest = {k: v for k, v in after.items() if k not in extra}
        ok = len(extra) <= 1 and (not fsx.diff(before, rest) or not fsx.diff(ex, rest))
    check(ok, '%s: failed with %r but changed %s', what, o[1], fsx.diff(before, after))
    check(isinstance(o[1], Exception) or hit and isinstance(o[1], kind), '%s: %r', what, o[1])
    if not hit:
        # legitimate reasons to fail
        miss = 'missing' in (case['ts'], case['tt'])
        if miss and case['method'] == 'swap':
            check(isinstance(o[1], FileNotFoundError), '%s: %r instead of FileNotFoundError', what, o[1])
        dangling = case['ts'] == 'broken' or case['tt'] == 'broken'
        same = case['pos'] == 'same'
        if case['method'] == 'swap':
            legit = miss or nested or dangling
        elif case['method'] == 'carefree':
            legit = miss or nested or (same and dangling)
        else:
            legit = miss or nested or same
        check(legit, '%s: refused although both exist: %r', what, o[1])
