"""C05: the working directory after any program of with / pushd / popd / chdir
is what the with-stack and the directory stack say it is."""
import itertools
import os
import stat

import augpathlib as aug
from mc import fsx, sync
from mc.fakes import Node, Server
from mc.harness import check, check_eq, outcome, unguarded

ID = 'C05'
LEVEL = 'model_checking'
RULE = ('cases = every two operation prefix; each is extended with every suffix up to the depth bound; an operation is '
        'entering one of 6 path objects, leaving the innermost with (normally or by an exception), pushd of an '
        'object, popd(0..2), chdir, or a directory becoming unsearchable and searchable again; after every operation cwd and the directory stack are compared with the model')
ASSUMPTIONS = ['with statements are properly nested (the language guarantees that)',
               'directories are not moved or removed while they are on the stacks']
CHUNK = 2
CASE_LIMIT = 300

OBJS = ('A', 'A2', 'R', 'F', 'M', 'X')
OPS = ([('enter', o) for o in OBJS] + [('exit',), ('exitexc',)] +
       [('pushd', o) for o in ('A', 'R', 'F', 'X')] + [('popd', 0), ('popd', 1), ('popd', 2)] +
       [('chdir', 'A'), ('chdir', 'M'), ('lock',)])


def depth(tier, cls):
    d = 5 if tier == 'thorough' else 4
    return d if cls == 'AugmentedPath' else d - 1


def bounds(tier):
    return 'all programs of at most %d operations from an alphabet of %d (4 classes of path, among them caches)' % (
        depth(tier, 'AugmentedPath'), len(OPS))


def cases(tier):
    for cls in ('AugmentedPath', 'RepoPath', 'LocalPath', 'cache'):
        for pre in itertools.product(range(len(OPS)), repeat=2):
            yield {'cls': cls, 'prefix': list(pre), 'depth': depth(tier, cls)}


class Boom(Exception):
    pass


def run(ctx, case):
    d = ctx.fresh()
    if case['cls'] == 'cache':
        cls = sync.Client(Server([Node('R', 'proj', None, 'dir'), Node('A', 'a', 'R', 'dir'), Node('B', 'a', 'A', 'dir'),
                                  Node('F', 'f', 'R', 'file', b'x'), Node('M', 'm', 'R', 'file', b'x'), Node('X', 'x', 'R', 'dir')]), d + '/proj')
        cls.bootstrap()
        cls = cls.C
        d += '/proj'
        with unguarded():
            os.chmod(d + '/x', 0o400)
    else:
        cls = getattr(aug, case['cls'])
        with unguarded():
            fsx.build('.', {'a': ('d', {'a': ('d', {})}), 'f': ('f', 'x'), 'x': ('d', {})})
            os.chmod('x', 0)
    d = os.path.realpath(d)
    pre = tuple(case['prefix'])
    for suf in itertools.product(range(len(OPS)), repeat=case['depth'] - 2):
        program(ctx, cls, d, pre + suf)
    ctx.trans(0)
    with unguarded():
        os.chmod(d + '/x', 0o700)


def isdir(p):
    try:
        return stat.S_ISDIR(os.stat(p).st_mode)
    except OSError:
        return False


def program(ctx, cls, base, prog):
    os.chdir(base)
    objs = {'A': cls(base, 'a'), 'A2': cls(base, 'a'), 'R': cls('a'), 'F': cls(base, 'f'),
            'M': cls(base, 'm'), 'X': cls(base, 'x')}
    raw = {'A': base + '/a', 'A2': base + '/a', 'R': 'a', 'F': base + '/f', 'M': base + '/m', 'X': base + '/x'}
    for _ in range(20):
        if outcome(cls.popd) == ('ok', None):
            break
    os.chdir(base)
    cwd = base
    withs = []     # (object name, object, directory to return to or None)
    stack = []     # directory stack
    done = []
    locked = False

    def say():
        return 'after %r' % (done,)

    def compare():
        check_eq(os.getcwd(), cwd, 'cwd ' + say())

    def usable(o):
        p = raw[o]
        return isdir(p) and os.access(p, os.X_OK)

    def leave(exc):
        name, obj, back = withs.pop()
        if back is not None and not (isdir(back) and os.access(back, os.X_OK)):
            # it cannot be returned to
            o = outcome(obj.__exit__, None, None, None)
            check(o[0] == 'raise' and isinstance(o[1], OSError), 'leaving %s gave %r %s', name, o, say())
            return cwd
        if exc:
            e = Boom()
            o = outcome(obj.__exit__, Boom, e, None)
            check(o[0] == 'ok' and not o[1], 'leaving %s by an exception: %r %s', name, o[1], say())
        else:
            o = outcome(obj.__exit__, None, None, None)
            check(o[0] == 'ok', 'leaving %s: %r %s', name, o[1], say())
        return cwd if back is None else back

    for i in prog:
        op = OPS[i]
        done.append(op)
        ctx.trans()
        if op[0] == 'enter':
            obj = objs[op[1]]
            ok = usable(op[1])
            full = os.path.join(cwd, raw[op[1]])
            o = outcome(obj.__enter__)
            if ok:
                check(o[0] == 'ok' and o[1] is obj, 'entering %s gave %r %s', op[1], o[1], say())
                withs.append((op[1], obj, cwd))
                cwd = full
            elif o[0] == 'ok':
                # not a directory: python <= 3.12 allows it, it means nothing
                check(op[1] != 'X', 'entering an unsearchable directory gave no error %s', say())
                check(not isdir(full), 'entering %s did not change directory %s', op[1], say())
                if obj not in [w[1] for w in withs]:
                    withs.append((op[1], obj, None))
        elif op[0] in ('exit', 'exitexc'):
            if not withs:
                break
            cwd = leave(op[0] == 'exitexc')
        elif op[0] == 'pushd':
            ok = usable(op[1])
            full = os.path.join(cwd, raw[op[1]])
            o = outcome(objs[op[1]].pushd)
            check_eq(o[0], 'ok' if ok else 'raise', 'pushd %s -> %r %s' % (op[1], o[1], say()))
            if ok:
                stack.append(cwd)
                cwd = full
            else:
                if op[1] == 'F':
                    check(isinstance(o[1], NotADirectoryError), 'pushd of a file: %r', o[1])
        elif op[0] == 'popd':
            n = op[1]
            o = outcome(cls.popd, n)
            if not stack:
                check_eq(o, ('ok', None), 'popd of an empty stack ' + say())
            elif n >= len(stack):
                check(o[0] == 'raise' and isinstance(o[1], IndexError), 'popd(%d): %r %s', n, o[1], say())
            elif not (isdir(stack[-1 - n]) and os.access(stack[-1 - n], os.X_OK)):
                check(o[0] == 'raise' and isinstance(o[1], OSError), 'popd(%d) to %s gave %r %s', n, stack[-1 - n], o, say())
            else:
                cwd = stack.pop(-1 - n)
                check(o[0] == 'ok' and str(o[1]) == cwd, 'popd(%d) returned %r not %s %s', n, o[1], cwd, say())
        elif op[0] == 'lock':
            # a directory becomes unsearchable, and searchable again
            locked = not locked
            with unguarded():
                os.chmod(base + '/a', 0o600 if locked else 0o755)
        else:
            ok = usable(op[1])
            o = outcome(objs[op[1]].chdir)
            check_eq(o[0], 'ok' if ok else 'raise', 'chdir %s -> %r %s' % (op[1], o[1], say()))
            if ok:
                cwd = os.path.join(cwd, raw[op[1]])
        compare()
        ctx.state((cwd[len(base):], tuple(w[0] for w in withs),
                   tuple(w[2][len(base):] if w[2] else None for w in withs),
                   tuple(s[len(base):] for s in stack)))
    # unwinding: every with returns to where it was entered
    done.append('unwind')
    if locked:
        with unguarded():
            os.chmod(base + '/a', 0o755)
    while withs:
        cwd = leave(False)
        compare()
    while stack:
        cwd = stack.pop()
        o = outcome(cls.popd)
        check(o[0] == 'ok' and str(o[1]) == cwd, 'popd returned %r not %s %s', o[1], cwd, say())
        compare()
    check_eq(outcome(cls.popd), ('ok', None), 'popd of an empty stack ' + say())
    compare()
    ctx.trace()
