"""C21: extended attributes of a path are a dictionary."""
import itertools
import os
import shutil

from augpathlib import EatPath, LocalPath
from augpathlib import exceptions as exc
from mc.harness import check, check_eq, outcome, unguarded

ID = 'C21'
LEVEL = 'model_checking'
RULE = ('cases = first operation out of {set, set many, delete, delete or fail, write data, rename, copy} x kind of path; extended '
        'by every operation up to the depth bound; after each all attributes of all paths are read with every function, through '
        'every spelling, and with os.getxattr, and compared with a dictionary; values that are not bytes are refused')
ASSUMPTIONS = ['namespace user on a file system with extended attributes']
CHUNK = 1
CASE_LIMIT = 200
KEYS = ('k', 'k.sub', 'é', 'user.k', 'K')
VALUES = (b'', b'v', b'\x00\xff\n', b'x' * 300)
BAD = ('str', None, 1, ['l'], bytearray(b'b'))
PATHS = ('f', 'd', 'd/g')


def ops(tier):
    out = []
    for p in PATHS:
        for k in KEYS[:3]:
            out += [('set', p, k, VALUES[1]), ('del', p, k)]
        out += [('set', p, 'k', VALUES[0]), ('set', p, 'user.k', VALUES[2]), ('setmany', p, {'k': VALUES[2], 'K': VALUES[3]}),
                ('delfail', p, 'k'), ('bad', p)]
    out += [('data', 'f'), ('data', 'd/g'), ('rename', 'f', 'd/g'), ('rename', 'd/g', 'f'), ('copy', 'f', 'd/g')]
    return out


def bounds(tier):
    return '%d operations, depth %d, 3 paths' % (len(ops(tier)), 2 if tier == 'quick' else 3)


def cases(tier):
    for cls in ('eat', 'local'):
        for i in range(len(ops(tier))):
            yield {'class': cls, 'first': i, 'depth': 2 if tier == 'quick' else 3, 'tier': tier}


def fresh(d, model, kinds):
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    for p in ('d', 'f', 'd/g'):
        if kinds.get(p) == 'dir':
            os.mkdir(os.path.join(d, p))
        elif kinds.get(p):
            with open(os.path.join(d, p), 'w') as f:
                f.write('content')
    for p, kv in model.items():
        for k, v in kv.items():
            os.setxattr(os.path.join(d, p), 'user.' + k, v)


def step(cls, d, op, model, what):
    """run op, return the new model"""
    model = {p: dict(kv) for p, kv in model.items()}
    p = cls(os.path.join(d, op[1]))
    there = op[1] in model
    kv = model.get(op[1])
    err = None
    if op[0] == 'set':
        o = outcome(lambda: p.setxattr(op[2], op[3]))
        err = None if there else OSError
        if there:
            kv[op[2]] = op[3]
    elif op[0] == 'setmany':
        o = outcome(lambda: p.setxattrs(op[2]))
        err = None if there else OSError
        if there:
            kv.update(op[2])
    elif op[0] in ('del', 'delfail'):
        o = outcome(lambda: p.delxattr(op[2], fail=op[0] == 'delfail'))
        err = None if there and (op[2] in kv or op[0] == 'del') else OSError
        if there:
            kv.pop(op[2], None)
    elif op[0] == 'bad':
        for b in BAD:
            o = outcome(lambda: p.setxattr('k', b))
            check(o[0] == 'raise' and isinstance(o[1], TypeError), '%s: %r was accepted or failed with %r', what, b, o[1])
            o = outcome(lambda: p.setxattrs({'k': b}))
            check(o[0] == 'raise' and isinstance(o[1], TypeError), '%s: %r was accepted or failed with %r', what, b, o[1])
        return model
    elif op[0] == 'data':
        with unguarded():
            if not there:
                return model
        if cls is EatPath:
            return model
        o = outcome(lambda: setattr(p, 'data', iter([b'new ', b'data'])))
    elif op[0] == 'rename':
        o = outcome(lambda: p.rename(os.path.join(d, op[2])))
        err = None if there else OSError
        if there:
            model[op[2]] = model.pop(op[1])
    elif op[0] == 'copy':
        if cls is EatPath or not there or op[2] in model:
            return model
        o = outcome(lambda: p.copy_to(cls(os.path.join(d, op[2]))))
        model[op[2]] = {}
    if err is None:
        check(o[0] == 'ok', '%s: raised %r', what, o[1])
    else:
        check(o[0] == 'raise' and isinstance(o[1], err), '%s: should fail with %s, got %r', what, err.__name__, o[1])
    return model


def look(ctx, cls, d, model, what):
    for p in PATHS:
        full = os.path.join(d, p)
        spelled = [(None, full), (d, p), (os.path.dirname(full), os.path.basename(full))]
        if p == 'd' and p in model:
            spelled.append((full, '.'))
        kv = model.get(p)
        with unguarded():
            if kv is not None:
                raw = {k: os.getxattr(full, k) for k in os.listxattr(full) if k.startswith('user.')}
                check_eq(raw, {'user.' + k: v for k, v in kv.items()}, what + ': on disk')
        for cwd, s in spelled:
            here = os.getcwd()
            if cwd:
                os.chdir(cwd)
            try:
                o = outcome(lambda: cls(s).xattrs())
                w = '%s: xattrs of %r' % (what, s)
                if kv is None:
                    check(o[0] == 'raise' and isinstance(o[1], FileNotFoundError), '%s: path is not there, got %r', w, o[1])
                else:
                    check(o[0] == 'ok', '%s raised %r', w, o[1])
                    check_eq(o[1], {k.encode(): v for k, v in kv.items()}, w)
                for k in KEYS:
                    for kk in (k, k.encode()):
                        o = outcome(lambda: cls(s).getxattr(kk))
                        w = '%s: getxattr(%r) of %r' % (what, kk, s)
                        if kv is None:
                            check(o[0] == 'raise' and isinstance(o[1], OSError), '%s: path is not there, got %r', w, o[1])
                        elif k in kv:
                            check(o[0] == 'ok' and o[1] == kv[k], '%s: got %r', w, o[1])
                        else:
                            check(o[0] == 'raise' and isinstance(o[1], exc.NoStreamError), '%s: not there, got %r', w, o[1])
                        ctx.evaluation(w)
            finally:
                os.chdir(here)
    ctx.state((cls.__name__, repr(sorted((p, sorted(kv.items())) for p, kv in model.items()))))


def run(ctx, case):
    d = os.path.join(ctx.fresh(), 'x')
    cls = {'eat': EatPath, 'local': LocalPath}[case['class']]
    all_ = ops(case['tier'])
    start = {'f': {'K': b'old'}, 'd': {}, 'd/g': {'k': b'old'}}
    kinds = {'f': 'file', 'd': 'dir', 'd/g': 'file'}
    for rest in itertools.product(all_, repeat=case['depth'] - 1):
        with unguarded():
            fresh(d, start, kinds)
        model = start
        seq = [all_[case['first']], *rest]
        for i, op in enumerate(seq):
            what = '%s after %s' % (case['class'], [o[:3] for o in seq[:i + 1]])
            model = step(cls, d, op, model, what)
            ctx.trans()
        look(ctx, cls, d, model, what)
        ctx.trace()
