"""C23: paths inside of zip files."""
import itertools
import os
import warnings
import zipfile

import augpathlib as aug
from augpathlib import ZipPath
from augpathlib.zip import ZipHelper
from mc.harness import check, check_eq, outcome, unguarded

ID = 'C23'
LEVEL = 'model_checking'
RULE = ('cases = every set of entries up to a size out of files (empty, small, several chunks, stored, compressed, twice) in '
        'directories with and without their own entries x name and place of the zip file; every path, inside and outside, '
        'is asked in absolute and relative spelling for existence, children and content; then the zip is rewritten or replaced '
        'and asked again, and files that are not zips are asked')
ASSUMPTIONS = ['the zip is written with the zipfile module', 'names without .. and backslash']
CHUNK = 2
CASE_LIMIT = 200
BIG = bytes(range(256)) * 40
ENTRIES = ('f', 'd/', 'd/f', 'd/e/', 'd/e/g', 'd e/é', 'x/y/z', 'n.zip', 'f twice')
ASK = ('', 'f', 'd', 'd/f', 'd/e', 'd/e/g', 'd e', 'd e/é', 'x', 'x/y', 'x/y/z', 'n.zip', 'no', 'd/no', 'no/no', 'f/no', 'n.zip/x')


def bounds(tier):
    return 'all sets of <= %d of %d entries, 3 file names' % (3 if tier == 'quick' else 6, len(ENTRIES))


def cases(tier):
    for r in range(0, 4 if tier == 'quick' else 7):
        for es in itertools.combinations(ENTRIES, r):
            yield {'entries': list(es)}
    yield {'other': True}


def content(e, salt=0):
    if e == 'n.zip':
        return b'PK not really'
    tail = salt if isinstance(salt, bytes) else b'salt' * salt
    return {'f': b'', 'd/f': b'small\n', 'd/e/g': BIG, 'd e/é': b'\x00', 'x/y/z': BIG[:4096]}[e] + tail


def write(p, entries, salt=0):
    """returns the model {path: None or bytes}"""
    model = {'': None}
    with zipfile.ZipFile(p, 'w') as z, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for i, e in enumerate(entries):
            if e == 'f twice':
                z.writestr('f', b'old')
                z.writestr('f', b'the last one')
                model['f'] = b'the last one'
                continue
            if e.endswith('/'):
                z.writestr(zipfile.ZipInfo(e), b'')
                model[e[:-1]] = None
            else:
                z.writestr(e, content(e, salt), zipfile.ZIP_DEFLATED if i % 2 and not isinstance(salt, bytes) else zipfile.ZIP_STORED)
                model[e] = content(e, salt)
    for k in list(model):
        while '/' in k:
            k = k.rsplit('/', 1)[0]
            model.setdefault(k, None)
    return model


def read(p):
    with p.open() as f:
        return f.read()


def ask(ctx, what, mk, model, prefix):
    """mk(rel) makes the path of a member"""
    kids = {k: sorted(x for x in model if x and os.path.dirname(x) == k and x != k) for k, v in model.items() if v is None}
    for q in ASK:
        p = mk(q)
        w = '%s: %r' % (what, q)
        o = outcome(p.exists)
        check(o[0] == 'ok', '%s exists raised %r', w, o[1])
        check_eq(o[1], q in model, w + ' exists')
        o = outcome(lambda: read(p))
        if q in model and model[q] is not None:
            check(o[0] == 'ok' and o[1] == model[q], '%s: read %r', w, o[1])
        elif q in model:
            check(o[0] == 'raise' and isinstance(o[1], IsADirectoryError), '%s: read a directory: %r', w, o[1])
        else:
            check(o[0] == 'raise' and isinstance(o[1], OSError), '%s: read what is not there: %r', w, o[1])
        below = sorted(x for x in model if x and x != q and (not q or x.startswith(q + '/')))
        o = outcome(lambda: sorted(os.path.relpath(str(c), str(mk(''))) for c in p.rchildren))
        check(o[0] == 'ok', '%s: rchildren raised %r', w, o[1])
        check_eq(o[1], below, w + ' rchildren')
        check(all(type(c) is type(p) for c in p.rchildren), '%s: rchildren are not of the same class', w)
        i = p.asInternal()
        check_eq(str(i), q or '.', w + ' internal')
        check_eq(i.exists(), q in model, w + ' internal exists')
        check_eq(i.is_dir(), q in model and model[q] is None, w + ' internal is_dir')
        check_eq(sorted(str(c) for c in i.children), kids.get(q, []), w + ' internal children')
        check_eq(sorted(str(c) for c in i.rchildren), below, w + ' internal rchildren')
        o = outcome(lambda: b''.join(i.data))
        if q in model and model[q] is not None:
            check(o[0] == 'ok' and o[1] == model[q], '%s: data %r', w, o[1])
        else:
            check(o[0] == 'raise' and isinstance(o[1], OSError), '%s: data of a directory or nothing: %r', w, o[1])
        check_eq(str(p.zip_path), prefix, w + ' zip_path')
        ctx.trans()
        ctx.evaluation(w)
    # two members at the same time
    files = [k for k, v in model.items() if v]
    for a, b in itertools.permutations(files, 2):
        ga, gb = mk(a).asInternal().data, mk(b).asInternal().data
        got = [b'', b'']
        for x, y in itertools.zip_longest(ga, gb, fillvalue=b''):
            got[0] += x
            got[1] += y
        check(got == [model[a], model[b]], '%s: %s and %s read at the same time', what, a, b)


def run(ctx, case):
    root = ctx.fresh()
    here = os.getcwd()
    getattr(ZipHelper, '_zfc_cache', {}).clear()
    if 'other' in case:
        return other(ctx, root)
    entries = case['entries']
    for name in ('a.zip', 'noext', 'd.zip/in.zip'):
        z = os.path.join(root, name)
        if '/' in name:
            if not os.path.isdir(os.path.dirname(z)):
                os.makedirs(os.path.dirname(z))
        model = write(z, entries)
        what = '%s %s' % (name, entries)
        ask(ctx, what, lambda q: ZipPath(z, q), model, z)
        one = os.path.join(root, 'one' + name.replace('/', ''))
        two = os.path.join(root, 'two' + name.replace('/', ''))
        os.mkdir(one)
        os.mkdir(two)
        m1 = write(os.path.join(one, 'r.zip'), entries)
        m2 = write(os.path.join(two, 'r.zip'), entries[1:], 1)
        for d, m in ((one, m1), (two, m2), (one, m1)):
            os.chdir(d)
            try:
                ask(ctx, what + ' relative in ' + os.path.basename(d), lambda q: ZipPath('r.zip', q), m, 'r.zip')
            finally:
                os.chdir(here)
        # rewritten in place, and replaced
        model = write(z, entries[:1] + entries[2:], 2)
        ask(ctx, what + ' rewritten', lambda q: ZipPath(z, q), model, z)
        model = write(z + '.new', entries[1:], 3)
        os.rename(z + '.new', z)
        ask(ctx, what + ' replaced', lambda q: ZipPath(z, q), model, z)
        # as little as possible tells that it is another one
        t = 1600000000 * 10 ** 9
        for how, salt in (('', b'AAAA'), ('in place, a nanosecond later', b'BBBB'), ('replaced, same size and time', b'CCCC'),
                          ('in place, same time, longer', b'DDDDD')):
            model = write(z + '.new', entries, salt)
            with unguarded():
                if how.startswith('in place'):
                    t += 'later' in how
                    with open(z + '.new', 'rb') as f, open(z, 'wb') as g:
                        g.write(f.read())
                    os.unlink(z + '.new')
                else:
                    os.rename(z + '.new', z)
                os.utime(z, ns=(t, t))
            ask(ctx, what + ' ' + how, lambda q: ZipPath(z, q), model, z)
        os.unlink(z)
        check_eq(ZipPath(z).exists(), False, what + ': removed, exists')
        check_eq(ZipPath(z, 'f').exists(), False, what + ': removed, member exists')
        ctx.state(what)
        ctx.trace()


def other(ctx, root):
    with unguarded():
        open(os.path.join(root, 'empty.zip'), 'w').close()
        with open(os.path.join(root, 'bad.zip'), 'w') as f:
            f.write('not a zip')
        os.makedirs(os.path.join(root, 'dir.zip/sub'))
        open(os.path.join(root, 'dir.zip/file'), 'w').close()
        with open(os.path.join(root, 'plain'), 'w') as f:
            f.write('plain text')
        os.symlink('nowhere.zip', os.path.join(root, 'broken.zip'))
    there = {'empty.zip', 'bad.zip', 'dir.zip', 'dir.zip/sub', 'dir.zip/file', 'plain', ''}
    for q in sorted(there | {'no', 'no.zip', 'no.zip/x', 'bad.zip/x', 'empty.zip/x', 'dir.zip/no', 'plain/x', 'broken.zip', 'broken.zip/x'}):
        for p in (ZipPath(root, q), ZipPath(os.path.relpath(os.path.join(root, q)))):
            o = outcome(p.exists)
            check(o[0] == 'ok', 'exists of %r raised %r', q, o[1])
            check_eq(o[1], q in there, 'exists of %r' % q)
            check_eq(p.zip_path, None, 'zip_path of %r' % q)
            ctx.trans()
            ctx.state(q)
            ctx.evaluation(q)
    with ZipPath(root, 'plain').open() as f:
        check_eq(f.read(), 'plain text', 'a file that is not in a zip')
    ctx.trace()
