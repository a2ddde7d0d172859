"""C13: metadata stored in the target of a symlink comes back unchanged, or is
refused when it is written."""
import itertools
import os

import augpathlib as aug
from augpathlib import PathMeta, exceptions as exc
from datetime import datetime, timezone
from mc.harness import check, check_eq, outcome, unguarded
from mc.metas import FIELDS, VALUES, T1, T2, mismatch

ID = 'C13'
LEVEL = 'model_checking'
RULE = ('cases = (a) for every text field, blocks of all strings up to the length bound over an alphabet of the '
        'separators and escapes of the format, (b) all field sets of size <= 3 and their complements with all value '
        'combinations, (c) local names, (d) hand written links of every format version, with every single field set; '
        'each is encoded, stored in a real symlink, read back and compared')
ASSUMPTIONS = ['a user id that is the text of a number comes back as a number', 'file_id 0 means no file id']
CHUNK = 4
CASE_LIMIT = 200
ALPHA = ('a', '.', '/', '|', '!', '#', ';', '-', ' ', '0', 'é', ',', ':', '\n')
TEXT = ('id', 'name', 'old_id', 'parent_id', 'user_id', 'mode', 'checksum_cypher', 'errors')


def bounds(tier):
    n = 2 if tier == 'quick' else 3
    return 'strings of length <= %d (+1 for id, name, errors) over %d characters' % (n, len(ALPHA))


def cases(tier):
    n = 2 if tier == 'quick' else 3
    for f in TEXT:
        k = n + (f in ('id', 'name', 'errors'))
        yield {'field': f, 'first': '', 'n': 1}
        for a in ALPHA:
            for b in ALPHA:
                yield {'field': f, 'first': a + b, 'n': k - 2}
    for n in range(0, 4):
        for c in itertools.combinations([f for f in FIELDS if f != 'id'], n):
            yield {'set': list(c) + ['id']}
            yield {'set': [f for f in FIELDS if f not in c]}
    yield {'names': True}
    for v in ('meta', 'mdv1', 'mdv2', 'mdv3', 'mdv4', 'mdv5', 'mdv6'):
        yield {'version': v}
    yield {'ints': True}
    yield {'foreign': True}


def run(ctx, case):
    ctx.fresh()
    if 'field' in case:
        f = case['field']
        for n in range(0, case['n'] + 1):
            for t in itertools.product(ALPHA, repeat=n):
                s = case['first'] + ''.join(t)
                if f == 'errors':
                    text(ctx, f, (s,), s)
                    text(ctx, f, ('x', s), s)
                else:
                    text(ctx, f, s, s)
    elif 'set' in case:
        fs = case['set']
        dom = [VALUES[x] for x in fs]
        if len(fs) > 3:
            combos = [tuple(v[i % len(v)] for v in dom) for i in range(5)]
        else:
            combos = itertools.product(*dom)
        for combo in combos:
            roundtrip(ctx, dict(zip(fs, combo)), 'n.txt')
    elif 'names' in case:
        names(ctx)
    elif 'ints' in case:
        ints(ctx)
    elif 'foreign' in case:
        foreign(ctx)
    else:
        version(ctx, case['version'])
    ctx.trace()


def expected(d):
    e = dict(d)
    u = e.get('user_id')
    if isinstance(u, str):
        try:
            e['user_id'] = int(u)
        except ValueError:
            pass
    if e.get('file_id') == 0:
        e['file_id'] = None
    return e


def text(ctx, f, value, s):
    d = {'id': 'ID', f: value}
    harmless = s and not set(s) & set('|!;#') and not (f == 'name' and '/' in s)
    o = roundtrip(ctx, d, 'n.txt')
    if o[0] == 'raise':
        check(not harmless, 'field %s refused harmless %r: %r', f, s, o[1])


def roundtrip(ctx, d, local):
    ctx.trans()
    ctx.evaluation()
    m = PathMeta(**d)
    what = 'meta %r in link %r' % (d, local)
    o = outcome(m.as_symlink, local_name=local)
    ctx.state(tuple(sorted(d.items(), key=lambda kv: kv[0])) + (local,))
    if o[0] == 'raise':
        check(isinstance(o[1], (ValueError, TypeError, exc.AugPathlibError)), '%s: %r', what, o[1])
        # the other spelling has to refuse it as well
        check(outcome(m.as_symlink)[0] == 'raise', '%s: refused only with a local name', what)
        return o
    want = expected(d)
    for prefix in (local, None):
        target = m.as_symlink(local_name=prefix)
        check(not target.is_absolute(), '%s: absolute target %r', what, str(target))
        p = aug.AugmentedPath(local)
        os.symlink(str(target), local)
        check_eq(os.readlink(local), str(target), 'stored link')
        if prefix:
            check(p.is_broken_symlink(), '%s: the link leads somewhere', what)
        r = outcome(PathMeta.from_symlink, p, match_name=bool(prefix))
        os.unlink(local)
        check(r[0] == 'ok', '%s: written but unreadable: %r', what, r[1])
        check_eq(mismatch(r[1], want), {}, what)
    return o


def foreign(ctx):
    """links that somebody else made are not metadata, however much they look like it"""
    rest = '.'.join(PathMeta(id='I', size=1).as_symlink().name.split('.')[2:])
    good = PathMeta(id='I', size=1).as_symlink().name.split('.')[1]
    lasts = ['f', '.f', 'f.txt', 'meta', 'mdv6', good, good + '.txt', '', 'x', '.', '..']
    lasts += ['.%s.%s' % (v, rest) for v in ('', 'm', 'md', 'mdv', 'mdvx', 'xyz6', 'mdx6', 'mdv6x', 'xmdv6', 'Meta', 'MDV6', 'metadata',
                                             'meta1', 'mdv-6', 'mdv 6', 'v6', '6', 'tar', 'mdv6-')]
    for head in ('', 'n.txt/', 'I/', 'n.txt/I/', 'other/I/', 'a/b/c/', '/n.txt/', '../'):
        for last in lasts:
            t = head + last
            if not t:
                continue
            os.symlink(t, 'n.txt')
            try:
                if os.path.exists('n.txt'):
                    continue
                for match in (True, False):
                    r = outcome(PathMeta.from_symlink, aug.AugmentedPath('n.txt'), match_name=match)
                    ctx.trans()
                    check(r[0] == 'raise' and isinstance(r[1], exc.NoCachedMetadataError),
                          'foreign link to %r read as metadata: %r', t, r[1])
                ctx.state(('foreign', t))
                ctx.evaluation(('foreign', t))
            finally:
                os.unlink('n.txt')
    # a file name alone is no metadata either
    for t in ('.%s.%s' % (good, rest), good):
        os.symlink(t, 'n.txt')
        r = outcome(PathMeta.from_symlink, aug.AugmentedPath('n.txt'))
        os.unlink('n.txt')
        check(r[0] == 'raise' and isinstance(r[1], exc.NoCachedMetadataError), 'link to %r: %r', t, r[1])


def names(ctx):
    ns = ('a', 'a.b', '.h', 'x y', 'é', '#', '!', 'a|b', '.meta', 'mdv6', '-', 'a.mdv6.b', 'n\n')
    for a in ns:
        d = {'id': 'I/x.y', 'name': 'n.m', 'size': 3}
        o = roundtrip(ctx, d, a)
        check(o[0] == 'ok', 'local name %r: %r', a, o[1])
        for b in ns:
            os.symlink(str(PathMeta(**d).as_symlink(local_name=a)), b)
            r = outcome(PathMeta.from_symlink, aug.AugmentedPath(b))
            r2 = outcome(PathMeta.from_symlink, aug.AugmentedPath(b), match_name=False)
            os.unlink(b)
            ctx.trans()
            check(r2[0] == 'ok' and not mismatch(r2[1], d), 'link %r with metadata for %r, any name: %r', b, a, r2[1])
            if a == b:
                check(r[0] == 'ok', 'link %r: %r', b, r[1])
            else:
                check(r[0] == 'raise' and isinstance(r[1], exc.CircularSymlinkNameError),
                      'link %r with metadata for %r: %r', b, a, r[1])


def ints(ctx):
    """numbers: everything that is accepted must come back"""
    for f in ('file_id', 'chunksize', 'multi', 'gid', 'user_id', 'size'):
        for v in (0, 1, -1, 10 ** 20, True):
            if f != 'multi' and v is True:
                continue
            o = roundtrip(ctx, {'id': 'I', f: v}, 'n')
            check(o[0] == 'ok' or v is True, '%s=%r refused: %r', f, v, o[1])
    for f in ('file_id', 'chunksize', 'multi', 'gid'):
        for v in ('x', '1.5', '', ' '):
            if f == 'file_id' and v == '':
                continue
            o = outcome(lambda: PathMeta(id='I', **{f: v}).as_symlink(local_name='n'))
            check(o[0] == 'raise', '%s=%r written but it cannot be read: %r', f, v, o[1])
            ctx.trans()


C = '2020-01-02T03:04:05,678901Z'
U = '2021-06-07T08:09:10Z'
# field -> (text in the link, value), the same in every version that has the field
PLAIN = {'file_id': ('12', 12), 'size': ('10', 10), 'created': (C, T1), 'updated': (U, T2),
         'checksum': ('0102', b'\1\2'), 'checksum_cypher': ('sha256', 'sha256'), 'etag': ('0a0b-3', (b'\x0a\x0b', 3)),
         'chunksize': ('4096', 4096), 'multi': ('1', 1), 'parent_id': ('N:p:1', 'N:p:1'), 'old_id': ('N:o:1', 'N:o:1'),
         'gid': ('5', 5), 'user_id': ('7', 7), 'mode': ('0o644', '0o644'), 'name': ('nm', 'nm'),
         'errors': ('a;b', ('a', 'b'))}
ORDER = {
    'meta': 'file_id size created updated checksum old_id gid user_id mode errors',
    'mdv1': 'file_id size created updated checksum chunksize old_id gid user_id mode errors',
    'mdv2': 'file_id size created updated checksum etag chunksize old_id gid user_id mode errors',
    'mdv3': 'file_id size created updated checksum etag chunksize parent_id old_id gid user_id mode name errors',
    'mdv4': 'file_id size created updated checksum checksum_cypher etag chunksize parent_id old_id gid user_id mode '
            'name errors',
    'mdv6': 'file_id size created updated checksum checksum_cypher etag chunksize multi parent_id old_id gid user_id '
            'mode name errors'}
ORDER['mdv5'] = ORDER['mdv4']


def version(ctx, v):
    order = ORDER[v].split()
    escaped = v in ('mdv5', 'mdv6')
    sets = [()] + [tuple(order)] + [(f,) for f in order] + list(itertools.combinations(order, 2)) + \
        [tuple(x for x in order if x != f) for f in order]
    for fs in sets:
        vals = dict(PLAIN)
        check_link(ctx, v, order, fs, vals, 'N:package:1', 'N:package:1')
        if escaped:
            for f in ('parent_id', 'old_id', 'mode', 'user_id'):
                vals[f] = ('a!b|c', 'a.b/c')
            vals['name'] = ('a!b', 'a.b')
            check_link(ctx, v, order, fs, vals, 'h:|p|f!txt', 'h:/p/f.txt')
        else:
            for f in ('parent_id', 'old_id'):
                vals[f] = ('a|c', 'a/c')
            check_link(ctx, v, order, fs, vals, 'h:|p|f', 'h:/p/f')
            # nothing was escaped that way then
            for f in ('parent_id', 'old_id', 'name', 'mode', 'user_id', 'errors'):
                vals[f] = ('a!c', ('a!c',) if f == 'errors' else 'a!c')
            check_link(ctx, v, order, fs, vals, 'h:p!f', 'h:p!f')


def check_link(ctx, v, order, fs, vals, ltext, lid):
    parts = [vals[f][0] if f in fs else '#' for f in order] + ['10']
    target = 'n.txt/%s/.%s.%s' % (ltext, v, '.'.join(parts))
    os.symlink(target, 'n.txt')
    r = outcome(PathMeta.from_symlink, aug.AugmentedPath('n.txt'))
    os.unlink('n.txt')
    ctx.trans()
    check(r[0] == 'ok', 'link %r: %r', target, r[1])
    want = {f: vals[f][1] for f in fs}
    want['id'] = lid
    check_eq(mismatch(r[1], want), {}, 'link %r' % target)
    ctx.state((v, fs, lid))
