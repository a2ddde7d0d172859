"""C15: as_pretty and as_pretty_diff show every field exactly once; content_different."""
import itertools
import os
from datetime import datetime

from augpathlib import AugmentedPath, PathMeta
from augpathlib.utils import FileSize
from mc.harness import check, check_eq
from mc.metas import FIELDS, VALUES, T1, T2

ID = 'C15'
LEVEL = 'model_checking'
RULE = ('cases = every set of at most 2 (thorough: 3) fields of the one metadata; it is shown alone and in a diff against '
        'every set of at most 2 (3) fields of another metadata and their complements; the table is parsed and every cell '
        'compared; content_different is compared with its definition for every pair')
ASSUMPTIONS = ['values without line breaks or the column separator of the table']
CHUNK = 2
CASE_LIMIT = 300


def bounds(tier):
    n = 2 if tier == 'quick' else 3
    return 'all pairs of field sets of size <= %d or >= %d' % (n, len(FIELDS) - n)


def sets(n):
    for k in range(n + 1):
        for c in itertools.combinations(FIELDS, k):
            yield c
            if k < 2:
                yield tuple(f for f in FIELDS if f not in c)


def cases(tier):
    n = 2 if tier == 'quick' else 3
    for c in sets(n):
        yield {'fields': list(c)}


def parse(table):
    rows = []
    for line in table.splitlines():
        if line.startswith('|') and line.endswith('|'):
            cells = [c.strip() for c in line[1:-1].split(' | ')]
            rows.append(cells)
    return rows


def shown(k, v, text):
    """is text a faithful rendering of v"""
    if k == 'checksum':
        return text == v.hex()
    if k == 'etag':
        return text.startswith(v[0].hex()) and text.endswith(str(v[1]))
    if k in ('created', 'updated'):
        t = text.replace(',', '.').replace('Z', '+00:00')
        return datetime.fromisoformat(t) == v
    if k == 'errors':
        return all(e in text for e in v)
    return text == str(v)


def row_ok(what, k, v, text):
    check(shown(k, v, text), '%s: field %s=%r shown as %r', what, k, v, text)


def vals(fields, i):
    # sizes that look different for humans
    return {k: VALUES[k][i + 2 if k == 'size' else i] for k in fields}


def run(ctx, case):
    cwd = ctx.fresh()
    n = 2 if ctx.tier == 'quick' else 3
    f = case['fields']
    a = vals(f, 0)
    ma = PathMeta(**a)
    for i in range(2):
        d = vals(f, i)
        for title in (None, 'some title', ''):
            rows = parse(PathMeta(**d).as_pretty(title=title))
            got = [r[0] for r in rows[1:]]
            check_eq(sorted(got), sorted(f), 'fields listed by as_pretty of %r' % (d,))
            for k, text in rows[1:]:
                row_ok('as_pretty of %r' % (d,), k, d[k], text)
            ctx.trans()
        human = parse(PathMeta(**d).as_pretty(human=True))
        check_eq(sorted(r[0] for r in human[1:]), sorted(f), 'fields listed by as_pretty(human) of %r' % (d,))
        for k, text in human[1:]:
            if k == 'size':
                check_eq(text, str(FileSize(d[k]).hr), 'human size of %r' % d[k])
            else:
                row_ok('as_pretty(human)', k, d[k], text)
    for k in f:
        # what is empty is there
        if isinstance(d[k], str):
            for m in (PathMeta(**dict(d, **{k: ''})),):
                rows = parse(m.as_pretty())[1:]
                check_eq(sorted(r[0] for r in rows), sorted(f), 'fields listed with an empty %s' % k)
                check_eq([r[1] for r in rows if r[0] == k], [''], 'empty %s' % k)
                ctx.trans()
    for g in sets(2 if len(f) <= 2 or n == 2 else 1):
        for i in range(2):
            b = vals(g, i)
            mb = PathMeta(**b)
            rows = parse(ma.as_pretty_diff(mb, title='t'))[1:]
            what = 'as_pretty_diff of %r and %r' % (a, b)
            check_eq(sorted(r[0] for r in rows if r[0]), sorted(f), what + ': left fields')
            check_eq(sorted(r[2] for r in rows if r[2]), sorted(g), what + ': right fields')
            for k, v, k2, v2 in rows:
                check(not k or not k2 or k == k2, '%s: %r beside %r', what, k, k2)
                if k:
                    row_ok(what, k, a[k], v)
                if k2:
                    row_ok(what, k2, b[k2], v2)
            rows = parse(ma.as_pretty_diff(mb, title='t', human=True))[1:]
            sizes = [(v, v2) for k, v, k2, v2 in rows if 'size' in (k, k2)]
            want = [tuple(str(FileSize(x['size']).hr) if 'size' in x else '' for x in (a, b))] if 'size' in a or 'size' in b else []
            check_eq(sizes, want, 'human sizes in ' + what)
            # content_different
            if a.get('checksum') and b.get('checksum'):
                want = a['checksum'] != b['checksum']
            else:
                ta, tb = a.get('updated'), b.get('updated')
                want = a.get('size') != b.get('size') or (ta is not None and tb is not None and ta < tb)
            check_eq(bool(ma.content_different(mb)), want, 'content_different of %r and %r' % (a, b))
            ctx.trans()
            ctx.state((tuple(f), g, i))
    for spelled in ('d/x.txt', os.path.join(cwd, 'd/x.txt'), '/nowhere/x.txt', '../x.txt'):
        p = AugmentedPath(spelled)
        for t in (ma.as_pretty(pathobject=p), ma.as_pretty_diff(ma, pathobject=p), ma.as_pretty_diff(PathMeta(), pathobject=p)):
            check('x.txt' in t, 'the table of %r for %s does not name the file: %s', a, spelled, t)
            check_eq(sorted(r[0] for r in parse(t)[1:]), sorted(f), 'fields listed for %r, path %s' % (a, spelled))
    ctx.trace()
