"""C11: PathMeta is a value: equality, mapping access, truth, copies."""
import copy
import itertools
import pickle

from augpathlib import PathMeta
from mc.harness import check, check_eq, outcome
from mc.metas import FIELDS, VALUES, T1, mismatch

ID = 'C11'
LEVEL = 'model_checking'
RULE = ('cases = every pair of fields; for each pair every combination of values, timestamps given as datetime or as '
        'text, and every order of first accesses; the resulting objects are compared pairwise with each other')
ASSUMPTIONS = []
CHUNK = 4
CASE_LIMIT = 240


def bounds(tier):
    return 'all pairs%s of %d fields, 2-3 values each' % (' and triples' if tier == 'thorough' else '', len(FIELDS))


def cases(tier):
    for a, b in itertools.combinations(FIELDS, 2):
        yield {'fields': [a, b]}
    if tier == 'thorough':
        for c in itertools.combinations(FIELDS, 3):
            yield {'fields': list(c)}
    yield {'fields': list(FIELDS), 'few': True}
    yield {'unknown': True}
    yield {'empty': True}


def text(v):
    return v.isoformat()


def variants(d):
    """the same metadata built in different ways, with different histories"""
    yield 'plain', PathMeta(**d)
    times = [k for k in ('created', 'updated') if d.get(k) is not None]
    for n in range(1, len(times) + 1):
        for ks in itertools.combinations(times, n):
            m = PathMeta(**dict(d, **{k: text(d[k]) for k in ks}))
            yield 'text %s' % (ks,), m
            m = PathMeta(**dict(d, **{k: text(d[k]) for k in ks}))
            for k in ks:
                getattr(m, k)
            yield 'text %s read' % (ks,), m
    m = PathMeta(**d)
    if not m:
        bool(m)
    list(m.items())
    yield 'items', m
    yield 'copy', copy.copy(PathMeta(**d))
    yield 'deepcopy', copy.deepcopy(PathMeta(**d))
    for p in range(0, pickle.HIGHEST_PROTOCOL + 1):
        yield 'pickle %d' % p, pickle.loads(pickle.dumps(PathMeta(**d), p))
    yield 'mapping', PathMeta(**PathMeta(**d))
    yield 'dict', PathMeta(**dict(PathMeta(**d).items()))


def unknown(ctx):
    """fields that PathMeta does not know are part of the value"""
    ms = []
    for known in ({}, {'size': 1}, {'name': 'n', 'updated': T1}):
        for extra in ({}, {'foo': 1}, {'foo': 2}, {'bar': 1}, {'foo': 1, 'bar': 1}, {'foo': None}):
            d = dict(known, **extra)
            group = [('plain', PathMeta(**d)), ('again', PathMeta(**d)), ('copy', copy.copy(PathMeta(**d))),
                     ('deepcopy', copy.deepcopy(PathMeta(**d)))]
            for p in range(0, pickle.HIGHEST_PROTOCOL + 1):
                group.append(('pickle %d' % p, pickle.loads(pickle.dumps(PathMeta(**d), p))))
                group.append(('pickle %d twice' % p, pickle.loads(pickle.dumps(group[-1][1], p))))
            for h, m in group:
                check_eq(mismatch(m, known), {}, 'PathMeta(%r) %s: fields' % (d, h))
                ms.append((d, h, m))
            ctx.state(sorted(d))
    for (d1, h1, m1), (d2, h2, m2) in itertools.product(ms, repeat=2):
        ctx.trans()
        same = d1 == d2
        check((m1 == m2) is same and (m1 != m2) is (not same), '%r (%s) and %r (%s) compare %s', d1, h1, d2, h2,
              'different' if same else 'equal')
    ctx.trace()


def empty(ctx):
    """a value that is empty is a value"""
    texts = ('name', 'checksum_cypher', 'parent_id', 'id', 'old_id', 'user_id', 'mode')
    alls = []
    for n in range(0, 3):
        for fs in itertools.combinations(texts, n):
            for rest in ({}, {'size': 0}, {'checksum': b''}, {'file_id': 1, 'updated': T1}):
                d = dict({f: '' for f in fs}, **rest)
                for how, m in variants(d):
                    laws(ctx, d, how, m)
                    alls.append((d, m))
                ctx.state(sorted(d))
    for d1, m1 in alls[::3]:
        for d2, m2 in alls[::5]:
            ctx.trans()
            check((m1 == m2) is (d1 == d2), '%r and %r compare %s', d1, d2, m1 == m2)
    ctx.trace()


def run(ctx, case):
    if 'unknown' in case:
        return unknown(ctx)
    if 'empty' in case:
        return empty(ctx)
    fs = case['fields']
    dicts = []
    if case.get('few'):
        base = {f: VALUES[f][0] for f in FIELDS}
        dicts = [base] + [dict(base, **{f: VALUES[f][1]}) for f in FIELDS] + \
            [{k: v for k, v in base.items() if k != f} for f in FIELDS]
    else:
        dom = [(None,) + (VALUES[f][:3] if len(fs) < 3 else VALUES[f][:2]) for f in fs]
        for combo in itertools.product(*dom):
            dicts.append({f: v for f, v in zip(fs, combo) if v is not None})
    alls = []
    for d in dicts:
        group = []
        for how, m in variants(d):
            laws(ctx, d, how, m)
            group.append((how, m))
        ctx.state(sorted(d.items(), key=lambda kv: kv[0]))
        for (h1, m1), (h2, m2) in itertools.product(group, repeat=2):
            ctx.trans()
            check((m1 == m2) is True and (m1 != m2) is False, 'same metadata, not equal: %r (%s) and (%s)', d, h1, h2)
        alls.append((d, group[len(group) // 2][1], group[0][1], group[1][1]))
    for (d1, *ms1), (d2, *ms2) in itertools.combinations(alls, 2):
        if d1 == d2:
            continue
        for m1, m2 in itertools.product(ms1, ms2):
            ctx.trans()
            check((m1 == m2) is False and (m2 == m1) is False and (m1 != m2) is True,
                  'different metadata compares equal: %r %r', d1, d2)
    for other in (None, 1, {}, 'x'):
        m = alls[-1][1]
        check(not (m == other) and m != other, 'equal to %r', other)
    ctx.trace()


def laws(ctx, d, how, m):
    ctx.trans()
    what = 'PathMeta(%r) %s' % (d, how)
    check_eq(mismatch(m, d), {}, what + ': fields')
    items = dict(m.items())
    check_eq(set(items), set(FIELDS), what + ': keys of items')
    check_eq(set(m.keys()), set(FIELDS), what + ': keys')
    check_eq(set(m), set(FIELDS), what + ': iteration')
    for k in FIELDS:
        check_eq(m[k], getattr(m, k), what + ': [%r]' % k)
        check_eq(items[k], getattr(m, k), what + ': items %r' % k)
    for k in ('nope', '', 'Name'):
        o = outcome(lambda: m[k])
        check(o[0] == 'raise' and isinstance(o[1], KeyError), '%s: [%r] gave %r', what, k, o[1])
    check_eq(bool(m), any(v is not None and v != () for v in d.values()), what + ': truth')
