"""C08: reading arbitrary byte ranges of a file gives exactly those bytes,
whatever the chunk size."""
import itertools

import augpathlib as aug
from mc.harness import check, check_eq, outcome

ID = 'C08'
LEVEL = 'model_checking'
RULE = ('cases = every (file size, chunk size); each is read with every single range, every pair (thorough: triple) of '
        'ranges out of the boundary set, no range, and through .data with that chunk size')
ASSUMPTIONS = ['ranges are (start, end) with 0 <= start <= end, (start, None) to the end, (-n, None) for the last n bytes']
CHUNK = 1
CASE_LIMIT = 240


def sizes(tier):
    return range(0, 8) if tier == 'quick' else range(0, 11)


def bounds(tier):
    return 'file sizes 0..%d, chunk sizes 1..%d, all ranges up to size+2, all %s of ranges' % (
        max(sizes(tier)), max(sizes(tier)) + 1, 'pairs' if tier == 'quick' else 'pairs, triples of boundary ranges')


def cases(tier):
    for n in sizes(tier):
        for c in range(1, max(sizes(tier)) + 2):
            yield {'size': n, 'chunk': c, 'tier': tier}
    for n in (4095, 4096, 4097, 8192, 8193):
        for c in (None, 4095, 4096, 4097):
            yield {'size': n, 'chunk': c, 'tier': tier, 'big': True}


def run(ctx, case):
    ctx.fresh()
    n, c = case['size'], case['chunk']
    data = bytes((i * 37 + i // 256) % 256 for i in range(n))
    with open('f', 'wb') as f:
        f.write(data)
    p = aug.LocalPath('f')

    def expect(r):
        s, e = r
        return data[s:] if e is None else data[s:e]

    if case.get('big'):
        k = c or 4096
        marks = sorted({0, 1, k - 1, k, k + 1, 2 * k, n - 1, n, n + 5})
        rs = [(a, b) for a in marks for b in marks if a <= b] + [(a, None) for a in marks] + [(-1, None), (-n, None), (-k if k <= n else -1, None)]
        groups = [(r,) for r in rs]
    else:
        rs = [(a, b) for a in range(n + 2) for b in range(a, n + 3)] + [(a, None) for a in range(n + 2)]
        rs += [(-a, None) for a in range(1, n + 1)]
        groups = [(r,) for r in rs]
        small = rs if case['tier'] == 'thorough' and n < 7 else [r for r in rs if r[0] in (0, 1, c, n - 1, n) or r[1] is None]
        groups += list(itertools.product(small, repeat=2))
        if case['tier'] == 'thorough' and n < 8:
            few = [r for r in rs if r in ((0, c), (c, 2 * c), (0, n), (0, None), (n - 1, n), (1, c + 1), (0, 0), (-1, None))]
            groups += list(itertools.product(few, repeat=3))
    kw = {} if c is None else {'chunksize': c}

    def read(**k):
        out = []
        for ch in p._data(**k):
            check(len(ch) <= (c or 4096), 'chunk of %d bytes with chunk size %s', len(ch), c)
            out.append(ch)
        return b''.join(out)

    for g in groups:
        o = outcome(read, ranges=g, **kw)
        ctx.trans()
        want = b''.join(map(expect, g))
        check(o[0] == 'ok', 'ranges %r of %d bytes, chunk size %s: %r', g, n, c, o[1])
        check(o[1] == want, 'ranges %r of %d bytes, chunk size %s: got %r expected %r', g, n, c, o[1][:50], want[:50])
    check_eq(outcome(read, **kw), ('ok', data), 'no ranges, chunk size %s' % c)
    if c is not None:
        class P(aug.LocalPath):
            chunksize = c
        P._bind_flavours()
        got = list(P('f').data)
        check_eq(b''.join(got), data, 'data with chunk size %d' % c)
        check(all(0 < len(x) <= c for x in got), 'data with chunk size %d: chunks of %r', c, [len(x) for x in got][:9])
    ctx.state((n, c))
    ctx.trace()
