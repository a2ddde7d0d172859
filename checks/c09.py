"""C09: checksums and etags depend on the bytes only, not on how they arrive."""
import hashlib
import itertools

import augpathlib as aug
from augpathlib.utils import etag
from mc.harness import check, check_eq, outcome

ID = 'C09'
LEVEL = 'model_checking'
RULE = ('cases = every (data length, etag chunk size); each is fed in every composition of the data into update calls, '
        'with empty updates and with digest called early at every subset of the positions, and through files read '
        'with every reader chunk size')
ASSUMPTIONS = ['hashlib is right']
CHUNK = 1
CASE_LIMIT = 240


def top(tier):
    return 9 if tier == 'quick' else 11


def bounds(tier):
    return 'all compositions of <= %d bytes, chunk sizes 1..%d, all subsets of early digests' % (top(tier), top(tier) + 1)


def cases(tier):
    for n in range(top(tier) + 1):
        for c in range(1, top(tier) + 2):
            yield {'n': n, 'c': c}
    for n in (0, 1, 4095, 4096, 4097, 8191, 8192, 8193, 12288):
        for c in (1, 100, 4095, 4096, 4097, 8192):
            for r in (7, 4095, 4096, 4097, 1 << 20):
                if n // c * n // r < 1 << 22:
                    yield {'n': n, 'c': c, 'file': r}


def model(data, c):
    parts = [hashlib.md5(data[i:i + c]).digest() for i in range(0, len(data), c)]
    return hashlib.md5(b''.join(parts)).digest(), len(parts)


def compositions(n):
    for bits in range(1 << max(0, n - 1)):
        out, cur = [], 1
        if n == 0:
            return (yield [])
        for i in range(n - 1):
            if bits >> i & 1:
                out.append(cur)
                cur = 1
            else:
                cur += 1
        yield out + [cur]


def run(ctx, case):
    ctx.fresh()
    n, c = case['n'], case['c']
    data = bytes((i * 37 + i // 256) % 256 for i in range(n))
    want = model(data, c)
    if 'file' in case:
        return files(ctx, data, c, case['file'], want)
    for comp in compositions(n):
        cuts = [0] + list(itertools.accumulate(comp))
        # subsets of positions after which the digest is asked early
        npos = len(comp)
        masks = range(1 << npos) if npos <= 5 else [0, (1 << npos) - 1] + [1 << i for i in range(npos)]
        for mask in masks:
            e = etag(c)
            if mask == (1 << npos) - 1:
                check_eq(e.digest(), model(b'', c), 'digest before any data')
                e.update(b'')
            for i, k in enumerate(comp):
                e.update(data[cuts[i]:cuts[i + 1]])
                ctx.trans()
                if mask >> i & 1:
                    got = e.digest()
                    check_eq(got, model(data[:cuts[i + 1]], c),
                             'early digest, chunk size %d, updates %r' % (c, comp[:i + 1]))
                    e.update(b'')
            what = 'etag chunk size %d, updates %r, early digests %s' % (c, comp, bin(mask))
            check_eq(e.digest(), want, what)
            check_eq(e.digest(), want, what + ' second digest')
            check_eq(e.hexdigest(), want[0].hex() + '-%d' % want[1], what + ' hexdigest')
    for bad in (0, -1):
        o = outcome(lambda: etag(bad).update(b'x' * 3))
        check(o[0] == 'raise', 'chunk size %d accepted', bad)
    files(ctx, data, c, c, want)
    files(ctx, data, c, max(1, n - 1), want)
    files(ctx, data, c, n + 1, want)


def files(ctx, data, c, reader, want):
    with open('f', 'wb') as f:
        f.write(data)

    class P(aug.LocalPath):
        chunksize = reader
    P._bind_flavours()
    p = P('f')
    what = '%d bytes, etag chunk %d, reader chunk %d' % (len(data), c, reader)
    check_eq(p.etag(c), want, 'file etag ' + what)
    for cy in (hashlib.blake2b, hashlib.sha256, hashlib.md5):
        check_eq(p.checksum(cy), cy(data).digest(), 'checksum %s ' % cy.__name__ + what)
        check_eq(p.checksum(cy, extra_cyphers=(hashlib.sha1, hashlib.sha256)),
                 (cy(data).digest(), hashlib.sha1(data).digest(), hashlib.sha256(data).digest()),
                 'checksum with extra cyphers ' + what)
    check_eq(p.checksum(), hashlib.blake2b(data).digest(), 'default checksum ' + what)

    class Q(P):
        class _cache_class:
            cypher = hashlib.sha256
    Q._bind_flavours()
    q = Q('f')
    check_eq((q.checksum(), q.checksum(hashlib.md5)), (hashlib.sha256(data).digest(), hashlib.md5(data).digest()),
             'checksum with the cypher of the cache class ' + what)
    d = P('.')
    check_eq((d.checksum(), d.etag(c)), (None, None), 'checksum of a directory')
    ctx.trans(5)
    ctx.trace()
    ctx.state((len(data), c, reader))
