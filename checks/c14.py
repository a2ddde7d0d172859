"""C14: merging new metadata into cached metadata."""
import itertools
import os

from augpathlib import PathMeta
from mc.fakes import make, Server
from mc.harness import check, check_eq, unguarded
from mc.metas import FIELDS, VALUES, mismatch

ID = 'C14'
LEVEL = 'model_checking'
RULE = ('cases = every pair (thorough: triple) of fields and every base (other fields absent, only in the old, only in the '
        'new, in both); each with every combination of {absent, value, other value} of the chosen fields in the old and '
        'the new metadata; the merge is done on a real directory by constructing its cache with the new metadata, then '
        'done again (must change nothing) and read by a fresh object')
ASSUMPTIONS = ['directories, so that no data has to be fetched (C17 covers files)']
CHUNK = 2
CASE_LIMIT = 300
CONTENT = ('created', 'updated', 'size', 'checksum', 'file_id')
BASES = ('none', 'old', 'new', 'both')


def bounds(tier):
    return 'all %s of %d fields, 3 values each in old and new, 4 bases' % (
        'pairs' if tier == 'quick' else 'pairs and triples', len(FIELDS))


def cases(tier):
    for c in itertools.combinations(FIELDS, 2):
        for base in BASES:
            yield {'fields': list(c), 'base': base}
    if tier == 'thorough':
        for c in itertools.combinations(FIELDS, 3):
            for base in ('none', 'both'):
                yield {'fields': list(c), 'base': base}


def empty(v):
    return v is None or v == ()


def truth(d):
    return any(not empty(v) for v in d.values())


def model(old, new):
    """(content changed, merged)"""
    if not truth(old):
        return False, dict(new)
    if not truth(new):
        return False, dict(old)
    changed = any(old.get(k) is not None and new.get(k) is not None and old[k] != new[k] for k in CONTENT)
    out = {}
    for k in FIELDS:
        if not empty(new.get(k)):
            out[k] = new[k]
        elif k == 'old_id':
            if new.get('id') is not None and old.get('id') != new['id']:
                out[k] = old.get('id')
            else:
                out[k] = old.get(k)
        elif not changed:
            out[k] = old.get(k)
    return changed, {k: v for k, v in out.items() if not empty(v)}


def setup_worker(ctx):
    ctx.L, ctx.C, ctx.R, ctx.holder = make(Server())


def one(ctx, d, old, new):
    C, L = ctx.C, ctx.L
    with unguarded():
        os.mkdir(d)
    if truth(old):
        C(d, meta=PathMeta(**old))
        check_eq(mismatch(C(d).meta, old), {}, 'metadata of %r read back' % (old,))
    changed, want = model(old, new)
    if hasattr(C, '_update_meta'):
        flag = C._update_meta(PathMeta(**old), PathMeta(**new))[0]
        check_eq(bool(flag), changed, 'merging %r into %r: reported as different content' % (new, old))
    if truth(new):
        C(d, meta=PathMeta(**new))
    if truth(want):
        check_eq(mismatch(C(d).meta, want), {}, 'merging %r into %r: fields (got, expected)' % (new, old))
        ctx.state(sorted(want.items(), key=repr))
        ctx.trans()
        if truth(new) and empty(new.get('errors')) is not None:
            again = model(want, new)[1]
            C(d, meta=PathMeta(**new))
            check_eq(mismatch(C(d).meta, again), {}, 'merging %r into %r twice: fields (got, expected)' % (new, old))
            ctx.trans()
    with unguarded():
        os.rmdir(d)


def run(ctx, case):
    root = ctx.fresh()
    fields = case['fields']
    base = {k: VALUES[k][0] for k in FIELDS if k not in fields}
    ob = base if case['base'] in ('old', 'both') else {}
    nb = base if case['base'] in ('new', 'both') else {}
    opts = [[None, VALUES[k][0], VALUES[k][1]] for k in fields]
    n = 0
    for o in itertools.product(*opts):
        # absent, the same, another
        for w in itertools.product(*opts):
            old = {k: v for k, v in dict(ob, **dict(zip(fields, o))).items() if v is not None}
            new = {k: v for k, v in dict(nb, **dict(zip(fields, w))).items() if v is not None}
            n += 1
            one(ctx, os.path.join(root, 'd%d' % n), old, new)
    ctx.trace()
