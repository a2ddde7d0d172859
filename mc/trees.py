"""Exhaustive enumeration of small file trees up to isomorphism of names."""
import functools


@functools.lru_cache(None)
def trees(n, leafs):
    """all trees with exactly n nodes: leaf kinds (n==1) or ('D', forest)"""
    out = []
    if n == 1:
        out += list(leafs)
    for f in forests(n - 1, leafs):
        out.append(('D', f))
    return out


@functools.lru_cache(None)
def forests(n, leafs):
    """all multisets of trees with n nodes in total (canonical order)"""
    if n == 0:
        return [()]
    out = []

    def rec(rem, maxkey, acc):
        if rem == 0:
            out.append(tuple(acc))
            return
        for size in range(rem, 0, -1):
            for i, t in enumerate(trees(size, leafs)):
                k = (size, i)
                if maxkey is not None and k > maxkey:
                    continue
                rec(rem - size, k, acc + [t])

    rec(n, None, [])
    return out


def to_spec(forest, leafnode, names='abcdefgh'):
    """forest -> {name: fsx node}; leafnode(kind) -> fsx node"""
    spec = {}
    for name, t in zip(names, forest):
        if isinstance(t, (tuple, list)):
            spec[name] = ('d', to_spec(t[1], leafnode, names))
        else:
            spec[name] = leafnode(t)
    return spec


def flatten(spec, prefix=''):
    for k, v in spec.items():
        yield prefix + k, v
        if v[0] == 'd':
            yield from flatten(v[1] if len(v) > 1 else {}, prefix + k + '/')


def detuple(x):
    return [detuple(i) for i in x] if isinstance(x, tuple) else x
