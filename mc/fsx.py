"""Small file system helpers: build a tree from a spec, snapshot a tree."""
import os
import stat


def build(root, spec):
    """spec: dict name -> node; node:
       ('f', bytes|str) file, ('d', {...}) directory, ('l', target) symlink,
       ('p',) fifo, None absent"""
    for name, node in spec.items():
        put(os.path.join(root, name), node)


def put(p, node):
    if node is None:
        return
    t = node[0]
    if t == 'f':
        data = node[1]
        with open(p, 'wb') as f:
            f.write(data.encode() if isinstance(data, str) else data)
    elif t == 'd':
        os.mkdir(p)
        build(p, node[1] if len(node) > 1 else {})
    elif t == 'l':
        os.symlink(node[1].replace('{ROOT}', os.getcwd()), p)
    elif t == 'p':
        os.mkfifo(p)
    else:
        raise AssertionError(node)


def node_of(p, xattrs=False, ino=False):
    st = os.lstat(p)
    extra = ()
    if ino:
        extra = (st.st_ino,)
    if stat.S_ISLNK(st.st_mode):
        return ('l', os.readlink(p)) + extra
    if stat.S_ISDIR(st.st_mode):
        return ('d',) + extra
    if stat.S_ISREG(st.st_mode):
        try:
            with open(p, 'rb') as f:
                b = f.read()
        except PermissionError:
            b = ('unreadable', st.st_size, st.st_mtime_ns)
        r = ('f', b) + extra
        if xattrs:
            r += (tuple(sorted((k, os.getxattr(p, k)) for k in os.listxattr(p))),)
        return r
    if stat.S_ISFIFO(st.st_mode):
        return ('p',) + extra
    return ('?', stat.S_IFMT(st.st_mode)) + extra


def snapshot(root, xattrs=False, ino=False):
    """{relative path: node} of everything below root (root itself excluded)"""
    out = {}

    def rec(d, rel):
        for n in sorted(os.listdir(d)):
            p = os.path.join(d, n)
            r = rel + n
            node = node_of(p, xattrs, ino)
            out[r] = node
            if node[0] == 'd':
                if xattrs:
                    out[r] = node + (tuple(sorted((k, os.getxattr(p, k))
                                                  for k in os.listxattr(p))),)
                rec(p, r + '/')

    rec(root, '')
    return out


def diff(a, b):
    ks = sorted(set(a) | set(b))
    return {k: (a.get(k), b.get(k)) for k in ks if a.get(k) != b.get(k)}
