"""An in-memory remote and the classes that bind it to local files.

make(server) returns a fresh, unshared triple of classes, so that anchors and
class level state of one case never reach the next one."""
import hashlib
import os
import pathlib
from datetime import datetime, timezone, timedelta

import augpathlib as aug
from augpathlib import PathMeta, LocalPath, PrimaryCache, EatCache, SymlinkCache, RemotePath
from augpathlib import exceptions as exc
from augpathlib.utils import fs_safe_id

T0 = datetime(2020, 1, 1, tzinfo=timezone.utc)


def when(n):
    return T0 + timedelta(days=n)


class Node:
    """one object of the remote"""

    def __init__(self, id, name, parent, kind, data=b'', version=1, **extra):
        self.id, self.name, self.parent, self.kind = id, name, parent, kind
        self.data, self.version, self.extra = data, version, dict(extra)

    def meta(self):
        d = dict(id=self.id, name=self.name, created=when(0), updated=when(self.version))
        if self.parent is not None:
            d['parent_id'] = self.parent
        if self.kind == 'file':
            cypher = self.extra.get('checksum_cypher') or 'sha256'
            d.update(size=len(self.data), checksum=hashlib.new(cypher, self.data).digest(),
                     checksum_cypher=cypher, file_id=self.version)
        d.update(self.extra)
        return PathMeta(**{k: v for k, v in d.items() if v is not None})


class Server:
    """{id: Node}; calls counts what the client asked for; fail(n) makes data
    of an id fail after n bytes"""

    def __init__(self, nodes=()):
        self.nodes = {n.id: n for n in nodes}
        self.fail = {}
        self.served = []

    def add(self, *a, **k):
        n = Node(*a, **k)
        self.nodes[n.id] = n
        return n

    def kids(self, id):
        return sorted((n for n in self.nodes.values() if n.parent == id), key=lambda n: n.id)

    def path(self, id):
        n = self.nodes[id]
        return () if n.parent is None else self.path(n.parent) + (n.name,)

    def read(self, id, chunk):
        n = self.nodes.get(id)
        if n is None:
            raise exc.NoRemoteFileWithThatIdError(id)
        stop = self.fail.get(id)
        done = 0
        self.served.append(id)
        while True:
            if stop is not None and done >= stop:
                raise ConnectionError('remote hung up after %d bytes' % done)
            c = n.data[done:done + chunk]
            if not c:
                return
            done += len(c)
            yield c


def make(server, root_id='R', chunk=4, sparse_include=None):
    class L(LocalPath):
        @property
        def cache_id(self):
            c = self.cache
            return None if c is None else c.id

    L._bind_flavours()

    class C(PrimaryCache, EatCache):
        xattr_prefix = 'vp'
        _not_exists_cache = SymlinkCache
        cypher = hashlib.sha256

        @property
        def anchor(self):
            return getattr(type(self)._holder, 'anchor_cache', None)

        @property
        def trash(self):
            return self.local_data_dir / 'trash'

        @property
        def cache_key(self):
            return fs_safe_id(self.id)[:200]

        def _meta_is_root(self, meta):
            return meta.id == root_id

        def _sparse_include(self):
            if sparse_include is None:
                return True
            return sparse_include(self)

        @property
        def data(self):
            yield from self.remote.data

        @property
        def _trashed_path(self):
            pid = self.parent.id if self.parent != self else 'none'
            return self.trash / fs_safe_id('%s-%s-%s' % (pid, self.id, self.name))

    C._bind_flavours()

    class R(RemotePath):
        _chunk = chunk
        _server = server
        root = root_id

        @property
        def _node(self):
            try:
                return server.nodes[self.id]
            except KeyError:
                raise exc.NoRemoteFileWithThatIdError(self.id)

        def exists(self):
            return self.id in server.nodes

        def is_dir(self):
            return self._node.kind == 'dir'

        def is_file(self):
            return self._node.kind == 'file'

        @property
        def name(self):
            n = self._node
            return holder.root_name if n.parent is None else n.name

        @property
        def stem(self):
            return pathlib.PurePosixPath(self.name).stem

        @property
        def suffix(self):
            return pathlib.PurePosixPath(self.name).suffix

        @property
        def anchor(self):
            return type(self)(root_id)

        @property
        def parent(self):
            p = self._node.parent
            return None if p is None else type(self)(p)

        @property
        def parent_id(self):
            return self._node.parent

        @property
        def meta(self):
            return self._node.meta()

        @property
        def data(self):
            yield from server.read(self.id, chunk)

        @property
        def children(self):
            for n in server.kids(self.id):
                yield type(self)(n.id)

        def _rchildren(self, create_cache=True, sparse=False):
            for n in server.kids(self.id):
                c = type(self)(n.id)
                yield c
                yield from c._rchildren(create_cache=create_cache)

        def _mkdir_child(self, name):
            nid = '%s.%s' % (self.id, name)
            if any(k.name == name for k in server.kids(self.id)):
                raise exc.PathExistsError(name)
            server.add(nid, name, self.id, 'dir')
            return type(self)(nid)

        def refresh(self, update_cache=False, update_data=False, update_data_on_cache=False,
                    size_limit_mb=2, force=False):
            if self.id not in server.nodes:
                return None
            if update_cache:
                self.update_cache()
            if update_data or force:
                self.cache.fetch(size_limit_mb=size_limit_mb)
            return self.cache

    class holder:
        root_name = None
        anchor_cache = None

    C._holder = holder
    L._cache_class = C
    L._remote_class = R
    C._local_class = L
    C._remote_class = R
    R._cache_class = C
    R._local_class = L
    # a symlink cache asks for the local path to learn its name
    SymlinkCache._local_class = aug.AugmentedPath
    return L, C, R, holder


def anchor_here(L, C, R, holder, path, root_id='R'):
    """what a client does once: bind the root directory"""
    p = L(path)
    holder.root_name = p.name
    p.mkdir(exist_ok=True)
    if p.cache is None:
        p.cache_init(PathMeta(id=root_id)) if root_id not in R._server.nodes else p.cache_init(R._server.nodes[root_id].meta())
    cache = C(p)
    holder.anchor_cache = cache
    R._cache_anchor = cache
    cache.local_data_dir_init()
    return cache
