"""An in memory remote with the classes that mirror it into a folder.

A Project is one set of bound classes with its own store of nodes.
"""

import hashlib
from datetime import datetime, timezone

from augpathlib import (RemotePath, PrimaryCache, EatCache, SymlinkCache, LocalPath,
                        PathMeta, exceptions as exc)

ROOT = 'N:root'
DATA_DIR = '.operations'


def ts(n):
    return datetime.fromtimestamp(1600000000 + n, tz=timezone.utc)


class Node:
    """ data is None for a folder """

    def __init__(self, id, name, parent, data=None, rev=1):
        self.id, self.name, self.parent, self.data, self.rev = id, name, parent, data, rev
        self.extra = {}  # fields that replace the true ones

    def __repr__(self):
        return f'Node({self.id}, {self.name}, {self.parent}, {self.data!r}, {self.rev})'


class Store:
    def __init__(self, root_name='proj', root=ROOT):
        self.root = root
        self.nodes = {root: Node(root, root_name, None)}
        self.calls = []  # every transfer
        self.fault = None  # called with the chunks of a transfer

    def add(self, id, name, parent, data=None, rev=1):
        self.nodes[id] = Node(id, name, parent, data, rev)
        return self.nodes[id]

    def children(self, id):
        return [n for n in self.nodes.values() if n.parent == id]

    def below(self, id):
        for n in self.children(id):
            yield n
            if n.data is None:
                yield from self.below(n.id)

    def path(self, id):
        """ the names from the root (left out) to the node """
        out = []
        n = self.nodes[id]
        while n.parent is not None:
            out.append(n.name)
            n = self.nodes[n.parent]
        return tuple(reversed(out))

    def remove(self, id):
        for n in list(self.below(id)):
            del self.nodes[n.id]
        del self.nodes[id]

    def taken(self, parent, name, but=None):
        return any(n.name == name and n.id != but for n in self.children(parent))

    def inside(self, id, top):
        while id is not None:
            if id == top:
                return True
            id = self.nodes[id].parent
        return False

    def meta(self, id):
        """ the fields the remote gives """
        n = self.nodes[id]
        kw = dict(id=n.id, name=n.name, created=ts(0), updated=ts(n.rev))
        if n.parent is not None:
            kw['parent_id'] = n.parent
        if n.data is not None:
            kw.update(size=len(n.data), checksum=hashlib.sha256(n.data).digest(),
                      file_id=n.rev)
        kw.update(n.extra)
        return kw


def make(store, cache_attrs=None, cache_bases=(), local_attrs=None):
    """ (Local, Cache, Remote) bound together """

    class Api:
        nodes = store.nodes

        def __init__(self, id):
            if id not in store.nodes:
                raise ValueError(f'no such root {id}')
            self.root = id

    class MemRemote(RemotePath):
        _api_class = Api
        _store = store

        def __init__(self, thing, cache=None):
            super().__init__(thing, cache=cache)

        @property
        def node(self):
            n = store.nodes.get(self.id)
            if n is None:
                raise exc.NoRemoteFileWithThatIdError(self.id)
            return n

        def exists(self):
            return self.id in store.nodes

        def is_dir(self):
            return self.node.data is None

        def is_file(self):
            return self.node.data is not None

        @property
        def name(self):
            return self.node.name

        @property
        def anchor(self):
            return self.__class__(self.root)

        @property
        def parent(self):
            p = self.node.parent
            return None if p is None else self.__class__(p)

        @property
        def children(self):
            for n in store.children(self.id):
                child = self.__class__(n.id)
                self.cache / child
                yield child

        def _rchildren(self, create_cache=True, sparse=False):
            for n in store.children(self.id):
                child = self.__class__(n.id)
                if create_cache:
                    self.cache / child
                yield child
                if n.data is None:
                    yield from child._rchildren(create_cache, sparse)

        def _mkdir_child(self, child_name):
            if not self.is_dir():
                raise NotADirectoryError(self.name)
            if store.taken(self.id, child_name):
                raise exc.RemotePathExistsError(child_name)
            n = store.add(f'N:new:{len(store.nodes)}', child_name, self.id)
            return self.__class__(n.id)

        @property
        def meta(self):
            self.node
            return PathMeta(**store.meta(self.id))

        def _sparse_include(self):
            return self.name.endswith('.x')

        def __hash__(self):
            return hash(self.id)

        @property
        def data(self):
            d = self.node.data
            chunks = (d[i:i + 4096] for i in range(0, len(d), 4096))
            store.calls.append(self.id)
            yield from chunks if store.fault is None else store.fault(self.id, chunks)

        def refresh(self, update_cache=False, update_data=False,
                    update_data_on_cache=False, size_limit_mb=2, force=False):
            if not self.exists():
                return None
            if update_cache or update_data:
                self.update_cache()
                if update_data and self.is_file() and not self.cache.exists():
                    self.cache.fetch(size_limit_mb=size_limit_mb)
            return self.cache

    class MemCache(*cache_bases, PrimaryCache, EatCache):
        xattr_prefix = 'mem'
        _not_exists_cache = SymlinkCache
        cypher = hashlib.sha256

        @property
        def anchor(self):
            return getattr(self, '_anchor', None)

        @property
        def trash(self):
            return self.local_data_dir / 'trash'

        @property
        def cache_key(self):
            return f'{self.id}-{self.meta.file_id}'

        @property
        def data(self):
            yield from self.remote.data

        def _meta_is_root(self, meta):
            return meta.id == store.root

        def _sparse_include(self):
            return self.name.endswith('.x')

    class MemLocal(LocalPath):
        @property
        def cache_id(self):
            c = self.cache
            return None if c is None else c.id

    for k, v in (cache_attrs or {}).items():
        setattr(MemCache, k, v)
    for k, v in (local_attrs or {}).items():
        setattr(MemLocal, k, v)
    MemCache._bind_flavours()
    MemLocal._bind_flavours()
    return MemLocal, MemCache, MemRemote._new(MemLocal, MemCache)


class Project:
    def __init__(self, base, root_name='proj', **kw):
        self.base = str(base)
        self.store = Store(root_name)
        self.Local, self.Cache, self.Remote = make(self.store, **kw)
        self.top = f'{base}/{root_name}'

    def anchor(self):
        self.Remote.init(self.store.root)
        self.root = self.Remote.dropAnchor(self.Local(self.base))
        return self.root

    def local(self, *parts):
        return self.Local(self.top, *parts)
