"""One call that changes the file system fails, or is the last one that is made."""

import builtins
import errno
import os
from hypothesis import strategies as st
import gen
import mem

from augpathlib import PathMeta, core

KINDS = ['file', 'edited', 'link', 'dir', 'empty']
OPS = ['refresh', 'refresh', 'refresh', 'fetch', 'move', 'bootstrap', 'init', 'crumple', 'swap', 'copy']
CHANGES = ['name', 'place', 'both', 'new', 'content', 'touch', 'removed', 'name content', 'place content']


def strategy(tier):
    return st.fixed_dictionaries({
        'kind': st.sampled_from(KINDS),
        'op': st.sampled_from(OPS),
        'change': st.sampled_from(CHANGES),
        'data': st.booleans(),
        'link': st.booleans(),  # a link for the same thing is already there
        'at': st.integers(0, 12),
        'errno': st.sampled_from([errno.ENOSPC, errno.EACCES, errno.EIO, errno.EROFS]),
        'size': st.sampled_from([0, 10, 5000]),
    })


class Crash(BaseException):
    pass


class Faults:
    """ call number at fails """
    NAMES = ['rename', 'replace', 'symlink', 'mkdir', 'unlink', 'rmdir', 'link', 'utime']

    def __init__(self, at=None, number=None, crash=False):
        self.at, self.number, self.crash = at, number, crash
        self.calls = []

    def hit(self, what, *args):
        self.calls.append((what, *args))
        n = len(self.calls) - 1
        if self.at is None or n < self.at:
            return
        if self.crash:
            raise Crash(what)  # nothing is done from here on
        if n == self.at:
            raise OSError(self.number, os.strerror(self.number), *args[:1])

    def __enter__(self):
        self.was = {}
        for n in self.NAMES:
            self.was[n] = getattr(os, n)

            def call(*args, _n=n, _f=self.was[n], **kw):
                self.hit(_n, *map(str, args[:2]))
                return _f(*args, **kw)
            setattr(os, n, call)
        self.xset = core.xattr.set
        self.xremove = core.xattr.remove

        def xset(path, *args, **kw):
            self.hit('setxattr', str(path))
            return self.xset(path, *args, **kw)

        def xremove(path, *args, **kw):
            self.hit('removexattr', str(path))
            return self.xremove(path, *args, **kw)

        core.xattr.set, core.xattr.remove = xset, xremove
        self.open = builtins.open

        def opened(file, mode='r', *args, **kw):
            if not set(mode) & set('wax+'):
                return self.open(file, mode, *args, **kw)
            self.hit('open', str(file))
            f = self.open(file, mode, *args, **kw)
            return File(f, self)

        core.open = opened
        return self

    def __exit__(self, *_):
        for n, f in self.was.items():
            setattr(os, n, f)
        core.xattr.set, core.xattr.remove = self.xset, self.xremove
        del core.open


class File:
    def __init__(self, f, faults):
        self.f, self.faults = f, faults

    def write(self, data):
        try:
            self.faults.hit('write', self.f.name)
        except BaseException:
            if len(self.faults.calls) - 1 == self.faults.at:
                self.f.write(data[:len(data) // 2])  # the disk is full now
            raise
        return self.f.write(data)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.f.close()

    def __getattr__(self, name):
        return getattr(self.f, name)


def snapshot(top):
    out = {}
    for base, dirs, files in os.walk(top):
        for n in dirs + files:
            full = os.path.join(base, n)
            rel = os.path.relpath(full, top)
            if os.path.islink(full):
                out[rel] = ('link', os.readlink(full))
                continue
            x = tuple(sorted((k, os.getxattr(full, k)) for k in os.listxattr(full)))
            if os.path.isdir(full):
                out[rel] = ('dir', x)
            else:
                with open(full, 'rb') as f:
                    out[rel] = ('file', x, f.read())
    return out


def world(base, case):
    """ a project where one thing changed on the remote """
    p = mem.Project(base)
    s = p.store
    kind, change = case['kind'], case['change']
    s.add('N:a', 'a', s.root)
    s.add('N:b', 'b', s.root)
    s.add('N:z', 'z', 'N:a', b'zzz')
    s.add('N:y', 'y', 'N:b', b'yyy')
    s.add('N:s', 's', 'N:a', gen.blob(case['size'], 1) if kind in ('file', 'edited', 'link') else None, 5)
    if kind == 'dir':
        s.add('N:s1', 'one', 'N:s', b'one')
        s.add('N:s2', 'sub', 'N:s')
        s.add('N:s3', 'three', 'N:s2', b'three')
    root = p.anchor()
    root.bootstrap(root.remote.meta, recursive=True)

    def put(id, local):
        if local in ('file', 'edited'):
            p.local(*s.path(id)).cache.fetch()
        if local == 'edited':
            with open(os.path.join(p.top, *s.path(id)), 'wb') as f:
                f.write(b'changed here ' + id.encode())

    put('N:s', kind)
    put('N:y', 'file')
    if kind == 'dir':
        put('N:s3', 'edited')
    n = s.nodes['N:s']
    old = s.path('N:s')
    if change in ('name', 'both', 'name content'):
        n.name = 'renamed'
    if change in ('place', 'both', 'place content'):
        n.parent = 'N:b'
    if change == 'new':
        s.add('N:n1', 'new1', 'N:b')
        s.add('N:n2', 'new2', 'N:n1')
        n.parent = 'N:n2'
    if 'content' in change and n.data is not None:
        n.data = b'of the new version' + gen.blob(case['size'], 2)
        n.rev += 1
    if change == 'touch':
        n.rev += 1
    if case['link'] and n.data is not None and change in ('name', 'place', 'both'):
        os.symlink(str(PathMeta(**s.meta('N:s')).as_symlink(local_name=n.name)),
                   os.path.join(p.top, *s.path('N:s')))
    if change == 'removed':
        s.remove('N:s')
    elif case['op'] in ('bootstrap', 'init'):
        s.add('N:m1', 'more', 'N:a')
        s.add('N:m2', 'more', 'N:m1', b'more')
    return p, old


def operate(p, case, old):
    s = p.store
    op = case['op']
    local = p.local(*old)
    if op == 'refresh':
        local.cache.refresh(update_data=case['data'])
    elif op == 'fetch':
        local.cache.fetch()
    elif op == 'move':
        local.cache.move(remote=local.cache.remote)
    elif op == 'bootstrap':
        p.root.bootstrap(p.root.remote.meta, recursive=True)
    elif op == 'init':
        p.Remote('N:m2').cache_init(parents=True)
    elif op == 'crumple':
        local.cache.crumple()
    elif op == 'swap':
        local.swap_carefree(p.local('b', 'y'))
    elif op == 'copy':
        local.copy_to(p.local('b', 'copy'))


def ids(tree):
    """ what is tracked in a snapshot """
    out = set()
    for what, *rest in tree.values():
        if what == 'link':
            _, id, *_ = rest[0].split('/')
            out.add(id)
        else:
            out |= {v.decode() for k, v in rest[0] if k == 'user.mem.id'}
    return out
