import os
import stat
import hashlib
from datetime import datetime, timezone
from pexpect import pxssh, spawn
from hypothesis import strategies as st
import gen
from framework import HarnessError, Violation, check, equal, short, outcome

import augpathlib.remotes as remotes
from augpathlib import LocalPath, PathMeta, exceptions as exc
from augpathlib.caches import SshCache

ID = 'H01'
COUNTS = {'quick': 640, 'thorough': 12000}
RULE = ('served folders of up to 5 files, folders and pipes with names full of what a shell '
        'gives a meaning to (quotes, $, `, !, *, control characters, a leading -), content '
        'of any bytes, modes and times, asked for by absolute path, with the host, relative '
        'to the anchor, joined or through parents, then cached, fetched and changed on the '
        'other side and asked for again.  Non-trivial: an entry has a name with a character '
        'that is not plain, and is a file with content.')
ASSUMPTIONS = ['the transport is a local bash in a pseudo terminal in place of ssh, and '
               'a script in place of the ssh command',
               'no symbolic links on the other side',
               'no name contains the prompt of the session',
               'commands of more than a line are the documented CommandTooLongError']

HOST = 'some-host'


class Session(pxssh.pxssh):
    """ a local shell behind the interface of an ssh session """

    _open = []
    ids = None  # what id says

    def login(self, host, **kwargs):
        self.delaybeforesend = None
        env = dict(os.environ, LC_ALL='C.UTF-8', HISTFILE='/dev/null', TERM='dumb')
        spawn._spawn(self, '/bin/bash', ['--norc', '--noprofile', '-i'], None)
        self._open.append(self)
        if not self.set_unique_prompt():
            raise HarnessError('no prompt')
        self.sendline('export LC_ALL=C.UTF-8')
        self.prompt()
        if self.ids is not None:
            self.sendline('id() { case "$1" in -u) echo %d;; -G) echo %s;; esac; }' %
                          (self.ids[0], ' '.join(map(str, self.ids[1]))))
            self.prompt()
        return True

    def sendeof(self):
        if not self.closed:
            super().sendeof()


class Transport:
    pxssh = Session


class NoAtexit:
    @staticmethod
    def register(func):
        return func


SPECIAL = '\'"$`!*?[]{}()<>|&;\\#~%^= \t\n\x01\x1b\x7f-.,:@+\u00e9\u4e2d\U0001f600\u00a0'


def strategy(tier):
    name = st.one_of(
        gen.text_of(gen.ASCII + SPECIAL, 1, 8),
        gen.text_of(SPECIAL, 1, 4),
        st.sampled_from(['a', 'b.txt', '-r', '--help', '$HOME', '$(id)', '`id`', 'a b', "it's",
                         'a;id', '!!', '!1', '#', '~', '*', 'x' * 60, 'x' * 130, '\u4e2d' * 40,
                         'a  1  2', 'directory', 'regular file', 'a\nb', '{a,b}', '&', '>x',
                         'some-host:', 'C:', '\\', 'a\\nb', '%n', '..a', 'No such file'])
    ).filter(lambda n: n not in ('.', '..') and len(n.encode()) < 200)
    content = st.one_of(st.sampled_from([b'', b'x', b'\n', b'\x00', b'\r\n\xff']),
                        st.binary(max_size=40), st.integers(4090, 4100).map(gen.blob),
                        st.sampled_from([8192, 70000]).map(gen.blob))
    mode = st.one_of(st.just(0o644), st.integers(0, 0o777), st.integers(0, 0o777),
                     st.sampled_from([0o4755, 0o1644, 0o2600]))
    when = st.tuples(st.integers(-10 ** 9, 4 * 10 ** 9), st.integers(0, 999999999))
    node = st.fixed_dictionaries({
        'parent': st.integers(0, 3),
        'name': name,
        'kind': st.sampled_from(['file', 'file', 'file', 'dir', 'dir', 'fifo']),
        'content': content,
        'mode': mode,
        'when': when,
        'how': st.sampled_from(['abs', 'host', 'rel', 'root/', 'parent/', 'args', 'again']),
        'again': st.one_of(st.none(), st.binary(max_size=8)),
        'fail': st.one_of(st.none(), st.none(), st.integers(0, 12), st.just(5000)),
    })
    return st.fixed_dictionaries({
        'root': st.one_of(st.just('remote'), name),
        'ids': st.one_of(st.none(), st.tuples(st.booleans(), st.lists(
            st.sampled_from([None, 7, 1, 123456]), min_size=1, max_size=4))),
        'killed': st.booleans(),
        'tree': st.lists(node, min_size=1, max_size=5),
        'missing': st.lists(name, max_size=2),
    })


def long(path):
    """ whether a command with the path may not fit on a line """
    return sum((len(c.encode()) if c.isprintable() else 4 * len(c.encode())) +
               (4 if c == "'" else 0) for c in path) > 85


class TooLong(Exception):
    pass


def run(case, ctx):
    base = ctx.scratch()
    root = os.path.join(base, case['root'])
    os.mkdir(root)
    os.mkdir(os.path.join(base, '.bin'))
    fake = os.path.join(base, '.bin', 'ssh')
    with open(fake, 'w') as f:
        # as ssh does: the words are joined and given to the shell there
        f.write('#!/bin/sh\n[ "$1" = "%s" ] || exit 9\nshift\n'
                'if [ -e "$0.fail" ]; then\n'
                '/bin/bash -c "$*" | head -c "$(cat "$0.fail")"\n'
                '[ -e "$0.kill" ] && kill -9 $$\nexit 255\nfi\n'
                'exec /bin/bash -c "$*"\n' % HOST)
    os.chmod(fake, 0o755)
    proj = os.path.join(base, '.proj', 'top')
    os.makedirs(proj)

    dirs = ['']
    entries = []
    for i, e in enumerate(case['tree']):
        rel = os.path.join(dirs[e['parent'] % len(dirs)], e['name'])
        full = os.path.join(root, rel)
        if os.path.lexists(full):
            continue
        if e['kind'] == 'dir':
            os.mkdir(full)
            dirs.append(rel)
        elif e['kind'] == 'fifo':
            os.mkfifo(full)
        else:
            with open(full, 'wb') as f:
                f.write(e['content'])
        entries.append((rel, e))

    for rel, e in reversed(entries):
        full = os.path.join(root, rel)
        # the folders stay open so that the rest can be looked at
        os.chmod(full, e['mode'] | 0o700 if e['kind'] == 'dir' else e['mode'])
        os.utime(full, ns=(e['when'][0] * 10 ** 9 + 5,
                           e['when'][0] * 10 ** 9 + e['when'][1]))

    if any(e['kind'] == 'file' and e['content'] and
           not e['name'].replace('.', '').isalnum() for _, e in entries):
        ctx.nontrivial()

    class Path(LocalPath):
        pass

    Path._bind_flavours()

    class Cache(SshCache):
        @property
        def cache_key(self):
            return hashlib.md5(self.id.encode()).hexdigest()

    Cache._bind_flavours()

    path_was, transport_was, atexit_was = os.environ['PATH'], remotes.pxssh, remotes.atexit
    remotes.pxssh = Transport
    remotes.atexit = NoAtexit
    os.environ['PATH'] = os.path.join(base, '.bin') + os.pathsep + path_was
    here = os.getcwd()
    os.chdir(base)
    Session.ids = None
    if case['ids'] is not None:
        me, groups = case['ids']
        Session.ids = (os.getuid() if me else os.getuid() + 1,
                       [os.getgid() if g is None else os.getgid() + g for g in groups])
    if case['killed']:
        with open(fake + '.kill', 'w'):
            pass
    try:
        Remote = remotes.SshRemote._new(Path, Cache)
        anchor = Path(proj).cache_init(f'{HOST}:{root}', anchor=True)
        inside(case, ctx, base, root, entries, Path, Cache, Remote, anchor, fake)
    finally:
        os.chdir(here)
        os.environ['PATH'] = path_was
        remotes.pxssh, remotes.atexit = transport_was, atexit_was
        while Session._open:
            Session._open.pop().close(force=True)


def inside(case, ctx, base, root, entries, Path, Cache, Remote, anchor, fake):
    equal(anchor.id, f'{HOST}:{root}', 'id of the anchor')
    equal(anchor.remote.rpath, root, 'path of the remote of the anchor')

    def reach(rel, how):
        full = os.path.join(root, rel)
        parent, name = os.path.split(rel)
        if how == 'abs':
            return Remote(full)
        elif how == 'host':
            return Remote(f'{HOST}:{full}')
        elif how == 'rel':
            return Remote(rel)
        elif how == 'root/':
            return anchor.remote / rel
        elif how == 'parent/':
            return Remote(os.path.join(root, parent)) / name
        elif how == 'args':
            return Remote(root, *rel.split(os.sep))
        else:
            return Remote(Remote(full))

    for out in (os.path.dirname(root), root + 'x', '/'):
        kind, v = outcome(lambda: Remote(out).parts)
        check(kind == 'err' and isinstance(v, ValueError),
              'parts of {}, which is outside of {}: {}', out, root, short(v))

    def ask(what, func, *args, **kwargs):
        try:
            return func(*args, **kwargs)
        except exc.CommandTooLongError as e:
            if long_ok:
                raise TooLong() from e
            raise Violation(f'{what}: the command is too long') from e

    for rel, e in entries:
        full = os.path.join(root, rel)
        long_ok = long(full)
        what = f'{e["kind"]} {rel!r} by {e["how"]}'
        if e['how'] == 'rel' and rel.startswith(HOST + ':'):
            continue  # it is a path on the host
        ctx.note('by ' + e['how'], e['kind'])
        try:
            r = reach(rel, e['how'])
            names(what, r, root, full)
            look(what, r, e, full, ask, Cache)
            cached(what, r, e, rel, full, ask, Path, anchor, fake)
            if e['again'] is not None and e['kind'] == 'file' and os.access(full, os.W_OK):
                with open(full, 'wb') as f:
                    f.write(e['again'])
                ctx.note('changed')
                look('changed ' + what, r, dict(e, content=e['again']), full, ask, Cache)
        except TooLong:
            ctx.note('too long')

    closed = [rel for rel, e in entries if e['kind'] == 'dir']
    for rel, e in entries:
        if os.path.dirname(rel) in closed and e['how'] in ('abs', 'root/', 'args'):
            full = os.path.join(root, rel)
            folder = os.path.dirname(full)
            long_ok = long(full)
            what = f'{rel!r} in a folder that cannot be entered'
            was = stat.S_IMODE(os.stat(folder).st_mode)
            os.chmod(folder, 0o600)
            try:
                r = reach(rel, e['how'])
                for mode in ('read', 'write', 'execute'):
                    equal(bool(ask(what, r.access, mode)), False, f'{what}: access {mode}')
                kind, v = outcome(ask, what, r.stat)
                if kind == 'err' and isinstance(v, TooLong):
                    raise v
                check(kind == 'err' and isinstance(v, PermissionError),
                      '{}: stat {}', what, short(v))
                ctx.note('in a closed folder')
            except TooLong:
                ctx.note('too long')
            finally:
                os.chmod(folder, was)

    for n in case['missing']:
        full = os.path.join(root, n)
        if os.path.lexists(full) or n.startswith(HOST + ':'):
            continue
        long_ok = long(full)
        what = f'missing {n!r}'
        try:
            r = reach(n, 'rel')
            equal(bool(ask(what, r.exists)), False, f'{what}: exists')
            equal(bool(ask(what, r.is_file)), False, f'{what}: is_file')
            equal(bool(ask(what, r.is_dir)), False, f'{what}: is_dir')
            for mode in ('read', 'write', 'execute'):
                equal(bool(ask(what, r.access, mode)), False, f'{what}: access {mode}')
            kind, v = outcome(ask, what, r.stat)
            if kind == 'err' and isinstance(v, TooLong):
                raise v
            check(kind == 'err' and isinstance(v, FileNotFoundError),
                  '{}: stat {}', what, short(v))
            ctx.note('missing')
        except TooLong:
            ctx.note('too long')


def names(what, r, root, full):
    rel = os.path.relpath(full, root)
    equal(r.rpath, full, f'{what}: rpath')
    equal(r.id, f'{HOST}:{full}', f'{what}: id')
    equal(r.name, os.path.basename(full), f'{what}: name')
    equal(r.as_path().as_posix(), rel, f'{what}: as_path')
    equal(tuple(r.parts), tuple(rel.split(os.sep)), f'{what}: parts')
    equal(r.parent.rpath, os.path.dirname(full), f'{what}: parent')
    equal(r.parent_id, f'{HOST}:{os.path.dirname(full)}', f'{what}: parent_id')


def utc(t):
    return datetime.fromtimestamp(t, tz=timezone.utc)


def look(what, r, e, full, ask, Cache):
    s = os.lstat(full)
    equal(bool(ask(what, r.exists)), True, f'{what}: exists')
    equal(bool(ask(what, r.is_dir)), e['kind'] == 'dir', f'{what}: is_dir')
    equal(bool(ask(what, r.is_file)), e['kind'] == 'file', f'{what}: is_file')
    t = ask(what, r.stat)
    if full.isprintable():
        equal(t.name, full, f'{what}: name in the status')
    for k in ('st_size', 'st_mode', 'st_uid', 'st_gid', 'st_ino', 'st_atime', 'st_mtime',
              'st_ctime'):
        equal(getattr(t, k), getattr(s, k), f'{what}: {k}')
    for mode, flag in (('read', os.R_OK), ('write', os.W_OK), ('execute', os.X_OK)):
        want = os.access(full, flag)
        if Session.ids is not None:  # by the class of users it is in
            bits = stat.S_IMODE(s.st_mode)
            if s.st_uid == Session.ids[0]:
                bits >>= 6
            elif s.st_gid in Session.ids[1]:
                bits >>= 3
            want = bool(bits & flag)
        equal(bool(ask(what, r.access, mode)), want,
              f'{what}: access {mode} with {oct(s.st_mode)}')
        equal(bool(ask(what, r.access, flag)), want,
              f'{what}: access {flag} with {oct(s.st_mode)}')

    if e['kind'] == 'fifo':
        return

    digest = None
    if e['kind'] == 'file':
        if not os.access(full, os.R_OK):
            kind, v = outcome(r.checksum)
            check(kind == 'err', '{}: checksum of what cannot be read is {}', what, short(v))
            return
        digest = hashlib.blake2b(e['content']).digest()
        equal(ask(what, r.checksum), digest, f'{what}: checksum')
        equal(ask(what, r.checksum, hashlib.sha256), hashlib.sha256(e['content']).digest(),
              f'{what}: sha256')
        equal(b''.join(r.data), e['content'], f'{what}: data')

    m = ask(what, lambda: r.meta)
    want = dict(id=f'{HOST}:{full}', name=os.path.basename(full), size=s.st_size,
                created=utc(s.st_mtime), updated=utc(s.st_ctime), checksum=digest,
                parent_id=f'{HOST}:{os.path.dirname(full)}', file_id=s.st_ino,
                user_id=s.st_uid, gid=s.st_gid, mode=oct(s.st_mode))
    if e['kind'] == 'dir':
        want.pop('size')
    for k, v in want.items():
        equal(getattr(m, k), v, f'{what}: {k} of the metadata')
    if digest is not None:
        equal(m.checksum_cypher, 'blake2b', f'{what}: cypher of the metadata')


def reserved(text):
    return '|' in text or '!' in text or text.endswith('/#')


def cached(what, r, e, rel, full, ask, Path, anchor, fake):
    if e['kind'] == 'fifo' or e['kind'] == 'file' and not os.access(full, os.R_OK):
        return
    mine = os.path.join(str(anchor), rel)
    # a link that holds the metadata cannot hold everything or be of any length
    fits = not reserved(full) and len(full.encode()) < 150
    kind, v = outcome(ask, what, r.cache_init, parents=True)
    if kind == 'err':
        if isinstance(v, TooLong):
            raise v
        if isinstance(v, exc.CommandTooLongError) or not fits:
            return
        raise Violation(f'{what}: cache_init {type(v).__name__} {short(str(v))}')
    local = Path(mine)
    meta = ask(what, lambda: r.meta)
    got = local.cache.meta
    check(got is not None, '{}: no metadata in the cache', what)
    for k in ('id', 'size', 'created', 'updated', 'checksum', 'file_id', 'user_id', 'gid',
              'mode'):
        w = getattr(meta, k)
        if k in ('created', 'updated') and w is not None:
            check(abs(getattr(got, k) - w).total_seconds() < 1e-5,
                  '{}: {} in the cache is {} not {}', what, k, getattr(got, k), w)
        elif not (e['kind'] == 'dir' and k == 'size'):
            equal(getattr(got, k), w, f'{what}: {k} in the cache')
    if e['kind'] == 'dir':
        check(os.path.isdir(mine) and not os.path.islink(mine), '{}: not a folder', what)
        return
    check(os.path.islink(mine), '{}: not a link', what)
    if e['fail'] is not None:
        with open(fake + '.fail', 'w') as f:
            f.write(f'{e["fail"]}')
        kind, v = outcome(lambda: b''.join(r.data))
        check(kind == 'err', '{}: a transfer that failed gives {}', what, short(v))
        kind, v = outcome(local.cache.fetch, size_limit_mb=None)
        check(kind == 'err', '{}: a fetch that failed gives {}', what, short(v))
        check(os.path.islink(mine), '{}: not a link after a fetch that failed', what)
        os.unlink(fake + '.fail')
    local.cache.fetch(size_limit_mb=None)
    check(os.path.isfile(mine) and not os.path.islink(mine), '{}: not fetched', what)
    with open(mine, 'rb') as f:
        equal(f.read(), e['content'], f'{what}: what was fetched')
    got = Path(mine).cache.meta
    for k in ('id', 'size', 'checksum', 'mode'):
        equal(getattr(got, k), getattr(meta, k), f'{what}: {k} in the cache after the fetch')
    equal(tuple(got.errors), (), f'{what}: errors in the cache after the fetch')
