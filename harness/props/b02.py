import os
import time
import hashlib
from datetime import datetime, timezone
from hypothesis import strategies as st
import gen
from framework import Violation, check, equal, outcome, describe

from augpathlib import LocalPath, exceptions as exc
from augpathlib.utils import cypher_lookup

ID = 'B02'
COUNTS = {'quick': 8000, 'thorough': 60000}
RULE = ('random histories of writes, appends, truncations, renames, mode and time '
        'changes, replacements, removals of one path, interleaved with metadata '
        'and checksum reads through one path object.  Non-trivial: a metadata read after '
        'a change after a metadata read.')
ASSUMPTIONS = ['changes closer together than the clock of the file system ticks '
               'are not told apart by any of stat, so the harness waits for a tick '
               'after a read']


class Md5Cache:
    cypher = hashlib.md5


class Sha256Local(LocalPath):
    _cache_class = None


Sha256Local._bind_flavours()
CYPHERS = {n: c for n, c in cypher_lookup.items() if not n.startswith('shake')}


def strategy(tier):
    size = st.one_of(st.integers(0, 60), st.sampled_from([4095, 4096, 4097, 8192, 10000]))
    op = st.one_of(
        st.tuples(st.just('write'), size, st.integers(0, 5)),
        st.tuples(st.just('rewrite'), st.integers(0, 5)),
        st.tuples(st.just('data'), size, st.integers(0, 5)),
        st.tuples(st.just('append'), st.integers(0, 20)),
        st.tuples(st.just('truncate'), st.integers(0, 50)),
        st.tuples(st.just('rename')),
        st.tuples(st.just('chmod'), st.sampled_from([0o600, 0o644, 0o755, 0o444, 0o400, 0o777, 0o4755, 0o2750, 0o1644])),
        st.tuples(st.just('utime'), st.integers(0, 2 ** 32), st.integers(0, 10 ** 9 - 1)),
        st.tuples(st.just('keeptime'), size, st.integers(0, 5)),
        st.tuples(st.just('replace'), size, st.integers(0, 5)),
        st.tuples(st.just('quick'), st.integers(0, 5)),
        st.tuples(st.just('remove')),
        st.tuples(st.just('mkdir')),
        st.tuples(st.just('meta')), st.tuples(st.just('meta')), st.tuples(st.just('meta')),
        st.tuples(st.just('fast')), st.tuples(st.just('fast')),
        st.tuples(st.just('etag'), st.sampled_from([1, 3, 100, 4096])),
        st.tuples(st.just('checksum'), st.sampled_from(sorted(CYPHERS))),
        st.tuples(st.just('several'), st.lists(st.sampled_from(sorted(CYPHERS)),
                                               min_size=1, max_size=3)),
        st.tuples(st.just('size')),
    )
    return st.tuples(st.lists(op, min_size=2, max_size=14), st.booleans(),
                     st.sampled_from([None, 'md5']))


def no_cache(cls, *args, **kwargs):
    raise exc.NoCachedMetadataError('no cache here')


def digest(name, data):
    return hashlib.new(name, data).digest()


def run(case, ctx):
    ops, rel, cypher = case
    d = os.path.realpath(ctx.scratch())
    os.chdir(d)
    full = os.path.join(d, 'file.ext')
    tick = os.path.join(d, 'tick')
    if cypher is None:
        cls, cname = LocalPath, 'blake2b'
    else:
        cls, cname = Sha256Local, cypher
        Md5Cache.cypher = CYPHERS[cypher]
        # what the checksum of metadata is made with comes from the cache class
        cls._cache_class = type('Cache', (), {
            'cypher': CYPHERS[cypher],
            '__new__': no_cache})
    p = cls('file.ext' if rel else full)
    reads = [False]
    changed = [False]

    def settle():
        """ wait until a change cannot have the same time as the last one """
        if not reads[0] or not os.path.lexists(full):
            return
        last = os.stat(full).st_ctime_ns
        for _ in range(2000):
            with open(tick, 'wb') as f:
                f.write(b'x')
            if os.stat(tick).st_ctime_ns > last:
                return
            time.sleep(0.0005)

    def put(data, flags='wb'):
        if os.path.isdir(full):
            os.rmdir(full)
        elif os.path.lexists(full):
            os.chmod(full, 0o644)
        with open(full, flags) as f:
            f.write(data)

    def content():
        mode = os.stat(full).st_mode & 0o777
        with open(full, 'rb') as f:
            return f.read()

    def verify(m, what, checksum, chunk=None):
        if not os.path.lexists(full):
            for f in gen.FIELDS:
                v = getattr(m, f)
                if f == 'name':
                    equal(v, 'file.ext', f'{what} of a missing path: name')
                elif f == 'id':
                    equal(v, p.id, f'{what} of a missing path: id')
                else:
                    check(not v, '{} of a missing path has {}: {!r}', what, f, v)
            ctx.note('missing')
            return
        s = os.stat(full)
        isdir = os.path.isdir(full)
        equal(m.name, 'file.ext', f'{what}: name')
        equal(m.size, s.st_size, f'{what}: size')
        equal(m.file_id, s.st_ino, f'{what}: file_id')
        equal(m.user_id, s.st_uid, f'{what}: user_id')
        equal(m.gid, s.st_gid, f'{what}: gid')
        equal(m.mode, oct(s.st_mode), f'{what}: mode')
        equal(m.id, p.id, f'{what}: id')
        equal(m.parent_id, p.parent.id, f'{what}: parent_id')
        for f, ns in (('created', s.st_mtime_ns), ('updated', s.st_ctime_ns)):
            got = getattr(m, f)
            base = datetime(1970, 1, 1, tzinfo=timezone.utc)
            us = (got - base).total_seconds() * 1e6
            check(got.utcoffset() is not None and abs(us - ns / 1000) < 2,
                  '{}: {} is {} but the time is {}', what, f, got, ns / 1e9)
        if isdir:
            equal(m.checksum, None, f'{what}: checksum of a folder')
        elif checksum:
            equal(m.checksum, digest(cname, content()), f'{what}: checksum')
            equal(m.checksum_cypher, cname, f'{what}: checksum_cypher')
        if chunk and not isdir:
            data = content()
            parts = [hashlib.md5(data[i:i + chunk]).digest()
                     for i in range(0, len(data), chunk)]
            equal(m.etag, (hashlib.md5(b''.join(parts)).digest(), len(parts)),
                  f'{what}: etag')

    for op in ops:
        kind = op[0]
        exists = os.path.lexists(full)
        isdir = os.path.isdir(full)
        if kind in ('meta', 'fast', 'etag', 'checksum', 'several', 'size'):
            if changed[0] and reads[0]:
                ctx.nontrivial()
            changed[0] = False
            if kind == 'meta':
                verify(p.meta, 'meta', True)
                reads[0] = True
            elif kind == 'fast':
                verify(p.meta_no_checksum, 'meta_no_checksum', False)
                reads[0] = True
            elif kind == 'etag':
                if hasattr(p, '_meta_maker') and not isdir:
                    verify(p._meta_maker(chunksize=op[1]), 'meta with etag', True, op[1])
                    reads[0] = True
            elif kind == 'checksum':
                if exists and not isdir:
                    if op[1] == 'blake2b' and cypher:
                        continue  # the default is taken from the cache class
                    equal(p.checksum(CYPHERS[op[1]]), digest(op[1], content()),
                          f'checksum {op[1]}')
                elif isdir:
                    equal(p.checksum(), None, 'checksum of a folder')
            elif kind == 'several':
                if exists and not isdir:
                    first, *rest = op[1]
                    if first == 'blake2b' and cypher:
                        continue
                    got = p.checksum(CYPHERS[first], tuple(CYPHERS[n] for n in rest))
                    want = tuple(digest(n, content()) for n in op[1])
                    equal(got, want if rest else want[0], f'checksums {op[1]}')
            elif exists:
                equal(p.size, os.stat(full).st_size, 'size')
            continue

        settle()
        changed[0] = True
        if kind == 'write':
            put(gen.blob(op[1], op[2]))
        elif kind == 'rewrite' and exists and not isdir:
            put(gen.blob(os.path.getsize(full), op[1]))
        elif kind == 'data' and not isdir:
            if exists:
                os.chmod(full, 0o644)
            data = gen.blob(op[1], op[2])
            p.data = (data[i:i + 1000] for i in range(0, len(data), 1000))
            equal(content(), data, 'written data')
        elif kind == 'append' and exists and not isdir:
            put(gen.blob(op[1], 9), 'ab')
        elif kind == 'truncate' and exists and not isdir:
            os.chmod(full, 0o644)
            os.truncate(full, op[1])
        elif kind == 'rename' and exists:
            q = cls(d, 'other-name')
            p.rename(q)
            check(not os.path.lexists(full) and os.path.lexists(q), 'rename did not')
            verify(p.meta, 'meta after rename', True)
            q.rename(p)
        elif kind == 'chmod' and exists and not isdir:
            os.chmod(full, op[1])
        elif kind == 'utime' and exists:
            ns = op[1] * 10 ** 9 + op[2]
            os.utime(full, ns=(ns, ns))
        elif kind == 'keeptime' and exists and not isdir:
            s = os.stat(full)
            put(gen.blob(op[1], op[2]))
            os.utime(full, ns=(s.st_atime_ns, s.st_mtime_ns))
        elif kind == 'replace' and not isdir:
            new = os.path.join(d, 'new')
            with open(new, 'wb') as f:
                f.write(gen.blob(op[1], op[2]))
            os.replace(new, full)
        elif kind == 'quick' and exists and not isdir:
            # another file of the same size and times, moved there within a tick
            s = os.stat(full)
            new = os.path.join(d, 'new')
            with open(new, 'wb') as f:
                f.write(gen.blob(s.st_size, op[1] + 20))
            os.chmod(new, s.st_mode & 0o7777)
            os.utime(new, ns=(s.st_atime_ns, s.st_mtime_ns))
            os.chmod(full, s.st_mode & 0o7777)
            before = os.stat(full).st_ctime_ns
            outcome(lambda: p.meta)
            os.replace(new, full)
            if os.stat(full).st_ctime_ns == before:
                ctx.note('same times')
            verify(p.meta, 'meta after a quick replacement', True)
            reads[0] = True
        elif kind == 'remove' and exists:
            os.rmdir(full) if isdir else os.unlink(full)
        elif kind == 'mkdir' and not exists:
            os.mkdir(full)
    verify(p.meta, 'final meta', True)
    verify(cls(full).meta if not rel else cls('file.ext').meta, 'meta of a new object', True)
