import os
from hypothesis import strategies as st
import gen
import mem
from framework import Violation, check, equal, short, outcome

from augpathlib import PathMeta, SqliteCache, exceptions as exc

ID = 'D15'
COUNTS = {'quick': 6000, 'thorough': 40000}
RULE = ('histories of up to 12 steps over a mirrored project whose cache has a backup: newer '
        'metadata is recorded for folders, files and links, files are fetched, the metadata of '
        'a path is wiped (its attributes, its link), the backup loses what it has, and the '
        'metadata is read by a fresh object.  Non-trivial: metadata that was wiped is read.')
ASSUMPTIONS = ['the backup is a subclass of SqliteCache that keeps metadata by path',
               'the remote is an in memory subclass of RemotePath']

IDS = ['N:a', 'N:b', 'N:1', 'N:2', 'N:3']
FILES = IDS[2:]
# what may change without a change of content
SOFT = st.fixed_dictionaries({}, optional={
    'user_id': st.integers(0, 3), 'gid': st.integers(0, 3), 'mode': st.sampled_from(['a', 'b']),
    'errors': st.lists(st.sampled_from(['x', 'y']), max_size=2).map(tuple),
    'multi': st.integers(0, 2), 'etag': st.sampled_from([(b'1', 1), (b'2', 2)])})
HARD = st.fixed_dictionaries({}, optional={
    'size': st.integers(0, 5), 'checksum': st.sampled_from([b'1', b'2']),
    'file_id': st.integers(0, 3), 'user_id': st.integers(0, 3)})


def strategy(tier):
    any_ = st.sampled_from(IDS)
    op = st.one_of(
        st.tuples(st.just('record'), any_, SOFT, HARD),
        st.tuples(st.just('record'), any_, SOFT, HARD),
        st.tuples(st.just('fetch'), st.sampled_from(FILES)),
        st.tuples(st.just('wipe'), any_),
        st.tuples(st.just('wipe'), any_),
        st.tuples(st.just('lose'), any_),
        st.tuples(st.just('read'), any_),
        st.tuples(st.just('read'), any_),
    )
    return st.fixed_dictionaries({
        'raises': st.booleans(),
        'ops': st.lists(op, min_size=3, max_size=12 if tier == 'quick' else 25)})


def run(case, ctx):
    kept = {}

    class Backup(SqliteCache):
        @property
        def meta(self):
            m = kept.get(os.path.abspath(self))
            if m is None and case['raises']:
                raise exc.NoCachedMetadataError(self)
            return m

        @meta.setter
        def meta(self, value):
            kept[os.path.abspath(self)] = value

    Backup._bind_flavours()
    base = ctx.scratch()
    p = mem.Project(base, cache_attrs={'_backup_cache': Backup})
    s = p.store
    s.add('N:a', 'a', s.root)
    s.add('N:b', 'b', 'N:a')
    for i, (id, at) in enumerate(zip(FILES, (s.root, 'N:a', 'N:b'))):
        s.add(id, f'{i}.t', at, gen.blob(i * 10, i))
    root = p.anchor()
    root.bootstrap(root.remote.meta, recursive=True)
    _, Bare, _ = mem.make(s)  # reads the same without a backup
    want = {id: PathMeta(**s.meta(id)) for id in IDS}
    wiped = dict.fromkeys(IDS, False)
    lost = dict.fromkeys(IDS, False)
    fetched = set()

    def full(id):
        return os.path.join(p.top, *s.path(id))

    def same(what, got, expected):
        check(got is not None, '{}: no metadata', what)
        d = gen.meta_diff(got, {f: getattr(expected, f) for f in gen.FIELDS})
        if d is not None:
            raise Violation(f'{what}: field {d[0]} is {short(d[1])} expected {short(d[2])}')

    def there(id):
        """ what is recorded at the path itself """
        if not os.path.lexists(full(id)):
            return None
        m = Bare(full(id)).meta if os.path.islink(full(id)) else \
            PathMeta.from_xattrs(p.Local(full(id)).xattrs(), 'mem')
        return m or None

    for op, id, *args in case['ops']:
        what = f'{op} {id}'
        path = full(id)
        if lost[id] and path in kept:  # it was given to the backup again
            lost[id] = False
        gone = wiped[id] and lost[id]
        if op == 'wipe':
            if os.path.islink(path):
                os.unlink(path)
            elif os.path.exists(path):
                for k in os.listxattr(path):
                    if k.startswith('user.mem.'):
                        os.removexattr(path, k)
            wiped[id] = True
            continue
        elif op == 'lose':
            kept.pop(path, None)
            lost[id] = True
            continue
        elif gone:
            if os.path.lexists(path):
                check(p.Local(path).cache is None, '{}: there is a cache', what)
                check(there(id) is None, '{}: there is metadata', what)
            ctx.note('nothing left')
            continue
        elif op == 'record':
            soft, hard = args
            if wiped[id]:
                ctx.nontrivial()
            new = {'id': id, **soft, **({} if id in FILES else hard)}
            merged = {f: getattr(want[id], f) for f in gen.FIELDS}
            changed = any(f in new and merged[f] is not None and merged[f] != new[f]
                          for f in ('size', 'checksum', 'file_id'))
            for f in gen.FIELDS:
                if f == 'errors':
                    merged[f] = new.get(f) or merged[f]
                elif new.get(f) is not None:
                    merged[f] = new[f]
                elif changed and f != 'old_id':
                    merged[f] = None
            p.Cache(p.Local(path), meta=PathMeta(**new))
            want[id] = PathMeta(**merged)
            same(f'{what}: of the backup', kept.get(path), want[id])
            lost[id] = False
        elif op == 'fetch':
            if wiped[id]:
                ctx.nontrivial()
            p.Local(path).cache.fetch()
            fetched.add(id)
            with open(path, 'rb') as f:
                equal(f.read(), s.nodes[id].data, f'{what}: data')
            check(not os.path.islink(path), '{}: still a link', what)
        elif op == 'read':
            if wiped[id]:
                ctx.nontrivial()
                ctx.note('restored ' + ('folder' if id not in FILES else
                                        'file' if id in fetched else 'link'))
            same(what, p.Local(path).cache.meta, want[id])
        if wiped[id]:
            lost[id] = False if op != 'read' else lost[id]
        wiped[id] = False
        same(f'{what}: at the path', there(id), want[id])
    for id in IDS:
        if not wiped[id]:
            same(f'{id} in the end', there(id), want[id])
        if not lost[id]:
            same(f'{id} in the backup in the end', kept.get(full(id)), want[id])
