import os
from hypothesis import strategies as st
import gen
import mem
from framework import Violation, check, equal, short, outcome

from augpathlib import PathMeta, SymlinkCache, exceptions as exc

ID = 'D01'
COUNTS = {'quick': 10000, 'thorough': 80000}
RULE = ('sequences of up to 10 writes of metadata to one path with one of three ids, with '
        'timestamps, size, checksum and other fields present or not, directly, through the '
        'cache or merged, by one process or another, at a path where there is nothing or '
        'later a file, folder or link to a file is; some of the metadata cannot be held by a '
        'link.  Non-trivial: a link is written again '
        'with another id or another value.')
ASSUMPTIONS = ['the trash is the default one with one place for each id']

BAD = ['a|b', '#', 'x' * 5000]  # cannot be held by a link
IDS = ['N:1', 'N:2', 'a b/c'.replace('/', ':')]


def strategy(tier):
    value = st.fixed_dictionaries({
        'id': st.sampled_from(IDS + IDS[:1] * 2),
        'updated': st.sampled_from([None, 1, 2, 2, 3]),
        'created': st.sampled_from([None, 1, 1, 2]),
        'size': st.sampled_from([None, 0, 7, 7]),
        'checksum': st.sampled_from([None, b'\x00\x01', b'two']),
        'file_id': st.sampled_from([None, 0, 4]),
        'user_id': st.sampled_from([None] * 4 + ['U:1'] * 4 + BAD),
        'errors': st.sampled_from([(), (), ('e',)]),
    })
    op = st.one_of(
        *[st.tuples(st.sampled_from(['direct', 'setter', 'merge']), value)] * 12,
        st.tuples(st.sampled_from(['restart', 'file', 'dir', 'link', 'gone']), st.none()))
    return st.fixed_dictionaries({
        'name': st.sampled_from(['f', 'x y.z', '\u00e9', '.h']),
        'ops': st.lists(op, min_size=4, max_size=10 if tier == 'quick' else 25)})


def value(v):
    v = dict(v)
    for k in ('updated', 'created'):
        if v[k] is not None:
            v[k] = mem.ts(v[k])
    return PathMeta(**v)


def same(a, b):
    return all(getattr(a, k) == getattr(b, k) for k in gen.FIELDS)


def decide(old, new):
    """ 'keep', 'replace' or 'error' for a link with old and a write of new """
    if same(old, new):
        return 'keep'
    if old.id != new.id:
        for k in ('updated', 'created'):
            a, b = getattr(old, k), getattr(new, k)
            if a is None and b is None:
                return 'keep'
            elif b is None:
                return 'keep'
            elif a is None:
                return 'error'
            elif a > b:
                return 'keep'
            elif a < b:
                break
        else:
            return 'keep'
    if old.size is not None and new.size is None:
        return 'keep'
    return 'replace'


def run(case, ctx):
    p = mem.Project(ctx.scratch())
    s = p.store
    for id in IDS:
        s.add(id, case['name'], s.root, b'data')
    p.anchor()
    full = os.path.join(p.top, case['name'])
    trash = os.path.join(p.top, mem.DATA_DIR, 'trash')
    Local, Cache = p.Local, p.Cache
    current = None
    trashed = {}
    other = None

    def state(path):
        if os.path.islink(path):
            return 'link', os.readlink(path)
        if os.path.isdir(path):
            return 'dir', sorted(os.listdir(path)), sorted(os.listxattr(path))
        if os.path.exists(path):
            with open(path, 'rb') as f:
                return 'file', f.read(), sorted(os.listxattr(path))
        return None

    def text(m):
        return str(m.as_symlink(local_name=case['name']))

    for how, v in case['ops']:
        if how == 'restart':
            Local, Cache, R = mem.make(s)
            Local(p.top).cache.anchorClassHere()
            continue
        if how in ('file', 'dir', 'link', 'gone'):
            if os.path.isdir(full) and not os.path.islink(full):
                os.rmdir(full)
            elif os.path.lexists(full):
                os.unlink(full)
            if how == 'file':
                with open(full, 'wb') as f:
                    f.write(b'a real file')
            elif how == 'dir':
                os.mkdir(full)
            elif how == 'link':
                os.symlink('..', full)
            current, other = None, None if how == 'gone' else how
            continue

        m = value(v)
        what = f'{how} {short(v)} over {short(current)}'
        before = state(full)
        local = Local(full)
        cache = local.cache
        if other:
            # only the direct one is a write of the link
            tag, e = outcome(SymlinkCache, local, meta=m)
            ctx.note('over a ' + other)
            check(tag == 'err' and isinstance(e, exc.PathExistsError),
                  '{}: over a real {} {!r}', what, other, e)
            equal(state(full), before, f'{what}: {other}')
            continue

        if cache is None:
            tag, e = outcome(Cache, local, meta=m)
            verdict = 'replace'
        elif how == 'direct':
            tag, e = outcome(SymlinkCache, cache, meta=m)
            verdict = decide(current, m)
        elif how == 'setter':
            tag, e = outcome(cache._meta_setter, m)
            verdict = decide(current, m)
        else:
            m = Cache._update_meta(current, m)[1]
            tag, e = outcome(Cache, local, meta=value(v))
            verdict = decide(current, m)

        if current is not None and not same(m, current):
            ctx.nontrivial()
        if verdict == 'replace' and m.user_id in BAD:
            # what was there stays
            check(tag == 'err' and isinstance(e, (ValueError, OSError)),
                  '{}: cannot be written {!r}', what, e)
            ctx.note('cannot be written')
            check(os.path.islink(full) == (current is not None),
                  '{}: link after a write that failed', what)
            if current is not None:
                equal(os.readlink(full), text(current), f'{what}: link after a failed write')
                trashed.pop(current.id, None)
                have = {n: os.readlink(os.path.join(trash, n)) for n in os.listdir(trash)}
                for n in list(have):
                    if n == current.id.replace(':', '-').replace(' ', '-'):
                        have.pop(n)
                        os.unlink(os.path.join(trash, n))
                equal(have, {i.replace(':', '-').replace(' ', '-'): t
                             for i, t in trashed.items()}, f'{what}: trash')
            continue
        ctx.note(verdict + (' other id' if current is not None and m.id != current.id else ''))
        if verdict == 'error':
            check(tag == 'err' and isinstance(e, exc.MetadataIdMismatchError),
                  '{}: {!r}', what, e)
        else:
            check(tag == 'ok', '{}: failed {!r}', what, e)
        if verdict == 'replace':
            if current is not None:
                trashed[current.id] = text(current)
            current = m
        check(os.path.islink(full), '{}: not a link', what)
        equal(os.readlink(full), text(current), f'{what}: link after {verdict}')
        have = {n: os.readlink(os.path.join(trash, n)) for n in os.listdir(trash)}
        equal(have, {i.replace(':', '-').replace(' ', '-'): t for i, t in trashed.items()},
              f'{what}: trash')
        L, C, R = mem.make(s)
        got = L(full).cache.meta
        equal(got.id, current.id, f'{what}: id that is read')
        check(all(getattr(got, k) == getattr(current, k) for k in gen.FIELDS),
              '{}: read back as {} expected {}', what, short(got), short(current))
        equal(sorted(n for n in os.listdir(p.top) if n != mem.DATA_DIR), [case['name']],
              f'{what}: what is in the folder')
