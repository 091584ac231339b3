import os
from hypothesis import strategies as st
import gen
import mem
from framework import Violation, check, equal, short, outcome

from augpathlib import PathMeta, exceptions as exc

ID = 'D05'
COUNTS = {'quick': 9000, 'thorough': 60000}
RULE = ('a file (as it was fetched or edited), a link, or a folder (empty or not) is moved '
        'to another name, folder, or folder that is not there yet (one or two levels), '
        'by its remote or to a target with metadata, where nothing, a file or folder of the '
        'user, a file, folder or link of something else, or a link of the same thing may be, '
        'with absolute or relative paths, in one process or after a restart.  '
        'Non-trivial: the folder changes or something is at the target.')
ASSUMPTIONS = ['the metadata that is passed is of the same version, so that only the name '
               'and the parent differ',
               'two present files with the same id are left out']

KINDS = ['file', 'edited', 'link', 'dir', 'empty']
PLACES = ['same', 'root', 'b', 'c', 'new', 'new2']
OCCUPANTS = [None] * 6 + ['own file', 'own dir', 'own empty', 'file', 'edited', 'link', 'dir',
                          'empty', 'same', 'self']


def strategy(tier):
    return st.fixed_dictionaries({
        'kind': st.sampled_from(KINDS),
        'place': st.sampled_from(PLACES),
        'name': st.sampled_from(['s', 's', 'n', 'x y.z', '\u00e9', '.h', 'b']),
        'occupant': st.sampled_from(OCCUPANTS),
        'api': st.sampled_from(['remote', 'target']),
        'cwd': st.sampled_from([None, None, '.', 'a', '..']),
        'rel': st.sampled_from(['both', 'source', 'target']),
        'restart': st.booleans(),
        'newer': st.booleans(),
        'deep': st.integers(0, 2),
        'extra': st.booleans(),
    })


def fields(m):
    return {k: getattr(m, k) for k in gen.FIELDS if k not in ('name', 'parent_id')}


def snapshot(top):
    """ {path: (kind, inode, what is in it)} """
    out = {}
    for base, dirs, files in os.walk(top):
        if base == top:
            dirs.remove(mem.DATA_DIR)
        for n in dirs + files:
            full = os.path.join(base, n)
            rel = os.path.relpath(full, top)
            if os.path.islink(full):
                out[rel] = ('link', None, os.readlink(full))
                continue
            ino = os.stat(full).st_ino
            x = tuple(sorted((k, os.getxattr(full, k)) for k in os.listxattr(full)))
            if os.path.isdir(full):
                out[rel] = ('dir', ino, x)
            else:
                with open(full, 'rb') as f:
                    out[rel] = ('file', ino, x, f.read())
    return out


def run(case, ctx):
    p = mem.Project(ctx.scratch())
    s = p.store
    kind, occupant = case['kind'], case['occupant']
    s.add('N:a', 'a', s.root)
    s.add('N:b', 'b', s.root)
    s.add('N:c', 'c', 'N:b')
    s.add('N:z', 'z', 'N:a', b'zzz')
    s.add('N:s', 's', 'N:a', b'the source' if kind in ('file', 'edited', 'link') else None, 5)
    if case['extra']:  # known here and not given by the remote anymore
        s.nodes['N:s'].extra.update(user_id='U:1', checksum_cypher='sha256')
    if kind == 'dir':
        s.add('N:s1', 'one', 'N:s', b'one')
        s.add('N:s2', 'sub', 'N:s')
        s.add('N:s3', 'three', 'N:s2', b'three')
    root = p.anchor()
    root.bootstrap(root.remote.meta, recursive=True)

    def put(id, local):
        """ data that was fetched, and changed """
        if local in ('file', 'edited'):
            p.local(*s.path(id)).cache.fetch()
        if local == 'edited':
            with open(os.path.join(p.top, *s.path(id)), 'wb') as f:
                f.write(b'changed here ' + id.encode())

    put('N:s', kind)
    if kind == 'dir' and case['deep']:
        put('N:s3', 'edited' if case['deep'] == 2 else 'file')
    old = s.path('N:s')
    place, name = case['place'], case['name']
    if place in ('new', 'new2'):
        s.add('N:n1', 'new1', 'N:b')
        parent = 'N:n1'
        if place == 'new2':
            s.add('N:n2', 'new2', 'N:n1')
            parent = 'N:n2'
    else:
        parent = {'same': 'N:a', 'root': s.root, 'b': 'N:b', 'c': 'N:c'}[place]
    new = (*s.path(parent), name)
    full = os.path.join(p.top, *new)
    if os.path.lexists(full) and new != old:
        occupant = 'there'
    elif occupant == 'self' or new == old:
        occupant, new, name, parent, full = 'self', old, 's', 'N:a', os.path.join(p.top, *old)
    elif place in ('new', 'new2'):
        occupant = None
    elif occupant is not None:
        if occupant == 'own file':
            with open(full, 'wb') as f:
                f.write(b'of the user')
        elif occupant in ('own dir', 'own empty'):
            os.mkdir(full)
            if occupant == 'own dir':
                with open(os.path.join(full, 'f'), 'wb') as f:
                    f.write(b'of the user')
        elif occupant == 'same':  # a link for the same thing is already there
            n = s.nodes['N:s']
            was, n.name, n.parent = (n.name, n.parent), name, parent
            if n.data is None:
                return
            meta = PathMeta(**s.meta('N:s'))
            os.symlink(str(meta.as_symlink(local_name=name)), full)
            n.name, n.parent = was
        else:
            s.add('N:o', name, parent, None if occupant in ('dir', 'empty') else b'occupant',
                  9 if case['newer'] else 2)
            if occupant == 'dir':
                s.add('N:o1', 'o1', 'N:o', b'in it')
            L, C, R = mem.make(s)
            L(p.top).cache.anchorClassHere()
            R('N:o').cache_init()
            if occupant == 'dir':
                R('N:o1').cache_init()
            if occupant in ('file', 'edited'):
                L(full).cache.fetch()
            if occupant == 'edited':
                with open(full, 'wb') as f:
                    f.write(b'the occupant was changed')
            s.nodes['N:o'].name, s.nodes['N:o'].parent = 'elsewhere', 'N:a'  # since then
    if occupant or parent != 'N:a':
        ctx.nontrivial()
    ctx.note(f'{kind} by {case["api"]}', f'occupied by {occupant}')
    what = f'{kind} by {case["api"]} to {"/".join(new)!r} occupied by {occupant}'

    # the remote moved it
    n = s.nodes['N:s']
    n.extra.clear()
    n.name, n.parent = name, parent
    Local = p.Local
    if case['restart']:
        Local, C, R = mem.make(s)
        Local(p.top).cache.anchorClassHere()

    top = p.top
    before = snapshot(top)
    oldrel, newrel = '/'.join(old), '/'.join(new)
    src, dst = os.path.join(top, oldrel), full
    here = os.getcwd()
    try:
        if case['cwd'] is not None:
            os.chdir(os.path.join(top, case['cwd']))
            if case['rel'] != 'target':
                src = os.path.relpath(src)
            if case['rel'] != 'source':
                dst = os.path.relpath(dst)
        cache = Local(src).cache
        check(cache is not None, '{}: no cache', what)
        was = cache.meta
        if case['api'] == 'remote':
            tag, got = outcome(cache.move, remote=cache.remote)
        else:
            tag, got = outcome(cache.move, target=Local(dst), meta=PathMeta(**s.meta('N:s')))
        where = os.path.abspath(str(got)) if tag == 'ok' else None
    finally:
        os.chdir(here)
    after = snapshot(top)

    if occupant == 'self':
        check(tag == 'ok', '{}: failed {!r}', what, got)
        equal(after, before, f'{what}: tree')
        return
    if occupant == 'link':
        # a link may be replaced by something newer, and is kept in the trash
        if tag == 'err':
            check(isinstance(got, (exc.WhyDidntThisGetMovedBeforeError, exc.PathExistsError,
                                   FileExistsError)), '{}: {!r}', what, got)
            equal(after, before, f'{what}: tree after it was refused')
            return
        check(case['newer'] is False, '{}: replaced something newer', what)
        kept = os.path.join(top, mem.DATA_DIR, 'trash', 'N-o')
        check(os.path.islink(kept), '{}: the link that was replaced is not in the trash', what)
        equal(os.readlink(kept), before[newrel][2], f'{what}: link in the trash')
    elif occupant is not None and occupant != 'same':
        check(tag == 'err' and isinstance(got, exc.PathExistsError),
              '{}: was not refused {!r}', what, got)
        equal(after, before, f'{what}: tree after it was refused')
        return

    check(tag == 'ok', '{}: failed {!r}', what, got)
    equal(where, full, f'{what}: path that is returned')
    missing = {'new': ['N:n1'], 'new2': ['N:n1', 'N:n2']}.get(place, [])
    expected = {}
    for k, v in before.items():
        if (k + '/').startswith(oldrel + '/'):
            k = newrel + k[len(oldrel):]
        elif k == newrel:
            continue
        expected[k] = v
    for i in missing:
        expected['/'.join(s.path(i))] = None
    equal(sorted(after), sorted(expected), f'{what}: paths')
    for k, v in expected.items():
        if v is not None and (k != newrel or v[0] != 'link'):
            if k == newrel:  # the attributes are compared below
                equal(after[k][:2] + after[k][3:], v[:2] + v[3:], f'{what}: at {k!r}')
            else:
                equal(after[k], v, f'{what}: at {k!r}')
    L, C, R = mem.make(s)
    cache = L(full).cache
    check(cache is not None, '{}: no metadata at the target', what)
    have = fields(cache.meta)
    if occupant == 'link':
        have['old_id'] = None
    equal(have, fields(was), f'{what}: metadata at the target')
    if kind == 'link':
        equal(after[newrel][0], 'link', f'{what}: kind')
    for i in missing:
        c = L(top, *s.path(i)).cache
        check(c is not None, '{}: no metadata at {}', what, s.path(i))
        equal(c.meta, PathMeta(**s.meta(i)), f'{what}: metadata of {s.path(i)}')
    equal(Local(full).cache.id, 'N:s', f'{what}: id at the target')
