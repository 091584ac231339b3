import os
from hypothesis import strategies as st
import gen
import mem
from framework import Violation, check, equal, outcome, rejects, short

from augpathlib import PathMeta, RemotePath, exceptions as exc

ID = 'D11'
COUNTS = {'quick': 4500, 'thorough': 40000}
RULE = ('random remote trees (up to 10 files and folders, the same names at several levels, '
        'the name of the project again below it) mirrored completely, with local things the '
        'remote does not know, some of them in tracked folders, and some files fetched; each '
        'path spelled absolute, relative to the project, to a folder in it or to the folder '
        'it is in; the project reached through a link; children reached by name and by remote; everything asked twice and in '
        'random order.  Non-trivial: three levels, and a relative spelling or a name that '
        'occurs twice.')
ASSUMPTIONS = ['names and ids have none of the characters reserved by the link format',
               'the remote is an in memory subclass of RemotePath']

NAMES = ['a', 'a', 'b', 'proj', 'c.txt', 'a.txt', '.h', 'x y', '-n', '\u00e9']


def strategy(tier):
    node = st.tuples(st.integers(0, 4), st.sampled_from(NAMES),
                     st.one_of(st.none(), st.none(), st.integers(0, 5000)))
    deep = st.tuples(st.just(-1), st.sampled_from(NAMES[:4]), st.none())
    return st.fixed_dictionaries({
        'tree': st.tuples(st.lists(deep, max_size=3), st.lists(node, min_size=1, max_size=8)).map(
            lambda t: t[0] + t[1]),
        'mine': st.lists(st.tuples(st.integers(0, 6), st.sampled_from(NAMES + ['mine']),
                                   st.sampled_from(['file', 'dir', 'link'])), max_size=3),
        'fetch': st.lists(st.integers(0, 8), max_size=2),
        'cwd': st.sampled_from(['abs', 'abs', 'top', 'in', 'above']),
        'link': st.booleans(),
        'at': st.integers(0, 6),
        'asks': st.lists(st.tuples(st.integers(0, 12), st.integers(0, 12), st.sampled_from(
            ['local', 'cache', 'remote', 'parent', 'parents', 'child', 'children', 'remotechild',
             'nothing', 'fields', 'other', 'again'])), min_size=6, max_size=20),
    })


def place(path):
    """ what is above it resolved, it can be a link itself """
    above, name = os.path.split(os.path.abspath(str(path)))
    return os.path.join(os.path.realpath(above), name)


def run(case, ctx):
    base = ctx.scratch()
    if case['link']:
        os.mkdir(os.path.join(base, 'real'))
        os.symlink('real', os.path.join(base, 'link'))
        base = os.path.join(base, 'link')
    p = mem.Project(base)
    s = p.store
    dirs = [s.root]
    for i, (parent, name, size) in enumerate(case['tree']):
        at = dirs[parent % len(dirs)]
        if s.taken(at, name):
            continue
        data = None if size is None else gen.blob(size, i)
        s.add(f'N:{i}', name, at, data)
        if data is None:
            dirs.append(f'N:{i}')
    root = p.anchor()
    root.bootstrap(root.remote.meta, recursive=True)
    ids = list(s.nodes)
    path = {i: s.path(i) for i in ids}
    full = {i: os.path.join(p.top, *path[i]) for i in ids}
    files = [i for i in ids if s.nodes[i].data is not None]
    for k in case['fetch']:
        if files:
            p.local(*path[files[k % len(files)]]).cache.fetch()
    mine = []
    for k, name, kind in case['mine']:
        f = os.path.join(full[dirs[k % len(dirs)]], name)
        if os.path.lexists(f):
            continue
        mine.append(f)
        if kind == 'dir':
            os.mkdir(f)
        elif kind == 'file':
            open(f, 'x').close()
        else:
            os.symlink('nowhere', f)

    start = None
    if case['cwd'] == 'top':
        start = p.top
    elif case['cwd'] == 'above':
        start = os.path.dirname(p.top)
    elif case['cwd'] == 'in':
        start = full[dirs[case['at'] % len(dirs)]]
    if start is not None:
        os.chdir(start)
    inside = start is not None and (start + '/').startswith(p.top + '/')

    def spelled(f):
        if start is None:
            return f
        return os.path.relpath(f, start)

    def local(i):
        return p.Local(spelled(full[i]))

    levels = max(len(path[i]) for i in ids)
    names = [s.nodes[i].name for i in ids]
    if levels > 2 and (start is not None or len(set(names)) < len(names)):
        ctx.nontrivial()
    ctx.note(case['cwd'])

    def same(got, i, what):
        """ any of the views of a path is of node i and of the right class """
        check(got is not None, '{}: nothing', what)
        if isinstance(got, RemotePath):
            check(isinstance(got, p.Remote), '{}: is a {}', what, type(got))
            equal(got.id, i, f'{what}: id')
            equal(got.as_path().as_posix(), '/'.join(path[i]) or '.', f'{what}: path')
            equal(tuple(got.parts), path[i], f'{what}: parts')
            equal(got.name, s.nodes[i].name, f'{what}: name')
        elif isinstance(got, p.Cache):
            equal(place(got), place(full[i]), f'{what}: path')
            equal(got.id, i, f'{what}: id')
            equal(got.meta, PathMeta(**s.meta(i)), f'{what}: metadata')
        else:
            check(isinstance(got, p.Local), '{}: is a {}', what, type(got))
            equal(place(got), place(full[i]), f'{what}: path')
            equal(got.cache_id, i, f'{what}: id')

    made = {}
    for a, b, ask in case['asks']:
        i = ids[a % len(ids)]
        n = s.nodes[i]
        what = f'{ask} of {"/".join(path[i])!r} from {case["cwd"]}'
        l = made.get(i) if b % 2 else None
        if l is None:
            l = made[i] = local(i)
        if ask == 'local':
            same(l, i, what)
            same(l.cache.local, i, what + ' cache')
            same(l.remote.local, i, what + ' remote')
            same(l.cache.remote.cache.local, i, what + ' round')
        elif ask == 'cache':
            same(l.cache, i, what)
            same(l.remote.cache, i, what + ' remote')
            same(l.cache.local.cache, i, what + ' local')
            same(l.cache.remote.cache, i, what + ' round')
            equal(l.cache, l.remote.cache, what + ' equal')
        elif ask == 'remote':
            same(l.remote, i, what)
            same(l.cache.remote, i, what + ' cache')
            equal(l.remote, l.cache.local.remote, what + ' equal')
            same(l.remote.anchor, s.root, what + ' anchor')
            equal(l.remote == p.Remote(ids[b % len(ids)]), ids[b % len(ids)] == i,
                  what + ' is another')
        elif ask in ('parent', 'parents'):
            above = []
            k = n.parent
            while k is not None:
                above.append(k)
                k = s.nodes[k].parent
            remote = l.remote
            if ask == 'parents':
                equal([r.id for r in remote.parents], above, what)
                for r, k in zip(remote.parents, above):
                    same(r, k, what)
            elif above:
                equal(remote.parent_id, above[0], what + ' id')
                same(remote.parent, above[0], what + ' remote')
                if start is None:
                    same(l.parent, above[0], what + ' local')
                    same(l.parent.cache, above[0], what + ' local cache')
                    same(l.cache.parent, above[0], what + ' cache')
                    equal(l.cache.meta.parent_id, above[0], what + ' recorded')
        elif ask == 'child':
            for c in s.children(i):
                same(l / c.name, c.id, what)
                same((l / c.name).cache, c.id, what + ' cache')
                same(l.cache / c.name, c.id, what + ' by name')
        elif ask == 'children':
            if n.data is None:
                equal(sorted(c.id for c in s.children(i)),
                      sorted(c.cache_id for c in l.children if c.cache is not None), what)
                equal(sorted(c.id for c in s.children(i)),
                      sorted(c.id for c in l.cache.children), what + ' cache')
        elif ask == 'remotechild':
            for c in s.children(i):
                same(l.cache / p.Remote(c.id), c.id, what)
        elif ask == 'nothing':
            with rejects(FileNotFoundError, what=what):
                l.cache / 'no such thing'
            for wrong in (None, 3, b'a'):
                with rejects(TypeError, what=what):
                    l.cache / wrong
        elif ask == 'fields':
            equal(l.cache.meta.size, None if n.data is None else len(n.data), what + ' size')
            equal(place(l.cache.anchor), place(p.root), what + ' anchor')
            equal(place(l.find_cache_root()), place(p.top), what + ' root')
            equal(l.cache.is_dir(), n.data is None, what + ' folder')
            equal(l.remote.is_dir(), n.data is None, what + ' remote folder')
            equal(l.remote.is_file(), n.data is not None, what + ' remote file')
        elif ask == 'other' and mine:
            f = mine[b % len(mine)]
            q = p.Local(spelled(f))
            equal(q.cache, None, f'cache of {f} that is not tracked')
        elif ask == 'again':
            made.clear()
