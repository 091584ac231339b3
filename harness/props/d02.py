import os
from hypothesis import strategies as st
import gen
import mem
from framework import Violation, check, equal, short

from augpathlib import PathMeta, exceptions as exc

ID = 'D02'
COUNTS = {'quick': 7200, 'thorough': 40000}
RULE = ('random remote trees (up to 14 files and folders, names with dots, spaces and '
        'letters of any script, the name of the project again below it) mirrored into a '
        'folder by a bootstrap from the root, of one folder with a selection (skip, only, '
        'sparse), or by walking children; some files are fetched and it is done '
        'again after more was added to the remote, metadata of some nodes and names and '
        'places of some folders were changed there, and folders were removed there or '
        'paths unknown to it made locally.  Non-trivial: at least '
        'two levels of folders and a file.')
ASSUMPTIONS = ['names and ids have none of the characters reserved by the link format',
               'the remote is an in memory subclass of RemotePath',
               'selections are applied to a folder below the root (for the root '
               'they are applied by the remote)']

NAMES = ['a', 'b', 'proj', 'c.txt', 'd.x', 'e.x', '.h', 'x y', '-n', 'a.b.c', '\u00e9\u4e2d', 'Z']


def strategy(tier):
    node = st.tuples(st.integers(0, 6), st.sampled_from(NAMES),
                     st.one_of(st.none(), st.none(), st.integers(0, 9000)))
    return st.fixed_dictionaries({
        'tree': st.lists(node, min_size=1, max_size=14),
        'more': st.lists(node, max_size=3),
        'how': st.sampled_from(['root', 'root', 'root', 'root', 'children', 'rchildren', 'folder', 'skip', 'only',
                                'onlyin', 'sparse', 'notsparse', 'inits', 'parents',
                                'skiponly', 'skipother', 'sparseskip']),
        'top': st.integers(0, 3),
        'fetch': st.lists(st.integers(0, 10), max_size=3),
        'again': st.integers(0, 2),
        # what changes in between that has nothing to do with content
        'other': st.lists(st.tuples(st.integers(0, 10), st.sampled_from(['user_id', 'gid']),
                                    st.integers(1, 9)), max_size=3),
        # and what happened to folders
        'moved': st.lists(st.tuples(st.sampled_from(['rename', 'move', 'keep', 'remove', 'mine']),
                                    st.integers(0, 6), st.integers(0, 6)), max_size=4),
    })


def reorder(store, top, moves, mine):
    """ rename, move and remove folders at the remote (no name that was used before is
        used again for something else) and make local ones that it does not know """
    def used():
        for n in store.nodes.values():
            yield store.path(n.id)
            yield n.parent, n.name

    before = set(used())
    for k, (kind, a, b) in enumerate(moves):
        dirs = [n for n in store.nodes.values() if n.data is None and n.id != store.root]
        if not dirs:
            break
        n = dirs[a % len(dirs)]
        to = [store.root, *(d.id for d in dirs if not store.inside(d.id, n.id))]
        to = to[b % len(to)]
        if kind == 'mine':
            path = os.path.join(top, *store.path(n.id), f'M{k}')
            if os.path.isdir(os.path.dirname(path)) and n.id not in mine:
                what = ('dir', 'dir', 'file', 'link')[b % 4]
                if what == 'dir':
                    os.mkdir(path)
                elif what == 'file':
                    open(path, 'x').close()
                else:
                    os.symlink(('no/where', 'nowhere', f'M{k}', '/no/no')[a % 4], path)
                mine[n.id] = f'M{k}', what
            continue
        elif kind == 'remove':
            for i in [n.id, *(m.id for m in store.below(n.id))]:
                mine.pop(i, None)
            store.remove(n.id)
        elif kind == 'rename':
            n.name = f'R{k}'
        elif kind == 'move':
            n.name, n.parent = f'M{k}', to
        else:
            path = (*store.path(to), n.name)
            if path in before or (to, n.name) in before or store.taken(to, n.name):
                continue
            n.parent = to
        before.update(used())
    return before


def grow(store, nodes, start, before=()):
    """ add the nodes, names that are taken are left out """
    dirs = [n.id for n in store.nodes.values() if n.data is None]
    for i, (parent, name, size) in enumerate(nodes, start):
        p = dirs[parent % len(dirs)]
        if store.taken(p, name) or (p, name) in before or (
                (*store.path(p), name) in before):
            continue
        data = None if size is None else gen.blob(size, i)
        store.add(f'N:{i}', name, p, data)
        if data is None:
            dirs.append(f'N:{i}')


def entries(top):
    """ {path: 'dir', 'file' or 'link'} below top without what is ours """
    out = {}
    for base, dirs, files in os.walk(top):
        if base == top:
            dirs.remove(mem.DATA_DIR)
        for n in dirs + files:
            full = os.path.join(base, n)
            out[os.path.relpath(full, top)] = (
                'link' if os.path.islink(full) else
                'dir' if os.path.isdir(full) else 'file')
    return out


def expect(store, ids, fetched=()):
    out = {}
    for i in ids:
        n = store.nodes[i]
        out['/'.join(store.path(i))] = ('dir' if n.data is None else
                                        'file' if i in fetched else 'link')
    return out


def run(case, ctx):
    p = mem.Project(ctx.scratch())
    s = p.store
    grow(s, case['tree'], 1)
    root = p.anchor()
    how = case['how']
    ctx.note(how)
    everything = [i for i in s.nodes if i != s.root]
    folders = [n.id for n in s.children(s.root) if n.data is None]
    if any(len(s.path(i)) > 1 and s.nodes[i].data is None for i in everything) and any(
            s.nodes[i].data is not None for i in everything):
        ctx.nontrivial()

    sparse_top = None
    if how in ('folder', 'skip', 'only', 'onlyin', 'sparse', 'notsparse', 'skiponly', 'skipother',
               'sparseskip'):
        if not folders:
            return
        top = folders[case['top'] % len(folders)]
        remote = p.Remote(top)
        remote.cache_init()
        below = [n.id for n in s.below(top)]
        kw = {'folder': {}, 'skip': {'skip': (top,)}, 'only': {'only': ('N:none',)},
              'onlyin': {'only': ('N:none', top)}, 'sparse': {'sparse': ('N:none', top)},
              'notsparse': {'sparse': ('N:none',)},
              'skiponly': {'skip': ('N:none', top), 'only': (top,)},
              'skipother': {'skip': ('N:none',), 'only': (top,)},
              'sparseskip': {'sparse': (top,), 'skip': (top,)}}[how]
        done = remote.bootstrap(recursive=True, **kw)
        if how in ('skip', 'only', 'skiponly', 'sparseskip'):
            want = []
            equal(done, [], f'{how}: what was made')
        elif how == 'sparse':
            want = [i for i in below if s.nodes[i].data is None or
                    s.nodes[i].name.endswith('.x')]
            sparse_top = top
        else:
            want = below
        ids = [top, *want]
    elif how == 'root':
        done = root.bootstrap(root.remote.meta, recursive=True)
        equal(sorted(c.id for c in done), sorted([*everything, s.root]), 'what was made')
        ids = everything
    elif how == 'rchildren':
        done = list(root.rchildren)
        equal(sorted(c.id for c in done), sorted(everything), 'what was listed')
        ids = everything
    elif how == 'children':
        ids = []
        todo = [root]
        while todo:
            c = todo.pop()
            for child in c.children:
                ids.append(child.id)
                if child.is_dir():
                    todo.append(child)
        equal(sorted(ids), sorted(everything), 'what was listed')
    elif how == 'inits':  # one at a time, parents first
        ids = everything
        for i in ids:
            p.Remote(i).cache_init()
    else:  # one deep one with all that is above it
        ids = everything[-1:]
        if ids:
            remote = p.Remote(ids[0])
            remote.cache_init(parents=True)
            while s.nodes[ids[0]].parent != s.root:
                ids.insert(0, s.nodes[ids[0]].parent)

    def compare(ids, fetched, what, mine={}):
        want = expect(s, (i for i in ids if i != s.root), fetched)
        want.update({'/'.join((*s.path(i), name)): kind for i, (name, kind) in mine.items()})
        equal(entries(p.top), want, f'{what} {how}: local tree')
        # as another process with its own classes sees it
        L, C, R = mem.make(s)
        for i in ids:
            full = os.path.join(p.top, *s.path(i))
            cache = L(full).cache
            check(cache is not None, '{} {}: {} has no cache', what, how, s.path(i))
            m = PathMeta(**s.meta(i))
            if cache.meta != m:
                raise Violation(f'{what} {how}: metadata of {s.path(i)} is '
                                f'{short(cache.meta)} expected {short(m)}')
            local = p.Local(full)
            equal(local.cache.id, i, f'{what} {how}: id of {s.path(i)}')
            equal(local.remote.id, i, f'{what} {how}: remote of {s.path(i)}')
            equal(local.remote.as_path().as_posix(), '/'.join(s.path(i)) or '.',
                  f'{what} {how}: path of the remote')
            check(local.remote.cache == local.cache, '{}: cache of the remote', what)
            equal(local.find_cache_root(), p.Local(p.top), f'{what} {how}: cache root')
            if i in fetched:
                with open(full, 'rb') as f:
                    equal(f.read(), s.nodes[i].data, f'{what} {how}: content of {s.path(i)}')

    compare(ids, (), 'after')
    if sparse_top is not None:
        for i in ids:
            local = p.local(*s.path(i))
            check(local.is_sparse(), '{} below the sparse folder is not sparse', s.path(i))
            check(local.cache.is_sparse(), 'cache of {} is not sparse', s.path(i))
    else:
        for i in ids:
            check(not p.local(*s.path(i)).is_sparse(), '{} is sparse', s.path(i))
    check(not p.root.local.is_sparse(), 'root is sparse')

    files = [i for i in ids if s.nodes[i].data is not None]
    fetched = set()
    for k in case['fetch']:
        if files:
            i = files[k % len(files)]
            p.local(*s.path(i)).cache.fetch()
            fetched.add(i)
    compare(ids, fetched, 'after fetching')

    mine = {}
    if how == 'root':
        for k in range(case['again']):
            if k == 0:
                # mine first, the paths are those of the first time
                moves = sorted(case['moved'], key=lambda m: m[0] != 'mine')
                before = reorder(s, p.top, moves, mine)
                if any(m[0] != 'mine' for m in moves):
                    ctx.note('moved')
                grow(s, case['more'], 100, before)
                for i, field, value in case['other']:
                    nodes = list(s.nodes.values())
                    nodes[i % len(nodes)].extra[field] = value
            calls = len(s.calls)
            root.bootstrap(root.remote.meta, recursive=True)
            equal(len(s.calls), calls, 'transfers made by a bootstrap')
            ids = [i for i in s.nodes if i != s.root]
            ctx.note('again')
            compare([s.root, *ids], {i for i in fetched if i in s.nodes}, 'again', mine)
