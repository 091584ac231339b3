import os
from hypothesis import strategies as st
import mem
from framework import Violation, check, equal, outcome, short

from augpathlib import PathMeta, exceptions as exc

ID = 'D08'
COUNTS = {'quick': 4800, 'thorough': 40000}
RULE = ('mirrored trees of up to 7 nodes with local folders, files and links the remote '
        'does not know and remote nodes that are not mirrored, and 1 to 5 requests to make a '
        'remote for a local path (known, new, deep, below a file, outside), with or without '
        'those missing above.  Non-trivial: a folder was made in one that is not the root, '
        'or a request was refused.')
ASSUMPTIONS = ['the remote is an in memory subclass of RemotePath']

NAMES = ['a', 'b', 'c', 'x y', '.h', '\u00e9', 'a.b']


def strategy(tier):
    node = st.tuples(st.integers(0, 4), st.sampled_from(NAMES), st.booleans())
    name = st.sampled_from(NAMES)
    return st.fixed_dictionaries({
        'tree': st.lists(node, max_size=5),
        'hidden': st.lists(node, max_size=3),
        'local': st.lists(st.tuples(st.lists(name, min_size=1, max_size=3),
                                    st.sampled_from(['dir', 'dir', 'file', 'link', 'loop'])),
                          max_size=3),
        'ask': st.lists(st.tuples(st.lists(name, max_size=4), st.booleans(),
                                  st.sampled_from(['in', 'in', 'in', 'in', 'in', 'out'])),
                        min_size=1, max_size=5),
    })


def grow(s, nodes, start):
    dirs = [n.id for n in s.nodes.values() if n.data is None]
    for i, (parent, name, is_dir) in enumerate(nodes, start):
        p = dirs[parent % len(dirs)]
        if not s.taken(p, name):
            s.add(f'N:{i}', name, p, None if is_dir else b'data %d' % i)
            if is_dir:
                dirs.append(f'N:{i}')


def local_tree(top):
    out = {}
    for base, dirs, files in os.walk(top):
        if base == top:
            dirs.remove(mem.DATA_DIR)
        for n in dirs + files:
            full = os.path.join(base, n)
            rel = tuple(os.path.relpath(full, top).split('/'))
            if os.path.islink(full):
                out[rel] = 'link', os.readlink(full)
            elif os.path.isdir(full):
                out[rel] = 'dir', None
            else:
                with open(full, 'rb') as f:
                    out[rel] = 'file', f.read()
    return out


def run(case, ctx):
    p = mem.Project(ctx.scratch())
    s = p.store
    grow(s, case['tree'], 1)
    root = p.anchor()
    root.bootstrap(root.remote.meta, recursive=True)
    known = {s.path(i): i for i in s.nodes}  # what has a cache
    grow(s, case['hidden'], 50)
    outside = os.path.join(p.base, 'elsewhere')
    os.mkdir(outside)
    for parts, kind in case['local']:
        full = os.path.join(p.top, *parts)
        if os.path.lexists(full) or not os.path.isdir(os.path.dirname(full)):
            continue
        if kind == 'dir':
            os.mkdir(full)
            with open(os.path.join(full, 'mine'), 'w') as f:
                f.write('mine')
        elif kind == 'file':
            with open(full, 'w') as f:
                f.write('file')
        else:
            os.symlink(outside if kind == 'link' else parts[-1], full)

    def remote_tree():
        return {i: (s.path(i), n.data) for i, n in s.nodes.items()}

    for parts, parents, where in case['ask']:
        parts = tuple(parts)
        top = p.top if where == 'in' else os.path.join(p.base, 'out')
        full = os.path.join(top, *parts)
        tree = local_tree(p.top)
        remote = remote_tree()
        what = f'{parts} {where} parents={parents}'
        # parts of it that are known, and what is to be made
        new = []
        at = parts
        while at not in known and at:
            new.insert(0, at)
            at = at[:-1]
        refused = (where == 'out' or not new or
                   s.nodes[known[at]].data is not None or
                   len(new) > 1 and not parents or
                   any(s.taken(known[at], t[-1]) for t in new[:1]))
        blocked = not refused and [t for t in new if tree.get(t, ('dir',))[0] != 'dir']
        how, got = outcome(p.Local(full).mkdir_remote, parents=parents)
        if refused or blocked:
            ctx.nontrivial()
            ctx.note('refused')
            check(how == 'err', '{}: was not refused: {}', what, got)
            if blocked:  # what is above was made
                new = new[:new.index(blocked[0])]
            else:
                new = []
            if not refused:
                check(isinstance(got, (exc.PathExistsError, exc.RemotePathExistsError, OSError)), '{}: {!r}', what, got)
            elif where == 'in' and parts in known:
                check(isinstance(got, exc.RemotePathExistsError), '{}: {!r}', what, got)
        elif how == 'err':
            raise Violation(f'{what}: {got!r}')
        want = dict(tree)
        for t in new:
            want[t] = 'dir', None
        equal(local_tree(p.top), want, f'{what}: local tree')
        now = remote_tree()
        equal({i: v for i, v in now.items() if i in remote}, remote, f'{what}: remote nodes')
        made = {v[0]: i for i, v in now.items() if i not in remote}
        equal(sorted(made), sorted(new), f'{what}: what was made')
        known.update(made)
        if how == 'ok':
            ctx.note('made')
            if len(parts) > 1:
                ctx.nontrivial()
            equal(got.id, made[parts], f'{what}: id')
            equal(str(got.local), full, f'{what}: local of the remote')
        L, C, R = mem.make(s)
        for t, i in made.items():
            check(s.nodes[i].data is None, '{}: not a folder', t)
            q = os.path.join(p.top, *t)
            cache = L(q).cache
            check(cache is not None, '{}: {} has no cache', what, t)
            if cache.meta != PathMeta(**s.meta(i)):
                raise Violation(f'{what}: metadata of {t}: {short(cache.meta)}')
            equal(p.Local(q).remote.id, i, f'{what}: remote of {t}')
            equal(p.Local(q).remote.as_path().parts, t, f'{what}: path of the remote of {t}')
            check(p.Local(q).remote.cache == p.Local(q).cache, '{}: cache of the remote', what)
