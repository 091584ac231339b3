import os
from hypothesis import strategies as st
import gen
import mem
from framework import Violation, check, equal, short, outcome

from augpathlib import PathMeta, LocalPath, exceptions as exc
from augpathlib.utils import LOCAL_DATA_DIR, SPARSE_MARKER

ID = 'D07'
COUNTS = {'quick': 8000, 'thorough': 60000}
RULE = ('local trees of up to 16 files, folders, metadata links and links to files, some of '
        'them tracked, with names that are ignored at the root (the default or others) or '
        'that resemble them, at the root and deeper, walked from the root and from every '
        'folder, with absolute paths or from a working folder in the project.  Non-trivial: '
        'an ignored name is at the root and the same name is somewhere else.')
ASSUMPTIONS = ['the links are links to files or metadata links',
               'the project is not inside of another project']

DEFAULT = (LOCAL_DATA_DIR, SPARSE_MARKER, '.git')
OTHER = (LOCAL_DATA_DIR, 'build', '.x')


def strategy(tier):
    def like(n):
        return [n, n, n + '2', n[1:], 'x' + n, n.upper() + '_', n + '.txt']
    names = st.sampled_from(['a', 'b', 'c d', '\u00e9', '-r', '[x]', '*', 'a.txt'] +
                            sum(map(like, ('.git', SPARSE_MARKER, 'build')), []) +
                            like(LOCAL_DATA_DIR) + ['.x', '..x'])
    node = st.tuples(st.integers(0, 5), names,
                     st.sampled_from(['file', 'file', 'dir', 'dir', 'dir', 'meta', 'link']),
                     st.booleans())
    top = st.tuples(st.just(0), names, st.sampled_from(['dir', 'dir', 'file']), st.booleans())

    def both(nodes):
        # the same names again somewhere else
        again = st.lists(st.tuples(st.integers(0, 5),
                                   st.sampled_from([n for _, n, _, _ in nodes]),
                                   st.sampled_from(['file', 'dir', 'meta']),
                                   st.booleans()), max_size=5)
        return st.tuples(st.just(nodes), st.lists(node, max_size=8), again).map(
            lambda t: t[0] + t[1] + t[2])

    return st.fixed_dictionaries({
        'tree': st.one_of(st.lists(node, max_size=16),
                          st.lists(top, min_size=1, max_size=4).flatmap(both)),
        'other': st.booleans(),
        'cwd': st.sampled_from([None, None, 'root', 'above', 'in']),
        'plain': st.sampled_from([False] * 5 + [True]),
    })


def run(case, ctx):
    ignore = OTHER if case['other'] else DEFAULT
    p = mem.Project(ctx.scratch(), cache_attrs={'cache_ignore': ignore})
    s = p.store
    p.anchor()
    top = p.top
    dirs = ['']
    tracked = set()
    for i, (parent, name, kind, track) in enumerate(case['tree']):
        rel = os.path.join(dirs[parent % len(dirs)], name)
        full = os.path.join(top, rel)
        if os.path.lexists(full):
            continue
        if kind == 'dir':
            os.mkdir(full)
            dirs.append(rel)
        elif kind == 'file':
            with open(full, 'w') as f:
                f.write('x')
        elif kind == 'link':
            os.symlink('/dev/null', full)
        else:
            s.add(f'N:m{i}', name, s.root, b'')
            os.symlink(str(PathMeta(**s.meta(f'N:m{i}')).as_symlink(local_name=name)), full)
            tracked.add(rel)
        if track and kind in ('dir', 'file'):
            s.add(f'N:t{i}', f'{i}', s.root, None if kind == 'dir' else b'')
            p.local(rel).cache_init(PathMeta(id=f'N:t{i}'))
            tracked.add(rel)

    def walk(rel, ignored=()):
        out = []
        base = os.path.join(top, rel)
        for n in os.listdir(base):
            if n in ignored:
                continue
            r = os.path.join(rel, n)
            out.append(r)
            f = os.path.join(top, r)
            if os.path.isdir(f) and not os.path.islink(f):
                out.extend(walk(r))
        return out

    everything = walk('')
    at_root = {n for n in os.listdir(top) if n in ignore}
    if at_root - {LOCAL_DATA_DIR} and any(
            os.path.basename(r) in at_root and os.sep in r for r in everything):
        ctx.nontrivial()

    Local = LocalPath if case['plain'] else p.Local
    ctx.note('plain' if case['plain'] else 'anchored')
    cwd = case['cwd']
    here = os.getcwd()
    deeper = [d for d in dirs if d]
    try:
        start = None
        if cwd == 'root':
            start = top
        elif cwd == 'above':
            start = os.path.dirname(top)
        elif cwd == 'in' and deeper:
            start = os.path.join(top, deeper[0])
        if start is not None:
            os.chdir(start)

        def local(rel):
            full = os.path.join(top, rel)
            return Local(full if start is None else os.path.relpath(full))

        def rels(paths):
            return sorted(os.path.normpath(os.path.relpath(str(q), top)) for q in paths)

        def norm(rs):
            return sorted(os.path.normpath(r) for r in rs)

        how = 'absolute' if start is None else f'from {cwd}'
        for d in dirs:
            skip = ignore if d == '' and not case['plain'] else ()
            what = f'{how} of {d!r}'
            equal(rels(local(d).children),
                  norm(os.path.join(d, n) for n in os.listdir(os.path.join(top, d))
                       if n not in skip), f'children {what}')
            equal(rels(local(d).rchildren), norm(walk(d, skip)), f'rchildren {what}')
        for r in everything:
            if not os.path.isdir(os.path.join(top, r)):
                equal(list(local(r).children), [], f'{how}: children of {r!r}')
                equal(list(local(r).rchildren), [], f'{how}: rchildren of {r!r}')
        if case['plain']:
            return

        for r in ['', *everything]:
            q = local(r)
            root = q.find_cache_root()
            check(root is not None, '{}: no cache root of {!r}', how, r)
            equal(os.path.abspath(str(root)), top, f'{how}: cache root of {r!r}')
            if r and r not in tracked and start is None:
                first = r.split(os.sep)[0]
                equal(q.skip_cache, first in ignore, f'{how}: skip_cache of {r!r}')
        missing = local('not/there')
        equal(os.path.abspath(str(missing.find_cache_root())), top,
              f'{how}: cache root of a path that is missing')
        equal(Local(os.path.dirname(top)).find_cache_root(), None, 'cache root outside')
        outside = Local(os.path.dirname(top))
        try:
            equal(outside.find_cache_root(fail=True), None, 'cache root outside when failing')
        except (exc.NotInProjectError, exc.NoCachedMetadataError):
            pass
        # by a link into the project from somewhere else
        elsewhere = os.path.join(os.path.dirname(top), 'elsewhere')
        os.mkdir(elsewhere)
        for i, d in enumerate(dirs):
            link = os.path.join(elsewhere, str(i))
            os.symlink(os.path.join(top, d), link)
            for name in [''] + os.listdir(link)[:2]:
                if name and os.path.join(d, name) in tracked:
                    continue  # outside of the project it starts one of its own
                if name and os.path.islink(os.path.join(link, name)):
                    continue  # goes on to somewhere else
                q = Local(os.path.join(link, name) if start is None else
                          os.path.relpath(os.path.join(link, name)))
                root = q.find_cache_root()
                check(root is not None, '{}: no cache root of {!r} by a link', how, name)
                check(os.path.samefile(root, top) or
                      os.path.samefile(root, link) and d in tracked,
                      '{}: cache root of {!r} by a link to {!r}: {}', how, name, d, root)
    finally:
        os.chdir(here)
