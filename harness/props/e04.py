import os
from hypothesis import strategies as st
import gitlib
from gitlib import git
from framework import Violation, check, equal, outcome, describe
from props.e03 import NAMES, entry, content

from augpathlib import RepoPath

ID = 'E04'
COUNTS = {'quick': 1800, 'thorough': 30000}
RULE = ('two or three commits over up to 4 files (odd names, folders, links, '
        'executables), every combination of committed, staged and working '
        'content (also absent in any of them, also equal again to an earlier '
        'one, also the same size), and a sequence of change reports and '
        'differences between any two of working tree, index and revisions.  '
        'Non-trivial: for one of the files asked about two of the three differ.')

ASSUMPTIONS = ['names that begin with a colon are left out: GitPython itself does '
               'not parse the raw differences of such files']
PLAIN = [n for n in NAMES if not n.startswith(':')]


def setup(ctx):
    gitlib.setup(ctx)


def few():
    """ few contents, so that they are often equal and often of equal size """
    return st.one_of(
        st.sampled_from([('file', b'1\n'), ('file', b'2\n'), ('exec', b'1\n'),
                         ('file', b''), ('file', b'1'), ('link', b'a'), ('file', b'a'),
                         ('file', b'1\r\n'), ('file', b'\xff\0')]))


def strategy(tier):
    names = st.lists(st.sampled_from(PLAIN), min_size=1, max_size=4, unique=True)

    def more(ns):
        k = st.integers(0, len(ns) - 1)
        e = st.one_of(few(), few(), few(), st.none())
        changes = st.dictionaries(k, e, max_size=len(ns))
        ref = st.sampled_from([None, '', 'HEAD', 'HEAD~1', 'hex', 'tag'])
        return st.fixed_dictionaries({
            'names': st.just(ns),
            'history': st.lists(st.dictionaries(k, e, min_size=1, max_size=len(ns)),
                                min_size=2, max_size=3),
            'index': changes,
            'working': changes,
            'refresh': st.booleans(),
            'queries': st.lists(st.tuples(st.integers(-2, len(ns) - 1), ref, ref,
                                          st.booleans()), min_size=2, max_size=4),
            'where': st.sampled_from(['abs', 'abs', 'rel', 'via']),
        })

    return names.flatmap(more)


def run(case, ctx):
    root = os.path.join(ctx.scratch(), 'repo')
    gitlib.init(ctx, root)
    names = case['names']
    trees = []
    state = {}
    commits = []
    for i, changes in enumerate(case['history']):
        diff = {names[k]: e for k, e in sorted(changes.items())}
        state = {**state, **diff}
        state = {n: e for n, e in state.items() if e is not None}
        commits.append((f'commit {i}', diff))
        trees.append(state)
    ids = gitlib.fast_import(root, commits)
    git(root, 'reset', '-q', '--hard')
    git(root, 'update-ref', 'refs/tags/tag', ids[0])
    last = len(ids) - 1
    staged = {names[k]: e for k, e in case['index'].items()}
    gitlib.set_index(root, staged)
    idx = {n: e for n, e in {**state, **staged}.items() if e is not None}
    # the working tree follows the index in half of the cases
    if case['refresh']:
        working = {**staged, **{names[k]: e for k, e in case['working'].items()}}
    else:
        working = {names[k]: e for k, e in case['working'].items()}
    for n, e in working.items():
        gitlib.write(root, n, e)
    work = {n: e for n, e in {**state, **working}.items() if e is not None}
    equal(gitlib.index(root), idx, 'HARNESS index')
    equal(gitlib.working(root), work, 'HARNESS working tree')
    os.chdir(root)
    via = os.path.join(os.path.dirname(root), 'via')
    os.symlink('repo', via)

    def under(name):
        if name == '':
            return set(names)
        return {n for n in names if n == name or n.startswith(name + '/')}

    def places(ref):
        return {None: work, '': idx, 'HEAD': trees[last], 'HEAD~1': trees[last - 1],
                'hex': trees[0], 'tag': trees[0]}[ref]

    def differing(name, x, y):
        """ the files below name which differ between two places """
        a, b = places(x), places(y)
        known = None
        if x is None or y is None:
            # files git does not know about are not compared: what the index
            # has, and what the revision has (gone if the index lacks it)
            other = y if x is None else x
            known = set(idx) | set(places(other))
            wt = {n: e for n, e in work.items() if n in idx}
            a = wt if x is None else a
            b = wt if y is None else b
        return {n for n in under(name) if a.get(n) != b.get(n)
                and (known is None or n in known)}

    for k, ref, orig, patch in case['queries']:
        if k == -2:
            name = ''
        elif k == -1:
            name = 'sub'
        else:
            name = names[k]
        p = (RepoPath(root) / name if case['where'] == 'abs' else
             RepoPath(via) / name if case['where'] == 'via' else  # reached by a link
             RepoPath(name or '.'))
        full = os.path.join(root, name)
        if not os.path.lexists(full):
            how, got = outcome(p.modified)
            check(how == 'err' and isinstance(got, FileNotFoundError) or not got and how == 'ok'
                  and name == 'sub',
                  'modified of missing {!r}: {!r}', name, got)
            continue
        if not os.path.exists(full):
            continue  # a link to nowhere is treated as missing

        asked = [('modified', p.modified, '', None),
                 ('indexed', p.indexed, 'HEAD', ''),
                 ('has_uncommitted_changes', p.has_uncommitted_changes, 'HEAD', None),
                 (f'diff({ref!r}, {orig!r}, create_patch={patch})',
                  lambda: p.diff(ids[0] if ref == 'hex' else ref,
                                 ids[0] if orig == 'hex' else orig,
                                 create_patch=patch), ref, orig),
                 ('diff()', p.diff, '', None)]
        for call, func, x, y in asked:
            what = f'{call} of {name!r}'
            want = differing(name, x, y)
            if want:
                ctx.nontrivial(call.split('(')[0])
            how, got = outcome(func)
            check(how == 'ok', '{}: {}', what, describe(got) if how == 'err' else '')
            check(bool(got) == bool(want), '{}: {} but the files that differ are {}',
                  what, got, sorted(want))
            if got:
                paths = {q for q in (got.a_path, got.b_path) if q}
                # GitPython itself does not get every name right
                odd = any(set(n) & set('\n\t\\"\u00e9') or n.strip() != n for n in names)
                check(odd or paths <= want, '{}: reports {} but the files that differ are {}',
                      what, sorted(paths), sorted(want))
    equal(gitlib.index(root), idx, 'index afterwards')
    equal(gitlib.working(root), work, 'working tree afterwards')
