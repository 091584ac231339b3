import os
from hypothesis import strategies as st
import gen
import gitlib
from gitlib import git
from framework import Violation, check, equal, outcome, describe

from augpathlib import RepoPath, exceptions as exc

ID = 'E03'
COUNTS = {'quick': 1600, 'thorough': 30000}
RULE = ('linear histories of up to 8 commits over up to 5 files in folders '
        '(names with glob characters, colons, quotes, spaces, line breaks; '
        'contents with no, one or several final newlines, carriage returns, '
        'any bytes; links and executables; deletions), staged and working '
        'content on top, then show, commits and latest_commit for files and '
        'revisions, by absolute or relative path.  Non-trivial: more than one commit '
        'and more than one file.')

NAMES = ['a', 'b', 'a*', '[ab]', 'a?', 'sub/a', 'sub/b', 'sub/a*', ' sp ace ', '-n',
         "q'\"", '\u00e9', '0:a', ':a', ':(top)a', 'new\nline', 'tab\t', 'back\\slash',
         'HEAD', 'sub.d/x', '!a', '#a', 'a.txt', '$HOME']


def content():
    tail = st.sampled_from([b'', b'\n', b'\n\n', b'\r\n', b'\n \n', b'\r', b'\0', b'\xff'])
    return st.tuples(st.one_of(st.sampled_from([b'', b'x', b'\xff\xfe', b'a\nb']),
                               st.binary(max_size=12)), tail).map(lambda t: t[0] + t[1])


def entry():
    target = st.sampled_from([b'a', b'b', b'sub/a', b'nowhere'])
    return st.one_of(
        st.tuples(st.sampled_from(['file', 'file', 'file', 'exec']), content()),
        st.tuples(st.just('link'), target))


def setup(ctx):
    gitlib.setup(ctx)


def strategy(tier):
    names = st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True)

    def more(ns):
        k = st.integers(0, len(ns) - 1)
        change = st.dictionaries(k, st.one_of(entry(), entry(), st.none()),
                                 min_size=1, max_size=3)
        return st.fixed_dictionaries({
            'names': st.just(ns),
            'history': st.lists(change, min_size=1, max_size=8),
            # many more commits after these
            'long': st.sampled_from([0] * 24 + [60, 130]),
            'staged': st.dictionaries(k, st.one_of(entry(), st.none()), max_size=2),
            'working': st.dictionaries(k, st.one_of(entry(), st.none()), max_size=2),
            'queries': st.lists(st.tuples(
                k, st.integers(0, 8), st.sampled_from(
                    ['HEAD', 'tag', 'hex', 'short', 'back', 'branch'])),
                min_size=2, max_size=5),
            'where': st.sampled_from(['abs', 'abs', 'rel', 'cwd', 'dots', 'via']),
        })

    return names.flatmap(more)


def run(case, ctx):
    top = ctx.scratch()
    root = os.path.join(top, 'repo')
    gitlib.init(ctx, root)
    names = case['names']

    # the model: the tree after each commit and which commits change what
    trees = []
    touching = {n: [] for n in names}
    state = {}
    commits = []
    history = case['history'] + [{0: ('file', b'%d' % i)} for i in range(case['long'])]
    if case['long']:
        ctx.note('long')
    for i, changes in enumerate(history):
        new = dict(state)
        for k, e in sorted(changes.items()):
            if e is None:
                new.pop(names[k], None)
            else:
                new[names[k]] = e
        diff = {n: new.get(n) for n in names if new.get(n) != state.get(n)}
        commits.append((f'commit {i}', diff))
        for n in diff:
            touching[n].append(i)
        trees.append(new)
        state = new
    ids = gitlib.fast_import(root, commits)
    git(root, 'reset', '-q', '--hard')
    last = len(ids) - 1
    git(root, 'update-ref', 'refs/tags/tag', ids[last // 2])
    git(root, 'update-ref', 'refs/heads/side', ids[last // 2])
    gitlib.set_index(root, {names[k]: e for k, e in case['staged'].items()})
    idx = dict(state)
    for k, e in case['staged'].items():
        idx[names[k]] = e
    work = dict(state)
    for k, e in case['working'].items():
        gitlib.write(root, names[k], e)
        work[names[k]] = e

    os.chdir(root)
    via = os.path.join(top, 'via')
    os.symlink('repo', via)
    repo = None
    if len(ids) > 1 and len(names) > 1:
        ctx.nontrivial(case['where'])

    for k, n, form in case['queries']:
        name = names[k]
        n = min(n, last)
        if case['where'] == 'via':  # the repository is reached by a link
            p = RepoPath(via) / name
        elif case['where'] == 'abs':
            p = RepoPath(root) / name
        elif case['where'] == 'rel':
            p = RepoPath(name)
        elif case['where'] == 'dots':
            os.makedirs(os.path.join(root, 'dots'), exist_ok=True)
            p = RepoPath('dots', '..', name)
        else:
            os.makedirs(os.path.join(root, 'sub'), exist_ok=True)
            os.chdir(os.path.join(root, 'sub'))
            p = RepoPath(os.path.relpath(name, 'sub'))
        at = n
        if form == 'HEAD':
            ref, at = 'HEAD', last
        elif form == 'tag':
            ref, at = 'tag', last // 2
        elif form == 'branch':
            ref, at = 'side', last // 2
        elif form == 'hex':
            ref = ids[n]
        elif form == 'short':
            ref = ids[n][:12]
        else:
            ref = f'HEAD~{last - n}'

        what = f'{name!r} at {ref} (commit {at} of {last})'
        want = trees[at].get(name)
        how, got = outcome(p.show, ref)
        if want is None:
            check(how == 'err', 'show {}: not there but got {!r}', what, got)
        else:
            check(how == 'ok', 'show {}: {}', what, describe(got) if how == 'err' else '')
            equal(got, want[1], f'show {what}')
        want = idx.get(name)
        how, got = outcome(p.show)
        if want is None:
            check(how == 'err', 'show {!r} in the index: not there but got {!r}', name, got)
        else:
            check(how == 'ok', 'show {!r} in the index: {}', name,
                  describe(got) if how == 'err' else '')
            equal(got, want[1], f'show {name!r} in the index')
        want = work.get(name)
        if want is not None and want[0] != 'link':
            equal(p.show(None), want[1], f'show {name!r} in the working tree')

        if os.path.isdir(os.path.join(root, name)):
            continue
        for rev, to in ((None, last), (ref, at)):
            want = [ids[i] for i in reversed(touching[name]) if i <= to]
            got = [c.hexsha for c in p.commits(rev=rev)]
            equal(got, want, f'commits of {name!r} for {rev}')
            if len(want) > 1:
                ctx.note('several commits')
                got = [c.hexsha for c in p.commits(rev=rev, max_count=1)]
                equal(got, want[:1], f'one of the commits of {name!r} for {rev}')
            how, got = outcome(p.latest_commit, rev)
            if want:
                check(how == 'ok' and got.hexsha == want[0], 'latest commit of {!r} for '
                      '{}: {} expected {}', name, rev, got, want[0])
            else:
                check(how == 'err' and isinstance(got, exc.NoCommitsForFile),
                      'latest commit of {!r} for {}: {!r} expected none', name, rev, got)

    # folders
    for rel in ('', 'sub'):
        p = RepoPath(root) / rel
        if os.path.isdir(p):
            want = [ids[i] for i in range(last, -1, -1)
                    if any(rel == '' or n.startswith(rel + '/') for n in commits[i][1])]
            if rel == '' and any(not c[1] for c in commits):
                continue  # git lists empty commits without a path only
            equal([c.hexsha for c in p.commits()], want, f'commits of folder {rel!r}')
