import os
from hypothesis import strategies as st
import gitlib
from gitlib import git
from framework import Violation, check, equal, outcome, describe
from props.e04 import few

from augpathlib import RepoPath, exceptions as exc

ID = 'E05'
COUNTS = {'quick': 700, 'thorough': 20000}
RULE = ('two branches with different content, every combination of '
        'staged, unstaged, deleted, untracked and ignored files before, earlier '
        'stashes, up to two visits of the same or the other branch with edits, '
        'new files, stagings, commits, stashes and branch switches inside, left '
        'normally or by an exception, also a branch that cannot be checked '
        'out.  Non-trivial: something is uncommitted before.')

NAMES = ['a', 'b', 'sub/c', 'd e', '\u00e9', 'x.ign', 'sub/y.ign', "q'", '-n']


class Boom(Exception):
    pass


def setup(ctx):
    gitlib.setup(ctx)


def strategy(tier):
    k = st.integers(0, len(NAMES) - 1)
    e = st.one_of(few(), few(), st.none())
    # a name that is only ever made inside, so commits on the branch that is
    # left uncommitted do not conflict with what was there before
    inside = st.one_of(
        st.tuples(st.sampled_from(['write', 'write', 'add']), k, e),
        st.tuples(st.just('commit'), st.just(0), few()),
        st.tuples(st.just('stash'), k, few()),
        st.tuples(st.just('switch'), st.just(0), st.none()),
    )
    return st.fixed_dictionaries({
        'master': st.dictionaries(k, few(), max_size=5),
        'other': st.dictionaries(k, e, max_size=5),
        'stashes': st.integers(0, 2),
        'index': st.dictionaries(k, e, max_size=4),
        'working': st.dictionaries(k, e, max_size=4),
        'visits': st.lists(st.tuples(
            st.sampled_from(['other', 'other', 'master', 'third']),
            st.lists(inside, max_size=4),
            st.sampled_from([False, False, True])), min_size=1, max_size=2),
        'locked': st.sampled_from([False] * 5 + [True]),
    })


def run(case, ctx):
    root = os.path.join(ctx.scratch(), 'repo')
    gitlib.init(ctx, root)
    base = {NAMES[k]: e for k, e in sorted(case['master'].items())}
    base['.gitignore'] = 'file', b'*.ign\n'
    change = {NAMES[k]: e for k, e in sorted(case['other'].items())}
    first, = gitlib.fast_import(root, [('base', base)])
    gitlib.fast_import(root, [('other', change)], branch='other', parent=first)
    git(root, 'update-ref', 'refs/heads/third', first)
    git(root, 'reset', '-q', '--hard')
    for i in range(case['stashes']):
        gitlib.write(root, 'for-the-stash', ('file', b'%d' % i))
        git(root, 'stash', 'push', '-q', '-u')
    gitlib.set_index(root, {NAMES[k]: e for k, e in case['index'].items()})
    for k, e in case['index'].items():
        # the working tree follows, so that states a stash cannot hold (a
        # file only in the index, one that is untracked and in HEAD) are left out
        gitlib.write(root, NAMES[k], e)
    staged = gitlib.index(root)
    for k, e in case['working'].items():
        if e is None and k in case['index']:
            continue
        if NAMES[k] in base and NAMES[k] not in staged:
            continue
        gitlib.write(root, NAMES[k], e)
    repo = RepoPath(root).repo
    if case['locked']:
        # git refuses to check out a branch that is checked out elsewhere
        git(root, 'worktree', 'add', '-q', root + '-elsewhere', 'other')

    number = 0
    for ref, ops, fail in case['visits']:
        work = gitlib.working(root)
        index = gitlib.index(root)
        tree = gitlib.tree(root)
        if work != tree or index != tree:
            ctx.nontrivial(ref)
        if set(work) - set(index):
            ctx.note('untracked')
        target = gitlib.tree(root, ref)
        stashes = git(root, 'stash', 'list', '--format=%H').split()

        def visit():
            nonlocal number
            with repo.getRef(ref):
                equal(git(root, 'symbolic-ref', 'HEAD').decode().strip(),
                      f'refs/heads/{ref}', 'branch inside')
                equal(gitlib.working(root), target, f'working tree inside of {ref}')
                equal(gitlib.index(root), target, f'index inside of {ref}')
                for op, k, e in ops:
                    name = NAMES[k]
                    if op in ('write', 'add'):
                        gitlib.write(root, name, e)
                        if op == 'add':
                            git(root, 'add', '-A', '-f', '--', name, ok=True)
                    elif op == 'commit':
                        number += 1
                        new = f'new{number}'
                        gitlib.write(root, new, e)
                        git(root, 'add', new)
                        git(root, 'commit', '-q', '-m', new, '--', new)
                    elif op == 'stash':
                        gitlib.write(root, name, e)
                        git(root, 'stash', 'push', '-q', '-u', ok=True)
                    elif op == 'switch':
                        git(root, 'stash', 'push', '-q', '-a', ok=True)
                        git(root, 'checkout', '-q', 'third', ok=True)
                if fail:
                    raise Boom

        how, got = outcome(visit)
        if case['locked'] and ref == 'other':
            ctx.note('checkout fails')
            check(how == 'err' and not isinstance(got, (Violation, Boom)),
                  'a branch that cannot be checked out was visited: {!r}', got)
        elif fail:
            if how == 'err' and isinstance(got, Violation):
                raise got
            check(how == 'err' and isinstance(got, Boom), 'leaving {} by an exception: {}',
                  ref, describe(got) if how == 'err' else 'it was lost')
            ctx.note('exception')
        elif how == 'err':
            raise got
        what = f'after {ref}'
        equal(git(root, 'symbolic-ref', 'HEAD').decode().strip(), 'refs/heads/master',
              f'branch {what}')
        now = gitlib.working(root)
        extra = {}
        if ref == 'master':
            # what was committed inside is there
            new = gitlib.tree(root)
            extra = {n: e for n, e in new.items() if n not in tree}
        equal(now, {**work, **extra}, f'working tree {what}')
        equal(gitlib.index(root), {**index, **extra}, f'index {what}')
        left = git(root, 'stash', 'list', '--format=%H').split()
        check(left[len(left) - len(stashes):] == stashes, 'stashes {}: {} expected the '
              'earlier {} to remain', what, left, stashes)

    # a ref that is not there
    bad = repo_ref(repo, 'gone')
    before = gitlib.working(root)
    how, got = outcome(bad.__enter__)
    check(how == 'err' and isinstance(got, exc.InvalidRefError),
          'entering a ref that does not exist: {!r}', got)
    equal(gitlib.working(root), before, 'working tree after entering failed')


def repo_ref(repo, name):
    import git as gitpython
    return gitpython.Head(repo, f'refs/heads/{name}')
