import os
import shutil
import time
from datetime import datetime, timezone, timedelta
from hypothesis import strategies as st
import gen
import gitlib
from gitlib import git
from framework import Violation, check, equal, outcome, describe
from props.e04 import few
from props.e04 import PLAIN as NAMES

from augpathlib import RepoPath

ID = 'E02'
ASSUMPTIONS = ['names that begin with a colon or look like a drive letter or have a '
               'backslash are left out: GitPython itself refuses them']
PLAIN = [n for n in NAMES if ':' not in n and '\\' not in n]
COUNTS = {"quick": 2100, 'thorough': 25000}
RULE = ('repositories with or without a commit, every combination of '
        'committed, staged and working content of up to 5 files (odd names, '
        'folders, links, executables, untracked, deleted), up to 2 stashes, then '
        'up to 4 edits, stagings and commits of single files or folders (from the '
        'index or the working tree, with dates).  Non-trivial: another file '
        'has staged or unstaged changes or a stash exists while committing.')


def setup(ctx):
    gitlib.setup(ctx)


def strategy(tier):
    names = st.lists(st.sampled_from(PLAIN), min_size=2, max_size=5, unique=True)

    def more(ns):
        k = st.integers(0, len(ns) - 1)
        e = st.one_of(few(), few(), st.none())
        changes = st.dictionaries(k, e, min_size=1, max_size=len(ns))
        date = st.one_of(st.none(), st.none(), st.tuples(
            st.integers(10 ** 9, 2 * 10 ** 9), st.sampled_from([0, 60, -330, 840])))
        op = st.one_of(
            st.tuples(st.just('edit'), k, e),
            st.tuples(st.just('stage'), k, e),
            *[st.tuples(st.sampled_from(['commit', 'commit', 'from_wt', 'from_wt', 'add']),
                        st.integers(-1, len(ns) - 1), st.tuples(
                st.sampled_from(['m', ' m', 'm ', 'message with\n\nlines', '\u00e9 "q" $x', '#x']), date))
              for _ in range(2)])
        return st.fixed_dictionaries({
            'names': st.just(ns),
            'history': st.lists(st.dictionaries(k, few(), max_size=len(ns)),
                                max_size=2),
            'stashes': st.lists(changes, max_size=2),
            'index': changes,
            'working': changes,
            'ops': st.lists(op, min_size=1, max_size=4),
            'where': st.sampled_from(['abs', 'abs', 'rel', 'via']),
            # at the end a file is replaced by a folder or a folder by a file
            'swap': st.tuples(st.sampled_from([None, 'folder', 'file']),
                              st.sampled_from(['sw', 'sw/x']),
                              st.sampled_from(['commit', 'from_wt']),
                              st.booleans()),
            'detached': st.sampled_from([False, False, False, True]),
        })

    return names.flatmap(more)


class State:
    def __init__(self, root):
        self.root = root
        self.head = (git(root, 'rev-parse', '-q', '--verify', 'HEAD', ok=True) or b'').strip()
        self.branch = git(root, 'symbolic-ref', '-q', 'HEAD', ok=True)
        self.refs = {r for r in git(root, 'for-each-ref', '--format=%(refname) %(objectname)'
                                    ).decode().split('\n') if r
                     and not r.startswith('refs/heads/master ')}
        self.stashes = git(root, 'stash', 'list', '--format=%H')
        self.tree = gitlib.tree(root)
        self.index = gitlib.index(root)
        self.work = gitlib.working(root)


def run(case, ctx):
    root = os.path.join(ctx.scratch(), 'repo')
    gitlib.init(ctx, root)
    names = case['names']
    swap, *swapping = case['swap']
    if case['history']:
        if swap:
            extra = ({'sw': ('file', b'sw')} if swap == 'folder' else
                     {'sw/x': ('file', b'x'), 'sw/y': ('file', b'y')})
        else:
            extra = {}
        extra['ex'] = ('exec', b'')
        ids = gitlib.fast_import(root, [
            (f'commit {i}', {**{names[k]: e for k, e in sorted(ch.items())},
                             **({} if i else extra)})
            for i, ch in enumerate(case['history'])])
        git(root, 'reset', '-q', '--hard')
        for ch in case['stashes']:
            gitlib.write(root, 'for-the-stash', ('file', b'stashed'))
            for k, e in ch.items():
                gitlib.write(root, names[k], e)
            git(root, 'add', '-A')
            git(root, 'stash')
            ctx.note('stash')
        if case['detached']:
            git(root, 'update-ref', '--no-deref', 'HEAD', ids[-1])
            git(root, 'checkout', '-q', '--detach')
            ctx.note('detached')
    gitlib.set_index(root, {names[k]: e for k, e in case['index'].items()})
    for k, e in case['working'].items():
        gitlib.write(root, names[k], e)
    os.chdir(root)
    via = os.path.join(os.path.dirname(root), 'via')
    os.symlink('repo', via)

    t0 = int(time.time())

    def path(name):
        if case['where'] == 'via':  # the repository is reached by a link
            return RepoPath(via) / name
        return RepoPath(root) / name if case['where'] == 'abs' else RepoPath(name or '.')

    for op, k, arg in case['ops']:
        name = names[k] if k >= 0 else ''
        if op == 'edit':
            if name:
                gitlib.write(root, name, arg)
            continue
        if op == 'stage':
            if name:
                gitlib.set_index(root, {name: arg})
            continue

        def own(n):
            return name == '' or n == name or n.startswith(name + '/')

        before = State(root)
        p = path(name)
        exists = os.path.lexists(os.path.join(root, name))
        if op in ('add', 'from_wt') and (not exists or name == ''):
            continue
        if op == 'add':
            p.add_index()
            after = State(root)
            want = {**before.index, name: before.work[name]}
            equal(after.index, want, f'index after adding {name!r}')
            equal(after.tree, before.tree, 'last commit after add')
            equal(after.head, before.head, 'HEAD after add')
            equal(after.work, before.work, f'working tree after adding {name!r}')
            equal(after.stashes, before.stashes, 'stashes')
            continue

        message, date = arg
        when = None
        if date is not None:
            when = datetime.fromtimestamp(date[0], timezone(timedelta(minutes=date[1])))
        if op == 'from_wt':
            how, got = outcome(p.commit_from_working_tree, message, date=when)
            known = {n for n in before.work if own(n)}
        else:
            how, got = outcome(p.commit, message, date=when)
            known = {n for n in before.index if own(n)}
        what = f'{op} of {name!r}'
        others = (any(before.index.get(n) != before.tree.get(n) or
                      before.work.get(n) != before.index.get(n)
                      for n in set(before.index) | set(before.tree) | set(before.work)
                      if not own(n)))
        if others or before.stashes:
            ctx.nontrivial(op)
        after = State(root)

        # nothing else moves whatever the result is
        equal(after.work, before.work, f'{what}: working tree')
        equal(after.stashes, before.stashes, f'{what}: stashes')
        equal(after.branch, before.branch, f'{what}: branch')
        equal(after.refs, before.refs, f'{what}: other refs')
        equal({n: e for n, e in after.index.items() if not own(n)},
              {n: e for n, e in before.index.items() if not own(n)},
              f'{what}: index of other files')
        equal({n: e for n, e in after.tree.items() if not own(n)},
              {n: e for n, e in before.tree.items() if not own(n)},
              f'{what}: other files in the new commit')

        fine = bool(known) or any(own(n) for n in before.tree)
        if not fine:
            # not known to git: an error or a commit without changes
            equal(after.tree, before.tree, f'{what}: of an unknown file')
            equal(after.index, before.index, f'{what}: of an unknown file')
            continue
        check(how == 'ok', '{}: {}', what, describe(got) if how == 'err' else '')

        # what is recorded is what is in the working tree of what git knows
        for n in {n for n in set(before.index) | set(before.tree) | known if own(n)}:
            want = before.work.get(n)
            if n not in known and want is not None:
                # removed from the index only: as git does or as it is staged
                check(after.tree.get(n) in (None, want), '{}: {!r} is {}', what, n,
                      after.tree.get(n))
            else:
                equal(after.tree.get(n), want, f'{what}: {n!r} in the new commit')
            equal(after.index.get(n), after.tree.get(n), f'{what}: {n!r} in the index')

        # the new commit
        check(after.head != before.head, '{}: HEAD did not move', what)
        equal(got.hexsha, after.head.decode(), f'{what}: returned')
        raw = git(root, 'cat-file', 'commit', 'HEAD')
        head, _, body = raw.partition(b'\n\n')
        parents = [l[7:] for l in head.split(b'\n') if l.startswith(b'parent ')]
        equal(parents, [before.head] if before.head else [], f'{what}: parents')
        equal(body.decode().rstrip('\n'), message, f'{what}: message')
        if date is not None:
            author = next(l for l in head.split(b'\n') if l.startswith(b'author '))
            sign = '-' if date[1] < 0 else '+'
            tz = f'{sign}{abs(date[1]) // 60:02d}{abs(date[1]) % 60:02d}'
            check(author.decode().endswith(f' {date[0]} {tz}'), '{}: author {} expected '
                  'date {} {}', what, author, date[0], tz)

        committer = next(l for l in head.split(b'\n') if l.startswith(b'committer '))
        at = int(committer.split()[-2])
        check(t0 - 1 <= at <= time.time() + 1, '{}: committed at {}', what, at)

    if case['history'] and swap:
        replaced(root, path, swap, *swapping, ctx)


def replaced(root, path, swap, name, op, staged, ctx):
    full = os.path.join(root, 'sw')
    if swap == 'folder':
        os.unlink(full)
        new = {'sw/x': ('file', b'new x'), 'sw/y': ('file', b'new y')}
    else:
        shutil.rmtree(full)
        new = {'sw': ('file', b'new')}
    for n, e in new.items():
        gitlib.write(root, n, e)
    if staged:
        git(root, 'add', '--', 'sw')
    if op == 'from_wt' and not os.path.lexists(os.path.join(root, name)):
        op = 'commit'  # nothing there that could be added
    before = State(root)
    what = f'{op} of {name!r}, replaced by a {swap}, ' + ('staged' if staged else 'not staged')
    p = path(name)
    how, got = outcome(p.commit_from_working_tree if op == 'from_wt' else p.commit, 'replaced')
    after = State(root)
    ctx.nontrivial('replaced ' + swap)

    def own(n):
        return n == 'sw' or n.startswith('sw/')

    equal(after.work, before.work, f'{what}: working tree')
    equal(after.stashes, before.stashes, f'{what}: stashes')
    for a, b, where in ((after.tree, before.tree, 'new commit'),
                        (after.index, before.index, 'index')):
        equal({n: e for n, e in a.items() if not own(n)},
              {n: e for n, e in b.items() if not own(n)}, f'{what}: other files in the {where}')
    mine = {n: e for n, e in after.tree.items() if own(n)}
    old = {n: e for n, e in before.tree.items() if own(n)}
    if swap == 'folder':
        if op == 'from_wt' or staged:
            want = new if name == 'sw' else {name: new[name]}
        else:  # what replaces it is not known to git
            want = old if name == 'sw/x' else {}
    else:
        if name == 'sw/x':
            want = {'sw/y': old['sw/y']}  # the file that is gone
        elif op == 'from_wt' or staged:
            want = new
        else:
            want = {}
    if want == old:
        equal(mine, old, f'{what}: in the last commit')
        return
    check(how == 'ok', '{}: {}', what, describe(got) if how == 'err' else '')
    equal(mine, want, f'{what}: in the new commit')
    # git itself can read the new commit
    git(root, 'fsck', '--no-dangling', '--no-progress', after.head.decode())
