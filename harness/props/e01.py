import os
import shutil
from hypothesis import strategies as st
import gitlib
from gitlib import git
from framework import Violation, check, equal, outcome, describe, force_rmtree

from augpathlib import RepoPath, AugmentedPath, exceptions as exc

ID = 'E01'
COUNTS = {'quick': 2400, 'thorough': 50000}
RULE = ('histories of making repositories (by the class, by git, by cloning, as a '
        'worktree with a .git file) in nested folders, removing '
        'them in three ways, making them again, committing in them, changing '
        'directory, and asking for paths written absolute, relative, with .. in '
        'them or below the home folder, existing or not.  Non-trivial: a path is '
        'asked for while two repositories are nested or one was made again.')
ASSUMPTIONS = ['no folder has a dollar in its name, GitPython expands variables in '
               'the names of folders']

TREE = ['', 'a', 'a/b', 'a/b/c', 'a/d', 'e', 'e/f', 'a.x', 'e/sp ace']
NAMES = ['', 'file', 'missing', 'missing/below', '.hidden', '\u00e9', '.git-no', 'x/.gitx', 'lnk']


def setup(ctx):
    gitlib.setup(ctx)


def strategy(tier):
    folder = st.integers(0, len(TREE) - 1)
    make = st.tuples(st.sampled_from(['gitinit', 'gitinit', 'init', 'clone', 'clone_from',
                                      'worktree']), folder)
    remove = st.tuples(st.sampled_from(['rmtree', 'osrm', 'aug', 'dotgit', 'recreate',
                                        'recreate']), folder)
    use = st.tuples(st.sampled_from(['commit', 'commit', 'cd']), folder)
    ask = st.tuples(st.just('ask'), folder, st.integers(0, len(NAMES) - 1),
                    st.sampled_from(['abs', 'abs', 'rel', 'dots', 'updots', 'home']))
    return st.tuples(
        st.lists(st.tuples(st.sampled_from(['init', 'gitinit', 'gitinit']), folder),
                 min_size=1, max_size=4),
        st.lists(st.one_of(make, remove, use, use, ask), min_size=2, max_size=8),
        st.lists(ask, min_size=2, max_size=6),
    ).map(lambda t: t[0] + t[1] + t[2])


def reset():
    RepoPath._repos.clear()


def run(case, ctx):
    top = ctx.scratch()
    base = os.path.join(top, 'base')
    source = os.path.join(top, 'source')
    gitlib.init(ctx, source)
    gitlib.fast_import(source, [('source', {'file': ('file', b'from source')})])
    home = os.environ['HOME']
    os.environ['HOME'] = top
    try:
        history(case, ctx, top, base, source)
    finally:
        os.environ['HOME'] = home
        for r in RepoPath._repos.values():
            r.close()
        RepoPath._repos.clear()


def history(case, ctx, top, base, source):
    repos = {}  # folder -> list of commit messages, newest first
    again = False
    removed = set()
    n = 0

    def make():
        for t in TREE:
            os.makedirs(os.path.join(base, t), exist_ok=True)

    make()
    os.chdir(base)
    cwd = base

    def inner(full):
        """ the innermost repository, from the model """
        while True:
            if full in repos:
                return full
            if full == top:
                return None
            full = os.path.dirname(full)

    lnk = None
    for op, k, *rest in case:
        if lnk is not None:
            os.unlink(lnk)
            lnk = None

        full = os.path.normpath(os.path.join(base, TREE[k]))
        if op in ('recreate', 'dotgit') and repos:
            full = sorted(repos)[k % len(repos)]
        p = RepoPath(full)
        what = f'{op} {os.path.relpath(full, base)!r}'
        if op in ('init', 'clone'):
            there = inner(full)
            empty = full != cwd and not os.listdir(full)
            if op == 'clone' and not empty and there is None:
                continue
            how, got = outcome(p.init, *([source] if op == 'clone' else []))
            if there is not None:
                check(how == 'err' and isinstance(got, exc.RepoExistsError),
                      '{} inside of {}: {!r}', what, there, got)
                continue
            check(how == 'ok', '{}: {}', what, describe(got) if how == 'err' else '')
            repos[full] = ['source'] if op == 'clone' else []
            equal(str(got.working_dir), full, f'working dir of the repo from {what}')
        elif op == 'clone_from':
            target = os.path.join(full, 'source')
            there = inner(full)
            if os.path.lexists(target):
                continue
            equal(str(p.clone_path(source)), target, 'clone path')
            how, got = outcome(p.clone_from, source)
            if there is not None:
                check(how == 'err' and isinstance(got, exc.RepoExistsError),
                      '{} inside of {}: {!r}', what, there, got)
                continue
            check(how == 'ok', '{}: {}', what, describe(got) if how == 'err' else '')
            equal(str(got), target, 'what clone_from returned')
            repos[target] = ['source']
            full = target
        elif op == 'gitinit':
            if full in repos:
                continue
            gitlib.init(ctx, full)
            repos[full] = []
        elif op == 'worktree':
            if full in repos or os.listdir(full) or full == cwd:
                continue
            n += 1
            os.rmdir(full)
            git(source, 'worktree', 'add', '-f', '-q', '-b', f'w{n}', full, 'master')
            repos[full] = ['source']
        elif op in ('rmtree', 'osrm', 'aug', 'recreate', 'dotgit'):
            if op == 'dotgit':
                if full not in repos:
                    continue
                g = os.path.join(full, '.git')
                (force_rmtree if os.path.isdir(g) else os.unlink)(g)
                del repos[full]
                removed.add(full)
                continue
            if op == 'recreate' and full not in repos:
                continue
            if full == base or full == cwd or cwd.startswith(full + '/'):
                os.chdir(top)
                cwd = top
            if op == 'rmtree':
                p.rmtree()
            elif op == 'aug':
                AugmentedPath(full).rmtree()
            else:
                force_rmtree(full)
            check(not os.path.lexists(full), '{}: still there', what)
            for r in list(repos):
                if r == full or r.startswith(full + '/'):
                    del repos[r]
                    removed.add(r)
            make()
            if cwd == top:
                os.chdir(base)
                cwd = base
            if op == 'recreate':
                gitlib.init(ctx, full)
                n += 1
                gitlib.fast_import(full, [(f'again {n}', {'file': ('file', b'%d' % n)})])
                git(full, 'reset', '-q', '--hard')
                repos[full] = [f'again {n}']
        elif op == 'commit':
            r = inner(full)
            if r is None:
                continue
            n += 1
            f = p / f'f{n}'
            with open(f, 'w') as fh:
                fh.write(f'{n}')
            f.commit_from_working_tree(f'commit {n}')
            repos[r].insert(0, f'commit {n}')
            equal(f.show('HEAD'), str(n).encode(), f'show after {what}')
        elif op == 'cd':
            os.chdir(full)
            cwd = full
        else:
            name, form = NAMES[rest[0]], rest[1]
            target = os.path.normpath(os.path.join(full, name))
            if form == 'abs':
                q = RepoPath(target)
            elif form == 'rel':
                q = RepoPath(os.path.relpath(target, cwd))
            elif form == 'dots':
                q = RepoPath(full) / 'zz' / '..' / name
            elif form == 'updots':
                q = RepoPath(full) / '..' / os.path.basename(full) / name
            else:
                q = RepoPath('~', os.path.relpath(target, top))
            if name == 'lnk' and os.path.isdir(full):
                # a link is asked about itself, not what it points to
                lnk = target
                os.symlink('other/place', target)
            full = target
            what = f'{str(q)!r} in {cwd}'
            r = inner(target)
            how, wd = outcome(lambda: q.working_dir)
            check(how == 'ok', 'working dir of {}: {}', what,
                  describe(wd) if how == 'err' else '')
            if r is None:
                equal(wd, None, f'working dir of {what}')
                how, got = outcome(lambda: q.repo)
                check(how == 'err' and isinstance(got, exc.NotInRepoError),
                      'repo of {} outside of any: {!r}', what, got)
                how, got = outcome(lambda: q.repo_relative_path)
                check(how == 'err' and isinstance(got, exc.NotInRepoError),
                      'repo relative path of {} outside of any: {!r}', what, got)
                continue
            equal(str(wd), r, f'working dir of {what}')
            check(isinstance(wd, RepoPath), 'working dir of {} is a {}', what, type(wd))
            if (sum(target == x or target.startswith(x + '/') for x in repos) > 1
                    or r in removed):
                ctx.nontrivial(form)
            repo = q.repo
            equal(str(repo.working_dir), r, f'working dir of the repo of {what}')
            equal(q.repo_relative_path.as_posix(), os.path.relpath(target, r),
                  f'repo relative path of {what}')
            if repos[r]:
                equal(repo.head.commit.message.strip(), repos[r][0],
                      f'last commit in the repo of {what}')
                equal([c.message.strip() for c in repo.iter_commits()], repos[r],
                      f'commits in the repo of {what}')
            else:
                check(not repo.head.is_valid(), '{}: a new repo has commits', what)
            continue

        # every repository is the one that is there now
        for t in TREE:
            here = os.path.normpath(os.path.join(base, t))
            r = inner(here)
            wd = RepoPath(here).working_dir
            equal(None if wd is None else str(wd), r, f'working dir of {t!r} after {what}')
        for r, messages in repos.items():
            if messages:
                equal(RepoPath(r).repo.head.commit.message.strip(), messages[0],
                      f'last commit in the repo of {r} after {what}')
