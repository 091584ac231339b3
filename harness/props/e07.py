import os
from hypothesis import strategies as st
import gitlib
from framework import check, equal, outcome, describe, HarnessError

import git
from augpathlib import RepoPath

ID = 'E07'
COUNTS = {'quick': 1680, 'thorough': 12000}
RULE = ('repositories of up to 7 commits with merges, branches, remote branches and tags '
        '(annotated or not, of commits and of tags) with and without slashes in their names, '
        'being on a branch, on one without commits, or at any commit; the name of the '
        'current ref and every ref by its name are asked for.  Non-trivial: at a commit '
        'rather than on a branch, and a name leads there.')
ASSUMPTIONS = ['a branch, a tag and a remote branch do not have the same name']
setup = gitlib.setup

BRANCHES = ['main', 'dev', 'feature/x', 'feature/y/z', 'x-1.2', '\u00e9', 'tags', 'a/b']
TAGS = ['v1', 'v1.0', 'rel/v1', 'rel/v2', 't\u00e9', 'v1-rc', 'last']
REMOTES = ['origin/other', 'origin/feature/r', 'up/other']


def strategy(tier):
    def refs(names):
        return st.lists(st.tuples(st.sampled_from(names), st.integers(0, 6),
                                  st.integers(0, 2)), max_size=4)
    return st.fixed_dictionaries({
        # parents of each commit but the first, as how far back
        'parents': st.lists(st.lists(st.integers(1, 4), min_size=1, max_size=2), max_size=6),
        'branches': refs(BRANCHES), 'tags': refs(TAGS), 'remotes': refs(REMOTES),
        'head': st.one_of(st.tuples(st.just('at'), st.integers(0, 6)),
                          st.tuples(st.just('at'), st.integers(0, 6)),
                          st.tuples(st.just('on'), st.integers(0, 4)),
                          st.tuples(st.just('unborn'), st.sampled_from(BRANCHES))),
        'missing': st.sampled_from(['nope', 'v9', 'feature', 'x', 'HEAD~1', 'origin', '']),
    })


def run(case, ctx):
    root = os.path.join(os.path.realpath(ctx.scratch()), 'repo')
    gitlib.init(ctx, root)
    lines = []
    n = len(case['parents']) + 1
    for i in range(n):
        lines.append(b'commit refs/heads/tmp\nmark :%d\ncommitter vp <vp@example.com> %d +0000\n'
                     b'data 1\nm\n' % (i + 1, 1600000000 + i))
        if i:
            ps = sorted({max(i - k, 0) for k in case['parents'][i - 1]}, reverse=True)
            lines.append(b'from :%d\n' % (ps[0] + 1))
            for p in ps[1:]:
                lines.append(b'merge :%d\n' % (p + 1))
        lines.append(b'M 100644 inline f\ndata 1\n%d\n' % (i % 10))
    marks = os.path.join(root, '.git', 'm')
    # a new branch for each so that commits do not follow each other
    gitlib.git(root, 'fast-import', '--quiet', '--force', f'--export-marks={marks}',
               input=b''.join(lines))
    with open(marks) as f:
        ids = dict(line.split() for line in f)
    ids = [ids[f':{i + 1}'] for i in range(n)]
    at = {}
    commands = ['delete refs/heads/tmp']
    for name, k, _ in case['branches']:
        at['refs/heads/' + name] = ids[k % n]
    for name, k, _ in case['remotes']:
        at['refs/remotes/' + name] = ids[k % n]
    annotated = []
    for name, k, how in case['tags']:
        full = 'refs/tags/' + name
        if full in at:
            continue
        at[full] = ids[k % n]
        if how:
            annotated.append((name, ids[k % n], how))
    for full, oid in at.items():
        commands.append(f'create {full} {oid}')
    gitlib.git(root, 'update-ref', '--stdin', input=('\n'.join(commands) + '\n').encode())
    for name, oid, how in annotated:
        gitlib.git(root, 'tag', '-f', '-a', '-m', 'x', name, oid)
        if how == 2:
            gitlib.git(root, 'tag', '-f', '-a', '-m', 'y', name, name)

    kind, k = case['head']
    heads = sorted(r for r in at if r.startswith('refs/heads/'))
    if kind == 'on' and not heads:
        kind, k = 'unborn', 'none/yet'
    if kind == 'unborn' and 'refs/heads/' + k in at:
        kind, k = 'on', heads.index('refs/heads/' + k)
    if kind == 'unborn' and any(r.startswith(f'refs/heads/{k}/') for r in at):
        return
    if kind == 'on':
        ref = heads[k % len(heads)]
        gitlib.git(root, 'symbolic-ref', 'HEAD', ref)
    elif kind == 'unborn':
        ref = 'refs/heads/' + k
        gitlib.git(root, 'symbolic-ref', 'HEAD', ref)
    else:
        commit = ids[k % n]
        gitlib.git(root, 'update-ref', '--no-deref', 'HEAD', commit)
    ctx.note(kind)

    repo = RepoPath(root).repo
    how, name = outcome(repo.currentRefName)
    check(how == 'ok', '{}: {}', kind, describe(name) if how == 'err' else '')
    if kind != 'at':
        equal(name, ref[len('refs/heads/'):], f'current ref ({kind})')
    else:
        here = sorted(r for r, oid in at.items() if oid == commit)
        what = f'current ref at a commit with {here}'
        if name is None:
            # something that is only a tag is always known
            check(not any(r.startswith('refs/tags/') for r in here), '{} is None', what)
        else:
            names = ([r.split('/', 2)[2] for r in here] +
                     [r.split('/', 1)[1] for r in here if not r.startswith('refs/tags/')])
            check(name in names, '{} is {!r}', what, name)
            ctx.nontrivial('named')
        if len(here) > 1:
            ctx.note('several')

    for r in at:
        short = r.split('/', 2)[2]
        how, got = outcome(repo.getRef, short)
        check(how == 'ok', 'getRef {}: {}', short, describe(got) if how == 'err' else '')
        equal(got.path, r, f'getRef {short}')
        equal(got.commit.hexsha, at[r], f'commit of getRef {short}')
    if case['missing'] not in {r.split('/', 2)[2] for r in at}:
        how, got = outcome(repo.getRef, case['missing'])
        check(how == 'err' and isinstance(got, ValueError),
              'getRef of a missing ref: {!r}', got)
