import os
from hypothesis import strategies as st
import trees
from framework import check, outcome, describe

from augpathlib import AugmentedPath, LocalPath, RepoPath, ZipPath

ID = 'C04'
COUNTS = {'quick': 12000, 'thorough': 100000}
RULE = ('random trees of folders, files, pipes, hidden files and links (broken, to '
        'folders, to themselves), some folders unreadable; any entry or the top '
        'is the target, absolute or relative.  Non-trivial: some folders below the target '
        'are to be removed and some are to stay.')

CLASSES = AugmentedPath, LocalPath, RepoPath, ZipPath


def strategy(tier):
    kinds = ('dir', 'dir', 'dir', 'dir', 'file', 'link', 'fifo')
    return st.fixed_dictionaries({
        'tree': trees.spec(1, 16, kinds=kinds),
        'target': st.one_of(st.just(0), st.integers(0, 16)),
        'locked': st.lists(st.integers(0, 16), max_size=1),
        'rel': st.booleans(),
        'cls': st.integers(0, len(CLASSES) - 1),
    })


def run(case, ctx):
    d = ctx.scratch()
    root = os.path.join(d, 'root')
    os.mkdir(root)
    outside = trees.outside_tree(d)
    made = trees.build(root, case['tree'], outside)
    top = made[case['target'] % len(made)]
    before = trees.full_snapshot(root)
    before_out = trees.full_snapshot(outside)
    dirs = {r for r, v in before.items() if v[0] == 'dir'}
    locked = set()
    for i in case['locked']:
        r = made[i % len(made)]
        if r in dirs and r != top and r and not any(
                before[x][0] != 'nothing' and x != r and trees.below(x, r) for x in before):
            locked.add(r)  # an empty folder that cannot be listed

    def empty(r):
        if r in locked:
            return False
        kids = [x for x in before if x and x != r and os.path.dirname(x) == r]
        return all(k in dirs and empty(k) for k in kids)

    expect_gone = {r for r in dirs if trees.below(r, top) and empty(r)} if top in dirs else set()
    full = os.path.join(root, top) if top else root
    for r in locked:
        os.chmod(os.path.join(root, r), 0)

    cls = CLASSES[case['cls']]
    os.chdir(d)
    p = cls(os.path.relpath(full, d)) if case['rel'] else cls(full)
    is_link = os.path.islink(full)
    how, res = outcome(p.rmdirtree)

    for r in locked:
        if os.path.isdir(os.path.join(root, r)):
            os.chmod(os.path.join(root, r), 0o755)
    what = f'rmdirtree of {top!r}'
    if is_link:
        ctx.note('link')
        check(how == 'err' and isinstance(res, NotADirectoryError),
              '{} which is a link: {}', what, res)
    elif top in dirs:
        check(how == 'ok', '{}: {}', what, describe(res) if how == 'err' else '')
    if not os.path.isdir(root):
        check('' in expect_gone, '{} removed the top', what)
        after = {}
    else:
        after = trees.full_snapshot(root)
    want = {r: v for r, v in before.items() if r not in expect_gone}
    diff = trees.first_difference(after, want)
    check(diff is None, '{}: {}', what, diff)
    diff = trees.first_difference(trees.full_snapshot(outside), before_out)
    check(diff is None, '{}: outside of the tree {}', what, diff)
    stay = {r for r in dirs if trees.below(r, top)} - expect_gone
    if expect_gone and stay:
        ctx.nontrivial()
