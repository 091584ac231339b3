import os
from hypothesis import strategies as st
import trees
from framework import Violation, check, outcome, describe

from augpathlib import AugmentedPath, LocalPath, RepoPath, ZipPath, swap as aug_swap

ID = 'C02'
COUNTS = {'quick': 10000, 'thorough': 80000}
RULE = ('random trees of folders, files and links, two paths in the tree (or one '
        'missing, or one on another device, or one inside the other), written '
        'absolute or relative to some folder, swapped with the atomic operation, '
        'with the carefree variant, and with the carefree variant while there is '
        'no atomic operation, sometimes with a folder that cannot be written to.  '
        'Non-trivial: two different paths of which neither contains the other.')

CLASSES = AugmentedPath, LocalPath, RepoPath, ZipPath


def strategy(tier):
    return st.fixed_dictionaries({
        'tree': trees.spec(2, 12),
        'other': trees.spec(1, 4),
        'a': st.integers(0, 12), 'b': st.integers(0, 12),
        'rel': st.tuples(st.booleans(), st.booleans()),
        'cwd': st.integers(0, 12),
        'mode': st.sampled_from(['swap', 'swap', 'carefree', 'noatomic', 'noatomic']),
        'cross': st.sampled_from([False] * 5 + [True]),
        'missing': st.sampled_from([None] * 7 + ['a', 'b', 'both']),
        'readonly': st.sampled_from([None] * 7 + ['a', 'b']),
        'xattr': st.lists(st.integers(0, 12), max_size=2),
        'cls': st.integers(0, len(CLASSES) - 1),
    })


class Watch:
    """ looks whether the paths are there at each change of the file system """
    NAMES = 'rename', 'replace', 'link', 'symlink', 'unlink', 'mkdir', 'rmdir'

    def __init__(self, *paths):
        self.paths = paths
        self.missing = []

    def __enter__(self):
        self.was = {n: getattr(os, n) for n in self.NAMES}
        for n, f in self.was.items():
            def call(*args, _n=n, _f=f, **kw):
                out = _f(*args, **kw)
                self.missing += [(p, _n) for p in self.paths if not os.path.lexists(p)]
                return out
            setattr(os, n, call)
        return self

    def __exit__(self, *_):
        for n, f in self.was.items():
            setattr(os, n, f)


def exchanged(before, a, b):
    out = {}
    for rel, v in before.items():
        if trees.below(rel, a):
            out[b + rel[len(a):]] = v
        elif trees.below(rel, b):
            out[a + rel[len(b):]] = v
        else:
            out[rel] = v
    return out


def run(case, ctx):
    d = ctx.scratch()
    root = os.path.join(d, 'root')
    os.mkdir(root)
    outside = trees.outside_tree(d)
    made = trees.build(root, case['tree'], outside)
    for i in case['xattr']:
        p = os.path.join(root, made[i % len(made)])
        if not os.path.islink(p):
            os.setxattr(p, 'user.mark', str(i).encode())

    cross = case['cross'] and ctx.shm_dir
    if len(made) < 2:
        return
    a = made[1:][case['a'] % (len(made) - 1)]
    b = made[1:][case['b'] % (len(made) - 1)]
    where_b = root
    if cross:
        where_b = ctx.scratch(shm=True)
        made2 = trees.build(where_b, case['other'], outside)
        if len(made2) < 2:
            return
        b = made2[1:][case['b'] % (len(made2) - 1)]
    if case['missing'] in ('a', 'both'):
        a = os.path.join(os.path.dirname(a), 'is-missing')
    if case['missing'] in ('b', 'both'):
        b = os.path.join(os.path.dirname(b), 'missing-too')

    fa, fb = os.path.join(root, a), os.path.join(where_b, b)
    contains = not cross and (trees.below(a, b) or trees.below(b, a))
    same = fa == fb
    if case['readonly'] is not None:
        locked = os.path.dirname(fa if case['readonly'] == 'a' else fb)
        os.chmod(locked, 0o555)
        ctx.note('read only')

    dirs = [r for r in made if os.path.isdir(os.path.join(root, r))
            and not os.path.islink(os.path.join(root, r))
            and not trees.below(r, a) and not (not cross and trees.below(r, b))]
    cwd = os.path.join(root, dirs[case['cwd'] % len(dirs)])
    os.chdir(cwd)
    cls = CLASSES[case['cls']]
    pa = cls(os.path.relpath(fa, cwd) if case['rel'][0] else fa)
    pb = cls(os.path.relpath(fb, cwd) if case['rel'][1] else fb)
    if any(case['rel']):
        ctx.note('relative')

    def snap():
        s = {('A', *k): v for k, v in
             ((('', r), v) for r, v in trees.full_snapshot(root).items())}
        if cross:
            s.update({('B', '', r): v for r, v in trees.full_snapshot(where_b).items()})
        return s

    def tree():
        return {k[2]: v for k, v in snap().items() if k[0] == 'A'}

    before_all = snap()
    before = tree()
    before_out = trees.full_snapshot(outside)

    kind = case['mode']
    ctx.note(kind)
    if kind == 'swap':
        # atomic: there is no call before or after which one of them is missing
        with Watch(fa, fb) as watch:
            how, res = outcome(pa.swap, pb)
        if case['missing'] is None:
            check(not watch.missing, '{} of {!r} and {!r}: {} is missing at {}', kind, a, b,
                  *(watch.missing or [('', '')])[0])
    elif kind == 'carefree':
        how, res = outcome(pa.swap_carefree, pb)
    else:
        if not hasattr(AugmentedPath, '_swap'):
            return
        had = AugmentedPath._swap
        AugmentedPath._swap = aug_swap.swap_not_implemented
        try:
            how, res = outcome(pa.swap_carefree, pb)
        finally:
            AugmentedPath._swap = had

    what = f'{kind} of {a!r} and {b!r}' + (' on another device' if cross else '')
    diff = trees.first_difference(trees.full_snapshot(outside), before_out)
    check(diff is None, '{}: outside of the tree {}', what, diff)
    after_all = snap()
    if cross:
        unchanged = trees.first_difference(
            {str(k): v for k, v in after_all.items()},
            {str(k): v for k, v in before_all.items()})
        if kind == 'swap':
            check(how == 'err', '{} did not fail', what)
        if how == 'err':
            ctx.nontrivial('cross device')
            check(unchanged is None, '{} failed with {} but {}', what, describe(res)
                  if how == 'err' else '', unchanged)
        return

    after = tree()
    unchanged = trees.first_difference(after, before)
    if same:
        check(unchanged is None, '{}: {}', what, unchanged)
        return
    swapped = trees.first_difference(after, exchanged(before, a, b)) if not contains else 'impossible'
    if not contains and case['missing'] is None:
        ctx.nontrivial()

    if how == 'err':
        check(unchanged is None, '{} failed ({}) but {}', what,
              type(res).__name__, unchanged)
        if (not contains and case['missing'] is None and case['readonly'] is None
            and os.path.exists(fa) and os.path.exists(fb)):
            raise Violation(f'{what} failed: {describe(res)}')
        ctx.note('refused')
    else:
        check(swapped is None, '{}: {}', what, swapped)
        ctx.note('swapped')
