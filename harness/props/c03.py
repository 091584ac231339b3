import os
import stat
from hypothesis import strategies as st
import trees
from framework import Violation, check, outcome, describe

from augpathlib import AugmentedPath, LocalPath, RepoPath, ZipPath, exceptions as exc

ID = 'C03'
COUNTS = {'quick': 12000, 'thorough': 100000}
RULE = ('(1) random trees with links inside, out of, up and below the tree and '
        'folders that cannot be listed, entered or written to; any entry is the '
        'target, spelled plainly or with .. or through a linked folder, in every error mode and with the '
        'working directory inside or outside of the target; (2) relative, top level, home and working '
        'directory paths, and others that are not dangerous, in many spellings with every '
        'removal call recorded instead of done.  Non-trivial: a folder with entries is removed, or '
        'a refusal is due.')

MODES = [0o755] * 8 + [0o555, 0o000, 0o444, 0o311, 0o666]

CLASSES = AugmentedPath, LocalPath, RepoPath, ZipPath


def strategy(tier):
    tree = st.fixed_dictionaries({
        'tree': trees.spec(3, 16),
        'target': st.one_of(st.integers(0, 14), st.integers(0, 2)),
        'modes': st.lists(st.tuples(st.integers(0, 14), st.sampled_from(MODES)), max_size=3),
        'errors': st.sampled_from(['raise', 'raise', 'ignore', 'onerror']),
        'spell': st.sampled_from(['plain'] * 4 + ['dotdot', 'linked']),
        'cwd': st.sampled_from(['out'] * 5 + ['in', 'at']),
        'danger': st.sampled_from([False] * 4 + [True]),
        'cls': st.integers(0, len(CLASSES) - 1),
    })
    # one folder that cannot be written to with links, files and folders in it
    inside = trees.entry(kinds=('dir', 'dir', 'file', 'link', 'link')).map(
        lambda e: (e[0], 1 + e[1] % 3, *e[2:]))
    locked = tree.flatmap(lambda t: st.lists(inside, min_size=3, max_size=8).map(
        lambda es: {**t, 'tree': [('dir', 0, 'a', 'abs', 0), *es], 'cwd': 'out',
                    'target': t['target'] % 2, 'modes': [(0, 0o555)]}))
    refuse = st.fixed_dictionaries({
        'refuse': st.sampled_from(
            ['relative', 'top', 'root', 'home', 'home2', 'home3', 'homeup', 'up', 'uplots',
             'dots', 'cwd', 'cwdup', 'cwdlink', 'linkroot', 'cwdparent', 'fine', 'finehome']),
        'name': st.sampled_from(['tmp', 'etc', 'usr', 'home', 'x', 'no such', 'root']),
        'errors': st.sampled_from(['raise', 'ignore', 'onerror']),
        'danger': st.sampled_from([False, False, 1, 'yes', None]),
        'cls': st.integers(0, len(CLASSES) - 1),
        'n': st.integers(0, 3),
    })
    return st.one_of(tree, tree, tree, locked, refuse)


def removable(root, top):
    """ what a removal of top can remove: set of relative paths """
    gone = set()

    def can(mode, bits):
        return stat.S_IMODE(mode) & bits == bits

    def remove(rel, parent_ok):
        full = os.path.join(root, rel)
        s = os.lstat(full)
        if stat.S_ISDIR(s.st_mode):
            every = False
            if can(s.st_mode, 0o500):
                every = True
                for n in os.listdir(full):
                    every &= remove(os.path.join(rel, n), can(s.st_mode, 0o300))
            elif can(s.st_mode, 0o400):
                every = not os.listdir(full)
            if every and parent_ok:
                gone.add(rel)
                return True
            return False
        if parent_ok:
            gone.add(rel)
        return parent_ok

    full = os.path.join(root, top)
    parent = os.lstat(os.path.dirname(full)).st_mode
    if not can(parent, 0o100):
        return gone
    if os.path.islink(full) and os.path.isdir(full):
        return gone
    remove(top, can(parent, 0o300))
    return gone


def reached(root, top):
    """ what can be found at or below top """
    out = {top}
    full = os.path.join(root, top)
    s = os.lstat(full)
    if stat.S_ISDIR(s.st_mode) and stat.S_IMODE(s.st_mode) & 0o500 == 0o500:
        for n in os.listdir(full):
            out |= reached(root, os.path.join(top, n))
    return out


def unlock(root):
    for base, subs, files in os.walk(root):
        for s in subs:
            p = os.path.join(base, s)
            if not os.path.islink(p):
                os.chmod(p, 0o755)


def lsnap(root):
    """ names and kinds only, folders are unlocked first """
    unlock(root)
    return {r: v for r, v in trees.full_snapshot(root, inodes=False).items() if r}


def call(path, case, danger):
    calls = []
    kw = {}
    if case['errors'] == 'ignore':
        kw['ignore_errors'] = True
    elif case['errors'] == 'onerror':
        kw['onerror'] = lambda *a: calls.append(a)
    if danger is not False:
        kw['DANGERZONE'] = danger
    how, res = outcome(path.rmtree, **kw)
    return how, res, calls


def run(case, ctx):
    if 'refuse' in case:
        return run_refuse(case, ctx)

    d = ctx.scratch()
    root = os.path.join(d, 'root')
    os.mkdir(root)
    outside = trees.outside_tree(d)
    made = trees.build(root, case['tree'], outside)
    before = lsnap(root)
    before_out = trees.full_snapshot(outside)
    rels = made[1:] + ['missing']
    top = rels[case['target'] % len(rels)]
    full = os.path.join(root, top)
    dirs = [r for r in made if r and before.get(r, ('',))[0] == 'dir']

    path = full
    if case['spell'] == 'dotdot':
        parent = os.path.dirname(full)
        path = os.path.join(parent, '..', os.path.basename(parent), os.path.basename(full))
    elif case['spell'] == 'linked':
        os.symlink(os.path.dirname(full), os.path.join(d, 'link'))
        path = os.path.join(d, 'link', os.path.basename(full))
    cls = CLASSES[case['cls']]

    inside = [r for r in dirs if trees.below(r, top)]
    os.chdir(d)
    cwd_in = False
    if case['cwd'] == 'in' and inside:
        os.chdir(os.path.join(root, inside[-1]))
        cwd_in = True
    elif case['cwd'] == 'at' and inside:
        os.chdir(os.path.join(root, inside[0]))
        cwd_in = True

    for i, mode in case['modes']:
        # deepest last so that the outer ones can still be passed through
        if dirs:
            case_dir = dirs[i % len(dirs)]
            if not any(trees.below(case_dir, r) for r, m in
                       ((x, os.stat(os.path.join(root, x)).st_mode & 0o777)
                        for x in dirs if os.access(os.path.dirname(os.path.join(root, x)), os.X_OK))
                       if m != 0o755):
                os.chmod(os.path.join(root, case_dir), mode)

    missing = top == 'missing'
    try:
        exists = os.path.lexists(full) and os.lstat(full) is not None
    except OSError:
        exists = False
    gone = removable(root, top) if exists else set()
    found = reached(root, top) if exists else set()
    subtree = {r for r in before if trees.below(r, top)}
    complete = exists and gone == subtree
    what = f'rmtree of {top!r} as {path[len(d):]!r} ({case["errors"]})'

    danger = case['danger']
    how, res, calls = call(cls(path), case, danger)
    os.chdir(d)
    now = lsnap(root)
    diff = trees.first_difference(trees.full_snapshot(outside), before_out)
    check(diff is None, '{}: outside of the tree {}', what, diff)
    # a change of mode is not a removal, lsnap resets it
    lost = set(before) - set(now)
    stray = set(now) - set(before)
    check(not stray, '{}: {} appeared', what, stray)
    check(lost <= subtree, '{}: {} is not below it but is gone', what,
          sorted(lost - subtree))
    for r in now:
        if before[r][:2] != now[r][:2]:
            raise Violation(f'{what}: {r!r} changed')

    if cwd_in and danger is not True:
        ctx.nontrivial('cwd refused')
        check(how == 'err' and isinstance(res, exc.WillNotRemovePathError),
              '{}: the working directory was not refused ({})', what, res)
        check(not lost, '{}: refused but removed {}', what, sorted(lost))
        return

    if len(subtree) > 1:
        ctx.nontrivial()
    ctx.note(case['errors'], 'complete' if complete else 'partial')
    if how == 'err' and isinstance(res, exc.WillNotRemovePathError):
        raise Violation(f'{what} was refused: {describe(res)}')
    if complete:
        check(how == 'ok', '{} failed: {}', what, describe(res) if how == 'err' else '')
        check(lost == subtree, '{}: {} remains', what, sorted(subtree - lost))
        check(not calls, '{}: onerror was called {}', what, calls)
    elif case['errors'] == 'raise':
        check(how == 'err', '{} was silent but could not remove everything', what)
        check(isinstance(res, OSError), '{}: {}', what,
              describe(res) if how == 'err' else '')
        check(lost <= gone, '{}: removed {}', what, sorted(lost - gone))
    else:
        check(how == 'ok', '{} raised {}', what, describe(res) if how == 'err' else '')
        check(lost == gone, '{}: removed {} expected {}', what, sorted(lost), sorted(gone))
        if case['errors'] == 'onerror':
            check(calls, '{}: onerror was not called', what)
            told = set()
            for func, p, info in calls:
                check(callable(func), '{}: onerror function {}', what, func)
                check(isinstance(info[1], OSError), '{}: onerror info {}', what, info)
                rp = os.path.join(os.path.realpath(os.path.dirname(os.fspath(p))),
                                  os.path.basename(os.fspath(p)))
                check(trees.below(os.path.relpath(rp, root), top),
                      '{}: onerror path {}', what, p)
                told.add(os.path.relpath(rp, root))
            for r in found - gone:
                if not any(o != r and trees.below(o, r) for o in found - gone):
                    # nothing that was found in it is the reason why it remains
                    check(r in told or any(os.path.dirname(t) == r for t in told),
                          '{}: {!r} remains but onerror was only called for {}',
                          what, r, sorted(told))


class Recorder:
    """ in place of everything that removes, and of listing """
    names = 'unlink', 'remove', 'rmdir', 'rename', 'replace', 'removedirs', 'truncate'

    def __enter__(self):
        self.calls = []
        self.had = {n: getattr(os, n) for n in (*self.names, 'listdir', 'scandir')}

        def make(n):
            def record(*a, **k):
                self.calls.append((n, a))
            return record

        def nothing(*a, **k):
            return []

        def denied(*a, **k):
            raise PermissionError(13, 'recorder')

        for n in self.names:
            setattr(os, n, make(n))
        os.listdir = nothing
        os.scandir = denied
        return self

    def __exit__(self, *exc_info):
        for n, f in self.had.items():
            setattr(os, n, f)


def run_refuse(case, ctx):
    d = os.path.realpath(ctx.scratch())
    os.makedirs(os.path.join(d, 'here', 'deep', 'deeper', 'a', 'home', 'b'))
    here = os.path.join(d, 'here')
    os.symlink(here, os.path.join(d, 'link'))
    os.symlink('/', os.path.join(d, 'rootlink'))
    os.chdir(here)
    name = case['name']
    path = {
        'relative': ['here', 'deep/deeper/a/home', 'deep/deeper/..', 'deep/deeper/a'][case['n']],
        'top': f'/{name}',
        'root': '/',
        'home': '/home',
        'home2': f'/home/{name}',
        'home3': f'/{name}/home',
        'homeup': f'/home/{name}/../other',
        'up': '/usr/..',
        'uplots': '/usr/lib/../..' + f'/{name}' * (case['n'] % 2),
        'dots': f'/./{name}',
        'cwd': here,
        'cwdup': os.path.join(here, 'deep', '..'),
        'cwdlink': os.path.join(d, 'link', '..', 'here') if case['n'] else
                   os.path.join(d, 'link', 'deep', '..'),
        'linkroot': os.path.join(d, 'rootlink', name),
        'cwdparent': d,
        'fine': f'/{name}/no such {name}' if name != 'home' else '/home/no/such',
        'finehome': f'/{"home" if name != "home" else "x"}/{name}/no such',
    }[case['refuse']]
    cls = CLASSES[case['cls']]
    ctx.nontrivial('refusal')
    before = trees.full_snapshot(d)
    with Recorder() as rec:
        how, res, calls = call(cls(path), case, case['danger'])
    what = f'rmtree of {case["refuse"]} path {path!r}'
    refused = how == 'err' and isinstance(res, exc.WillNotRemovePathError)
    if case['refuse'].startswith('fine'):
        check(not refused, '{} was refused: {}', what, res)
        # nobody but root can look into the folder of root
        check(rec.calls or path.startswith('/root'),
              '{} removed nothing: {}', what, res)
        return
    check(refused, '{} was not refused: {}', what, res)
    check(not rec.calls, '{} was refused after {}', what, rec.calls)
    check(not calls, '{}: onerror was called', what)
    check(trees.full_snapshot(d) == before, '{} changed something', what)
