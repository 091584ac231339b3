import os
import errno
import pathlib
from hypothesis import strategies as st
import trees
from framework import Violation, check, equal, outcome, describe

from augpathlib import AugmentedPath, LocalPath, RepoPath, ZipPath

ID = 'C06'
COUNTS = {'quick': 9000, 'thorough': 100000}
RULE = ('random trees with many links: broken, looping, to themselves, below '
        'themselves, up, to each other, to names too long to exist; impossible names; every entry, and paths that pass '
        'through every entry, is asked about (kind, resolution, access rights followed or not).  Non-trivial: a link that resolves '
        'and one that does not.')
CLASSES = AugmentedPath, LocalPath, RepoPath, ZipPath


def strategy(tier):
    kinds = ('dir', 'dir', 'file', 'link', 'link', 'link', 'fifo')
    return st.fixed_dictionaries({
        'tree': trees.spec(2, 12, kinds=kinds, nnames=6),
        'extra': st.lists(st.tuples(trees.names(6), trees.names(6),
                                    st.sampled_from(['', '/a', '/..', '/a/b', '/.meta.' + 'z' * 260])),
                          max_size=4),
        'through': st.lists(trees.names(6), max_size=2),
        'modes': st.lists(st.tuples(st.integers(0, 12), st.sampled_from(
            [0o000, 0o400, 0o200, 0o100, 0o500, 0o600, 0o644, 0o700, 0o077])), max_size=3),
        'rel': st.booleans(),
        'cls': st.integers(0, len(CLASSES) - 1),
    })


def run(case, ctx):
    d = os.path.realpath(ctx.scratch())
    root = os.path.join(d, 'root')
    os.mkdir(root)
    outside = trees.outside_tree(d)
    made = trees.build(root, case['tree'], outside)
    for name, to, rest in case['extra']:  # chains and loops by name
        full = os.path.join(root, name)
        if not os.path.lexists(full):
            os.symlink(to + rest, full)
            made.append(name)
    cls = CLASSES[case['cls']]
    os.chdir(root)

    rels = list(made[1:])
    for r in made[1:]:
        for t in case['through']:
            rels.append(os.path.join(r, t))
            rels.append(os.path.join(r, t, t))
    good = bad = False
    for rel in rels:
        full = os.path.join(root, rel)
        if cls is ZipPath and '.zip' in full:
            continue
        p = cls(rel if case['rel'] else full)
        try:
            s, err = os.stat(full), None
        except OSError as e:
            s, err = None, e.errno
        islink = os.path.islink(full)
        isdir, isfile = os.path.isdir(full), os.path.isfile(full)
        if islink:
            good |= s is not None
            bad |= s is None
        for name, want in (('exists', s is not None), ('is_file', isfile),
                           ('is_dir', isdir), ('is_symlink', islink),
                           ('is_broken_symlink', islink and s is None),
                           ('exists_not_symlink', s is not None and not islink)):
            how, got = outcome(getattr(p, name))
            check(how == 'ok', '{} of {!r} raised {}', name, rel,
                  describe(got) if how == 'err' else '')
            check(got is want, '{} of {!r} ({}): {} expected {}', name, rel,
                  os.readlink(full) if islink else errno.errorcode.get(err), got, want)
        if islink:
            text = os.readlink(full)
            equal(p.readlink(raw=True), text, f'raw readlink of {rel!r}')
            got = p.readlink()
            check(isinstance(got, pathlib.PurePath) and got == pathlib.PurePath(text),
                  'readlink of {!r}: {!r}', rel, got)
        else:
            check(outcome(p.readlink)[0] == 'err', 'readlink of {!r} which is no link', rel)
        for word, m in (('read', os.R_OK), ('write', os.W_OK), ('execute', os.X_OK)):
            for follow in (True, False):
                want = os.access(full, m, follow_symlinks=follow)
                for arg in (word, m):
                    how, got = outcome(p.access, arg, follow_symlinks=follow)
                    check(how == 'ok' and got is want, 'access {} of {!r} (follow {}): {}',
                          arg, rel, follow, got)
            equal(outcome(p.access, word), ('ok', os.access(full, m)), f'access of {rel!r}')
        how, got = outcome(p.resolve)
        end = os.path.realpath(full)
        try:
            os.stat(end)
            loop = False
        except OSError as e:
            loop = e.errno == errno.ELOOP
        if loop:
            ctx.note('loop')
            check(how == 'err' and isinstance(got, RuntimeError),
                  'resolve of the loop {!r}: {!r}', rel, got)
        else:
            check(how == 'ok', 'resolve of {!r}: {}', rel,
                  describe(got) if how == 'err' else '')
            equal(got.as_posix(), end, f'resolve of {rel!r}')

    for i, mode in case['modes']:
        full = os.path.join(root, made[i % len(made)])
        if os.path.islink(full) or not os.path.isfile(full):
            continue
        os.chmod(full, mode)
        ctx.note('access')
        p = cls(full)
        for word, m in (('read', os.R_OK), ('write', os.W_OK), ('execute', os.X_OK)):
            want = os.access(full, m)
            for arg in (word, m):
                got = p.access(arg)
                check(got is want, 'access {} of mode {:o}: {}', arg, mode, got)
    if bad and good:
        ctx.nontrivial()
    # names that nothing can have, in any place
    for r in ['', *made[1:3]]:
        for odd in ('z' * 256, 'x\0y', ('z' * 255 + '/') * 17):
            p = cls(os.path.join(r if case['rel'] else os.path.join(root, r), odd))
            for name in ('exists', 'is_file', 'is_dir', 'is_symlink', 'is_broken_symlink',
                         'exists_not_symlink'):
                equal(outcome(getattr(p, name)), ('ok', False),
                      f'{name} of an impossible name of {len(odd)} below {r!r}')
    p = cls(root)
    for follow in (True, False):
        how, got = outcome(p.access, 'anything', follow_symlinks=follow)
        check(how == 'err' and isinstance(got, TypeError), 'access with a bad mode: {}', got)
