import copy
import os
import pathlib
import pickle
import stat
from hypothesis import strategies as st
import gen
from framework import Violation, check, equal, outcome, describe, short

from augpathlib import (AugmentedPath, EatPath, LocalPath, RepoPath, PackagePath,
                        ZipPath, XopenPath)

ID = 'C11'
COUNTS = {'quick': 8000, 'thorough': 80000}
RULE = ('random histories of operations of pathlib on random spellings (absolute, '
        'relative, with . and .. and repeated slashes, odd names, names that are not possible) in a tree of files, '
        'folders and links (to things, to nothing, to themselves), done with a class of '
        'the library in one copy of the tree and with pathlib in another.  Non-trivial: '
        'the file system is changed and something is listed or read.')
ASSUMPTIONS = ['readlink is documented to differ and rename returns nothing, for it only '
               'the effect is compared', 'Linux']

CLASSES = [AugmentedPath, EatPath, LocalPath, RepoPath, PackagePath, ZipPath, XopenPath]
NAMES = ['a', 'b', 'f', 'g.tar.gz', 'l', 'm', 'n', 'loop', '.h', 'x.y', ' ', '-rf', '~', 'é', '*', '[a]',
         'nul\0', '\udcff']
TREE = [('a', None), ('a/b', None), ('f', b'text\r\n'), ('g.tar.gz', b''), ('a/f', b'x' * 99),
        ('a/b/x.y', b'\xff'), ('l', 'a'), ('m', 'f'), ('n', 'nothing'), ('loop', 'loop'),
        ('a/up', '../f'), ('.h', None)]
INSIDE = ('1', '2', '3', 'w')
SUFFIXES = ['', '.x', '.tar.gz', '.', 'x', '.a/b', '..', ' .y']
PATTERNS = ['*', '**', '**/*', '*.gz', '*/f', 'a/*', '.*', '[a-f]', 'f', '../*', '', '/x', 'a/', '**/b/*',
            '?', '*/..', 'nothing/*', 'l/*', '**/f']


def strategy(tier):
    name = st.one_of(st.sampled_from(NAMES[:8]), st.sampled_from(NAMES), gen.fname())
    part = st.one_of(name, name, name, name, st.sampled_from(['.', '', '..']))

    @st.composite
    def spelled(draw):
        parts = draw(st.lists(part, max_size=4))
        while parts.count('..') > 2:
            parts.remove('..')
        return draw(st.booleans()), '/'.join(parts).lstrip('/')

    p = st.one_of(st.tuples(st.booleans(), st.sampled_from([n for n, _ in TREE])), spelled())
    one = lambda *names: st.sampled_from(names)
    pure = st.one_of(
        st.tuples(one('parent', 'parents', 'name', 'suffix', 'suffixes', 'stem', 'parts', 'anchor',
                      'root', 'drive', 'as_posix', 'is_absolute', 'str', 'bytes', 'fspath',
                      'absolute', 'expanduser', 'as_uri', 'is_reserved', 'copy', 'deepcopy',
                      'pickle', 'again'), p),
        st.tuples(one('with_name', 'with_stem'), p, st.one_of(part, st.sampled_from(['', 'a/b']))),
        st.tuples(one('with_suffix'), p, st.one_of(st.sampled_from(SUFFIXES), name)),
        st.tuples(one('match'), p, st.one_of(st.sampled_from(PATTERNS), name)),
        st.tuples(one('join', 'rjoin', 'joinpath', 'relative_to', 'walk_up', 'is_relative_to', 'compare',
                      'with_segments'), p, p),
    )
    look = st.one_of(
        st.tuples(one('iterdir', 'walk', 'bottom_up', 'read_bytes', 'read_text', 'lstat', 'stat', 'exists',
                      'is_dir', 'is_file', 'is_symlink', 'is_fifo', 'is_mount', 'resolve', 'strict', 'lexists', 'owner'), p),
        st.tuples(one('glob', 'rglob'), p, st.sampled_from(PATTERNS)),
        st.tuples(one('samefile'), p, p),
    )
    change = st.one_of(
        st.tuples(one('write_bytes', 'append'), p, st.binary(max_size=9)),
        st.tuples(one('write_text'), p, st.text(max_size=9)),
        st.tuples(one('touch', 'unlink'), p, st.booleans()),
        st.tuples(one('mkdir'), p, st.booleans(), st.booleans()),
        st.tuples(one('rmdir'), p),
        st.tuples(one('rename', 'replace', 'symlink_to', 'hardlink_to'), p, p),
        st.tuples(one('chmod'), p, st.sampled_from([0o700, 0o755, 0o711])),
    )
    return st.tuples(st.integers(0, len(CLASSES) - 1),
                     st.lists(st.one_of(pure, look, change), min_size=1, max_size=12))


def build(base):
    w = os.path.join(base, *INSIDE)
    os.makedirs(w)
    for name, what in TREE:
        full = os.path.join(w, name)
        if what is None:
            os.mkdir(full)
        elif isinstance(what, str):
            os.symlink(what, full)
        else:
            with open(full, 'wb') as f:
                f.write(what)
    return w


def snapshot(base):
    out = {}
    for top, dirs, files in os.walk(base):
        for n in dirs + files:
            full = os.path.join(top, n)
            st_ = os.lstat(full)
            rel = os.path.relpath(full, base)
            if os.path.islink(full):
                out[rel] = os.readlink(full)
            elif os.path.isfile(full):
                with open(full, 'rb') as f:
                    out[rel] = st_.st_mode, f.read(), st_.st_nlink
            else:
                out[rel] = st_.st_mode
    return out


def perform(cls, w, op):
    """ the result of an operation in a form that can be compared """
    kind, (isabs, text), *rest = op

    def make(spelled):
        isabs, text = spelled
        return cls(os.path.join(w, text)) if isabs else cls(text)

    p = make((isabs, text))
    same = type(p)

    def norm(v):
        if isinstance(v, pathlib.PurePath):
            if type(v) is not same:
                raise Violation(f'{kind} of {cls.__name__} {text!r} gives a {type(v).__name__} {v}')
            return str(v), 'path'
        if isinstance(v, os.stat_result):
            return v.st_mode, v.st_nlink, 0 if stat.S_ISDIR(v.st_mode) else v.st_size
        if isinstance(v, tuple):
            return tuple(map(norm, v))
        if isinstance(v, list):
            return list(map(norm, v))
        return v

    def do():
        if kind in ('parent', 'name', 'suffix', 'suffixes', 'stem', 'parts', 'anchor', 'root', 'drive'):
            return getattr(p, kind)
        if kind == 'parents':
            return [*p.parents, *([p.parents[0], p.parents[-1]] if len(p.parents) else [])]
        if kind in ('str', 'bytes'):
            return (str if kind == 'str' else bytes)(p)
        if kind == 'fspath':
            return os.fspath(p)
        if kind in ('copy', 'deepcopy'):
            q = getattr(copy, kind)(p)
            return q, q == p, hash(q) == hash(p)
        if kind == 'pickle':
            if '_' in same.__name__:  # a class made on the fly
                return p, True, True
            q = pickle.loads(pickle.dumps(p))
            return q, q == p, hash(q) == hash(p)
        if kind == 'again':
            q = cls(p)
            r = cls(*p.parts)
            s = cls(pathlib.Path(p))
            return q, r, s, p == q == r == s, len({p, q, r, s}), p == pathlib.Path(str(p)), \
                hash(p) == hash(pathlib.Path(str(p)))
        if kind == 'join':
            return p / make(rest[0]), p / rest[0][1], p / pathlib.PurePath(rest[0][1])
        if kind == 'rjoin':
            return rest[0][1] / p
        if kind == 'joinpath':
            return p.joinpath(), p.joinpath(rest[0][1]), p.joinpath('x', make(rest[0]), 'y')
        if kind == 'with_segments':
            return p.with_segments(rest[0][1], 'x')
        if kind == 'walk_up':
            return p.relative_to(make(rest[0]), walk_up=True)
        if kind in ('relative_to', 'is_relative_to', 'samefile'):
            return getattr(p, kind)(make(rest[0]))
        if kind == 'compare':
            q = make(rest[0])
            return p == q, p != q, p < q, p <= q, p > q, p >= q, (hash(p) == hash(q)) >= (p == q), \
                sorted([p, q]), p == str(p)
        if kind in ('walk', 'bottom_up'):
            return sorted(((d, sorted(a), sorted(b)) for d, a, b in p.walk(top_down=kind == 'walk')),
                          key=str)
        if kind in ('iterdir', 'glob', 'rglob'):
            return sorted(getattr(p, kind)(*rest), key=str)
        if kind == 'append':
            with p.open('ab') as f:
                f.write(rest[0])
            with open(p, 'rb') as f:
                return f.read()
        if kind == 'write_text':
            return p.write_text(rest[0], encoding='utf-8', newline='')
        if kind == 'read_text':
            return p.read_text(encoding='utf-8')
        if kind == 'touch':
            return p.touch(exist_ok=rest[0])
        if kind == 'unlink':
            return p.unlink(missing_ok=rest[0])
        if kind == 'mkdir':
            return p.mkdir(parents=rest[0], exist_ok=rest[1])
        if kind == 'strict':
            return p.resolve(strict=True)
        if kind == 'lexists':
            return p.exists(follow_symlinks=False), p.exists(follow_symlinks=True)
        if kind == 'rename':
            p.rename(make(rest[0]))
            return
        if kind in ('replace', 'hardlink_to', 'symlink_to'):
            return getattr(p, kind)(make(rest[0]))
        return getattr(p, kind)(*rest)

    os.chdir(w)
    how, got = outcome(do)
    if how == 'err':
        if isinstance(got, Violation):
            raise got
        if isinstance(got, OSError):
            return how, type(got).__name__, got.errno
        return how, type(got).__name__
    return how, norm(got)


def run(case, ctx):
    c, ops = case
    cls = CLASSES[c]
    d = os.path.realpath(ctx.scratch())
    bases = [os.path.join(d, n) for n in ('A', 'B')]
    for b in bases:
        build(b)
    here = os.path.join(d, 'here')  # both are done at the same place
    w = os.path.join(here, *INSIDE)
    changed = looked = False
    last = snapshot(bases[0])
    for op in ops:
        if not os.path.isdir(os.path.join(bases[0], *INSIDE)):
            break  # moved by the last one
        results = []
        for base, k in zip(bases, (pathlib.Path, cls)):
            os.rename(base, here)
            try:
                results.append(perform(k, w, op))
            finally:
                os.chdir(d)
                os.rename(here, base)
        want, got = results
        if want != got:
            raise Violation(f'{op} as {cls.__name__} gives {short(got)} but pathlib gives {short(want)}')
        now = [snapshot(b) for b in bases]
        equal(now[1], now[0], f'effect of {op} as {cls.__name__} compared with pathlib')
        changed = changed or now[0] != last
        last = now[0]
        looked = looked or (want[0] == 'ok' and op[0] in (
            'iterdir', 'walk', 'glob', 'rglob', 'read_bytes', 'read_text', 'append', 'stat', 'bottom_up'))
        if want[0] == 'ok':
            ctx.note(op[0])
    if changed and looked:
        ctx.nontrivial()
