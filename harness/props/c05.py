import io
import os
from contextlib import redirect_stdout
from hypothesis import strategies as st
from framework import Violation, check, equal, outcome, describe, HarnessError

from augpathlib import AugmentedPath, LocalPath, RepoPath

ID = 'C05'
COUNTS = {'quick': 12000, 'thorough': 150000}
RULE = ('random programs of nested with blocks, pushes, pops and plain directory '
        'changes over a pool of path objects (absolute, relative, reused, some '
        'not folders or not to be entered), bodies that raise, and folders removed while inside them or while '
        'on the stack.  Non-trivial: at least two nested with blocks, or a push and '
        'a pop.')
DIRS = ['.', 'a', 'a/b', 'a/b/c', 'd', 'd/a', 'file', 'missing', '..', 'a/link', 'locked', 'a/nolist']


class Boom(Exception):
    pass


def strategy(tier):
    ref = st.tuples(st.integers(0, len(DIRS) - 1), st.booleans())
    leaf = st.one_of(
        st.tuples(st.just('pushd'), ref),
        st.tuples(st.just('pushd'), ref),
        st.tuples(st.just('popd'), st.sampled_from([0, 0, 0, 0, 1, 2])),
        st.tuples(st.just('popd'), st.just(0)),
        st.tuples(st.just('chdir'), ref),
        st.tuples(st.just('vanish'), st.booleans()),
        st.tuples(st.just('pushvanish'), ref),
    )
    block = st.recursive(
        st.lists(leaf, max_size=3),
        lambda inner: st.lists(st.one_of(
            leaf, st.tuples(st.just('with'), ref, st.booleans(), inner)),
            min_size=1, max_size=4), max_leaves=8)
    return st.tuples(block, st.integers(0, 2))


def drain():
    with redirect_stdout(io.StringIO()):
        stack = getattr(AugmentedPath, '_stack', None)
        if hasattr(stack, 'clear'):
            stack.clear()
            return
        here = os.getcwd()
        for _ in range(1000):
            if outcome(AugmentedPath.popd)[1] is None:
                break
        os.chdir(here)


class Interp:

    def __init__(self, root, cls, ctx):
        self.root = root
        self.cls = cls
        self.ctx = ctx
        self.pool = {}
        self.stack = []
        self.cwd = root
        self.depth = 0
        self.maxdepth = 0
        self.pushes = 0
        self.pops = 0
        self.fresh = 0

    def path(self, ref):
        i, absolute = ref
        if ref not in self.pool:
            name = DIRS[i]
            self.pool[ref] = self.cls(os.path.join(self.root, name) if absolute else name)
        return self.pool[ref]

    def at(self, what):
        equal(os.getcwd(), self.cwd, f'working directory {what}')

    def where(self, p):
        """ the real folder a path means here, None if it is not one """
        full = os.path.join(self.cwd, os.fspath(p))
        if os.path.isdir(full) and os.access(full, os.X_OK):
            return os.path.realpath(full)

    def block(self, ops):
        for op in ops:
            getattr(self, op[0])(*op[1:])
            self.at(f'after {op[0]} {op[1]}')

    def chdir(self, ref):
        p = self.path(ref)
        to = self.where(p)
        how, res = outcome(p.chdir)
        if to is None:
            check(how == 'err' and isinstance(res, OSError), 'chdir to no folder')
        else:
            check(how == 'ok', 'chdir: {}', res)
            self.cwd = to

    def pushd(self, ref):
        p = self.path(ref)
        to = self.where(p)
        how, res = outcome(p.pushd)
        if to is None:
            check(how == 'err' and isinstance(res, OSError),
                  'pushd to what is not a folder: {}', res)
            self.ctx.note('failed push')
        else:
            check(how == 'ok', 'pushd: {}', res)
            self.stack.append(self.cwd)
            self.cwd = to
            self.pushes += 1

    def popd(self, n):
        how, res = outcome(AugmentedPath.popd, n) if n else outcome(AugmentedPath.popd)
        if not self.stack:
            check(how == 'ok' and res is None, 'popd of an empty stack: {}', res)
        elif n >= len(self.stack):
            check(how == 'err', 'popd beyond the stack')
        else:
            check(how == 'ok', 'popd: {}', res)
            self.cwd = self.stack.pop(-1 - n)
            equal(os.fspath(res), self.cwd, 'popd returned')
            self.pops += 1

    def mkfresh(self):
        self.fresh += 1
        p = os.path.join(self.root, f'fresh{self.fresh}')
        os.mkdir(p)
        return p

    def vanish(self, boom):
        """ the entered folder is removed while inside of it """
        f = self.mkfresh()
        p = self.cls(f)
        try:
            with p:
                equal(os.getcwd(), f, 'working directory inside with')
                os.rmdir(f)
                if boom:
                    raise Boom
        except Boom:
            pass
        self.ctx.note('vanish')

    def pushvanish(self, ref):
        """ pop to a folder that is gone fails and changes nothing """
        p = self.path(ref)
        if not p.is_absolute() or self.where(p) is None:
            return
        f = self.mkfresh()
        back = self.cwd
        os.chdir(f)
        self.cwd = f
        self.pushd(ref)
        os.rmdir(f)
        how, res = outcome(AugmentedPath.popd)
        check(how == 'err' and isinstance(res, OSError), 'popd to a folder that is gone')
        self.at('after popd failed')
        os.mkdir(f)
        self.popd(0)
        self.at('after popd succeeded')
        os.chdir(back)
        self.cwd = back
        os.rmdir(f)
        self.ctx.note('push vanish')

    def with_(self, ref, boom, body):
        p = self.path(ref)
        to = self.where(p)
        here = self.cwd
        if to is None and os.path.isdir(os.path.join(here, os.fspath(p))):
            how, res = outcome(p.__enter__)
            check(how == 'err' and isinstance(res, PermissionError),
                  'entering a folder that cannot be: {}', res)
            self.at('after with failed')
            self.ctx.note('failed with')
            return
        self.depth += 1
        self.maxdepth = max(self.maxdepth, self.depth)
        try:
            with p:
                if to is not None:
                    self.cwd = to
                self.at('inside with')
                self.block(body)
                if boom:
                    raise Boom
            check(not boom, 'the exception did not leave the with block')
        except Boom:
            check(boom, 'wrong exception')
        self.depth -= 1
        if to is not None:
            self.cwd = here
        self.at('after with')


setattr(Interp, 'with', Interp.with_)


def run(case, ctx):
    program, c = case
    d = os.path.realpath(ctx.scratch())
    root = os.path.join(d, 'root')
    for n in ('a/b/c', 'd/a'):
        os.makedirs(os.path.join(root, n))
    open(os.path.join(root, 'file'), 'w').close()
    os.mkdir(os.path.join(root, 'locked'), 0)  # cannot be entered
    os.mkdir(os.path.join(root, 'a', 'nolist'))
    os.chmod(os.path.join(root, 'a', 'nolist'), 0o300)
    os.symlink('../d', os.path.join(root, 'a', 'link'))
    os.chdir(root)
    drain()
    it = Interp(root, (AugmentedPath, LocalPath, RepoPath)[c], ctx)
    try:
        with redirect_stdout(io.StringIO()):
            it.block(program)
            # what is left on the stack comes back in order
            while it.stack:
                it.popd(0)
                it.at('after the last pops')
    finally:
        drain()
    if it.maxdepth > 1 or (it.pushes and it.pops):
        ctx.nontrivial()
