"""What a property module and the worker share.

A property module (harness/props/<id>.py) has

    ID        the property id
    RULE      how cases are made and what makes one non-trivial
    COUNTS    {'quick': n, 'thorough': n}: cases, over all the workers
    strategy(tier)   a Hypothesis strategy of plain python literals
    run(case, ctx)   interpret the case against the real code and the oracle,
                     raise Violation when they disagree

A case is plain data (it survives repr and ast.literal_eval), so that a
shrunk failing case is its own replay file and runs without Hypothesis.
"""

import os
import sys
import errno
import shutil
import stat
import traceback
from contextlib import contextmanager


class Violation(Exception):
    """ the code under test broke the property """


class HarnessError(Exception):
    """ the check itself is broken, never a statement about the code """


class CaseTimeout(BaseException):
    """ a case did not finish """


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def equal(got, want, what):
    if got != want or (type(want) in (bytes, str, bool, int, type(None))
                       and type(got) is bool and type(want) is not bool):
        raise Violation(f'{what}: got {short(got)} expected {short(want)}')


def short(value, n=400):
    r = repr(value)
    return r if len(r) <= n else f'{r[:n]} ... ({len(r)} chars)'


@contextmanager
def rejects(*types, what='call'):
    """ the block must raise one of types """
    try:
        yield
    except types:
        return
    except Exception as e:
        raise Violation(f'{what}: expected {[t.__name__ for t in types]} '
                        f'but {type(e).__name__}: {e}') from e
    raise Violation(f'{what}: expected {[t.__name__ for t in types]} '
                    'but nothing was raised')


def outcome(func, *args, **kwargs):
    """ ('ok', value) or ('err', exception) """
    try:
        return 'ok', func(*args, **kwargs)
    except Exception as e:
        return 'err', e


def force_rmtree(path):
    """ remove a scratch directory of the harness, not the code under test """
    if os.path.islink(path) or not os.path.isdir(path):
        try:
            os.unlink(path)
        except FileNotFoundError:
            pass
        return

    os.chmod(path, 0o700)
    for base, subs, _ in os.walk(path):
        for n in subs:
            p = os.path.join(base, n)
            if not os.path.islink(p):
                os.chmod(p, 0o700)
    shutil.rmtree(path)


def snapshot(root, ignore=()):
    """ every entry below root: {relative path: (kind, content, mode)} with
    symlinks not followed, taken with plain os calls """
    out = {}
    stack = ['']
    while stack:
        rel = stack.pop()
        full = os.path.join(root, rel) if rel else root
        with os.scandir(full) as it:
            entries = list(it)
        for e in entries:
            r = os.path.join(rel, e.name)
            if r in ignore:
                continue
            st = e.stat(follow_symlinks=False)
            if stat.S_ISLNK(st.st_mode):
                out[r] = 'link', os.readlink(e.path)
            elif stat.S_ISDIR(st.st_mode):
                out[r] = 'dir', None
                stack.append(r)
            elif stat.S_ISREG(st.st_mode):
                with open(e.path, 'rb') as f:
                    out[r] = 'file', f.read()
            else:
                out[r] = 'other', stat.S_IFMT(st.st_mode)
    return out


class Ctx:
    """ per case services: scratch directories and classification """

    def __init__(self, worker_dir, shm_dir=None, tier='quick'):
        self.worker_dir = worker_dir
        self.shm_dir = shm_dir
        self.tier = tier
        self.n = 0
        self.labels = set()
        self.trivial = True
        self._dirs = []

    def begin(self):
        self.labels = set()
        self.trivial = True
        self._dirs = []
        os.chdir(self.worker_dir)

    def end(self):
        os.chdir(self.worker_dir)
        for d in self._dirs:
            force_rmtree(d)
        self._dirs = []

    def scratch(self, shm=False):
        base = self.shm_dir if shm else self.worker_dir
        if base is None:
            return None
        self.n += 1
        # fixed width so that no behaviour depends on how many cases ran
        d = os.path.join(base, f'c{self.n:08d}')
        os.mkdir(d)
        self._dirs.append(d)
        return d

    def note(self, *labels):
        self.labels.update(labels)

    def nontrivial(self, *labels):
        self.trivial = False
        self.labels.update(labels)


RESOURCE = errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EDQUOT


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ''
    for fr in reversed(tb):
        if f'{os.sep}augpathlib{os.sep}' in fr.filename:
            where = f' [{os.path.basename(fr.filename)} {fr.name}]'
            break
    return f'{type(e).__name__}: {short(str(e), 600)}{where}'


_breakpoints = []


def breakpointhook(*args, **kwargs):
    """ a program that stops in a debugger never comes back to its user """
    fr = sys._getframe(1)
    _breakpoints.append(f'{os.path.basename(fr.f_code.co_filename)} {fr.f_code.co_name}')


def execute(prop, case, ctx):
    """ run one case, None or the description of the violation,
    HarnessError and resource problems propagate """
    del _breakpoints[:]
    out = _execute(prop, case, ctx)
    if out is None and _breakpoints:
        return f'stopped in the debugger [{_breakpoints[0]}]'
    return out


def _execute(prop, case, ctx):
    ctx.begin()
    try:
        reset = getattr(prop, 'reset', None)
        if reset is not None:
            reset()
        prop.run(case, ctx)
        return None
    except Violation as e:
        return f'{e}'
    except (HarnessError, MemoryError, ImportError):
        raise
    except Exception as e:
        if isinstance(e, OSError) and e.errno in RESOURCE:
            raise HarnessError(describe(e)) from e
        return 'unexpected ' + describe(e)
    except (CaseTimeout, KeyboardInterrupt):
        raise
    except BaseException as e:  # nothing here may raise those
        return 'unexpected ' + describe(e)
    finally:
        ctx.end()
