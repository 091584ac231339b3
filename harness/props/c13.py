import os
import errno
import builtins
from pathlib import Path
from hypothesis import strategies as st
import gen
from framework import Violation, check, equal

import augpathlib
from augpathlib import LocalPath, AugmentedPath
from augpathlib import utils

ID = 'C13'
COUNTS = {'quick': 6000, 'thorough': 80000}
RULE = ('a machine whose /etc/machine-id and /var/tmp/machine-id (stand-ins in the '
        'scratch folder) are each missing, empty, full, unreadable, a link or a '
        'link to nothing, and one to six steps: a program starts and takes the '
        'identifier, starts while another one starts at some point, fails at some '
        'point, the first file is made, emptied or removed, the machine is another '
        'one, or a new identifier is asked for; between them the ids of paths.  '
        'Non-trivial: there is no full first file in some step.')

KINDS = ['missing', 'missing', 'empty', 'full', 'full', 'unreadable', 'link', 'dangling']


HEX = '0123456789abcdef' * 2
MACHINES = [HEX + '\n', HEX[:-1] + '0\n', '1' + HEX[1:] + '\n', HEX[:16] + '7' + HEX[17:] + '\n',
            HEX, HEX[:8], HEX.upper() + '\n', HEX * 300, HEX * 300 + '1', ' ' + HEX]


def strategy(tier):
    step = st.one_of(
        st.tuples(st.just('start'), st.sampled_from(['sub', 'pure', 'other'])),
        st.tuples(st.just('start'), st.sampled_from(['sub', 'pure', 'other'])),
        st.tuples(st.just('both'), st.integers(0, 12)),
        st.tuples(st.just('fail'), st.integers(0, 6)),
        st.tuples(st.just('etc'), st.sampled_from(KINDS)),
        st.tuples(st.just('machine'), st.integers(0, len(MACHINES) - 1)),
        st.tuples(st.just('machine'), st.integers(0, len(MACHINES) - 1)),
        st.tuples(st.just('new'), st.sampled_from(['sub', 'pure'])))
    return st.fixed_dictionaries({
        'etc': st.sampled_from(KINDS), 'var': st.sampled_from(KINDS),
        'steps': st.lists(step, min_size=1, max_size=6),
        'names': st.lists(gen.fname(), min_size=1, max_size=3),
    })


def put(path, kind, text):
    """ make the stand in """
    target = path + '.target'
    for p in (path, target):
        if os.path.lexists(p):
            os.unlink(p)
    if kind == 'missing':
        return
    if kind in ('link', 'dangling'):
        os.symlink(target, path)
        path = target
    if kind != 'dangling':
        with open(path, 'w') as f:
            f.write('' if kind == 'empty' else text)
        if kind == 'unreadable':
            os.chmod(path, 0)


def value(path):
    """ what the file has to say, None when it cannot be used """
    try:
        with open(path) as f:
            return f.read() or None
    except OSError:
        return None


def classes(d):
    """ classes that see the stand ins in place of the real files """
    def place(args):
        if args and isinstance(args[0], str) and args[0].startswith(('/etc/', '/var/tmp/')):
            return (d + args[0],) + args[1:]
        return args

    class Sand(LocalPath):
        sysid = None

        def __new__(cls, *args, **kwargs):
            return super().__new__(cls, *place(args), **kwargs)

        def __init__(self, *args, **kwargs):
            super().__init__(*place(args), **kwargs)

    class Pure(Path):
        def __new__(cls, *args, **kwargs):
            return super().__new__(cls, *place(args), **kwargs)

        def __init__(self, *args, **kwargs):
            super().__init__(*place(args), **kwargs)

    Sand._bind_flavours()
    return Sand, Pure


class Stop(OSError):
    pass


def run(case, ctx):
    d = os.path.realpath(ctx.scratch())
    os.makedirs(d + '/etc')
    os.makedirs(d + '/var/tmp')
    etc, var = d + '/etc/machine-id', d + '/var/tmp/machine-id'
    Sand, Pure = classes(d)
    put(etc, case['etc'], MACHINES[0])
    put(var, case['var'], 'temporary')
    known = {}  # the text of the file to the identifier

    def ids(cls):
        sysid = cls.sysid
        check(isinstance(sysid, str) and sysid and sysid.isascii()
              and not set(sysid) & set(':/\\ \n\t'), f'the identifier is {sysid!r}')
        return sysid

    def taken(cls, text):
        """ a program took its identifier while the file had this text """
        sysid = ids(cls)
        equal(known.setdefault(text, sysid), sysid, f'identifier for {text!r}')
        equal(len(set(known.values())), len(known), f'identifiers for {sorted(known)}: different')
        paths = [cls(d, n) for n in case['names']] + [
            cls(n) for n in case['names']] + [cls(n.swapcase()) for n in case['names']]
        for p in paths:
            for q in paths:
                equal(p.id == q.id, p.as_posix() == q.as_posix(),
                      f'{p!r} and {q!r} have the same id')
            equal(p.id.partition(':')[0], sysid, f'the machine in the id of {p!r}')
            equal(cls(p.as_posix()).id, p.id, f'id of {p!r} again')

    def program(how='sub'):
        """ start one, return its class or the location it found """
        if how == 'sub':
            class New(Sand):
                sysid = None

            New._bind_flavours()
            New._bind_sysid()
            return New
        return utils.sysidpath(path_class=Pure if how == 'pure' else Sand)

    def usable():
        if value(etc):
            return etc, value(etc)
        ctx.nontrivial()
        return var, value(var)

    for step in case['steps']:
        op, arg = step
        stuck = os.path.lexists(var) and not os.access(var, os.R_OK) and os.path.exists(var)
        where, text = usable()
        if op == 'etc':
            put(etc, arg, MACHINES[0])
        elif op == 'machine':
            put(etc, 'full', MACHINES[arg])
        elif op == 'new':
            if stuck:
                continue
            old = value(var)
            got = utils.sysidpath(ignore_options=True, path_class=Pure if arg == 'pure' else Sand)
            equal(str(got), var, 'where the new identifier is')
            check(value(var) and value(var) != old, 'the new identifier is not new')
        elif stuck and not text:
            continue  # nothing that can be done about it
        elif op == 'start':
            got = program(arg)
            if text:
                check(value(where) == text, 'an identifier that could be used was replaced')
            else:
                check(value(where), 'no identifier was kept')
            if arg == 'sub':
                taken(got, value(where))
                again = program('sub')
                equal(again.sysid, got.sysid, 'the identifier in the next program')
                try:
                    got._bind_sysid()
                except ValueError:
                    pass
                else:
                    raise Violation('an identifier was taken twice')
            else:
                equal(str(got), where, 'where the identifier is')
        elif op == 'both':
            if not text and os.path.lexists(var):
                continue  # only when there is nothing at all yet
            others = []
            with Between(arg, lambda: others.append(program('sub'))) as b:
                first = program('sub')
            if b.done:
                ctx.note('both')
            last = program('sub')
            equal({c.sysid for c in [first, *others]}, {last.sysid},
                  'the identifiers of programs that started together')
            taken(last, value(where))
        elif op == 'fail':
            def fail():
                raise Stop(errno.ENOSPC, os.strerror(errno.ENOSPC))

            try:
                with Between(arg, fail) as b:
                    program('sub')
            except Stop:
                ctx.note('fail')
                if text:
                    equal(value(where), text, 'the identifier after a program failed')
            got = program('sub')
            taken(got, value(where))

        ctx.note(op)

    left = [n for n in os.listdir(d + '/var/tmp') if not n.startswith('machine-id')
            or len(n) > len('machine-id.target')]
    if not any(s[0] == 'fail' for s in case['steps']):
        equal(left, [], 'files that are left over')


class Between:
    """ do something at the nth time that the code under test uses the system """

    names = ['stat', 'link', 'replace', 'rename', 'unlink', 'access']

    def __init__(self, n, act):
        self.n, self.act, self.done, self.inside = n, act, False, False

    def _wrap(self, real):
        def inner(*args, **kwargs):
            self._tick()
            return real(*args, **kwargs)
        return inner

    def _tick(self):
        if self.inside or self.done:
            return
        if self.n:
            self.n -= 1
            return
        self.done = self.inside = True
        try:
            self.act()
        finally:
            self.inside = False

    def __enter__(self):
        self.saved = [(os, n, getattr(os, n)) for n in self.names] + [
            (builtins, 'open', builtins.open), (utils, 'uuid4', utils.uuid4)]
        for mod, n, real in self.saved:
            setattr(mod, n, self._wrap(real))
        real_open = builtins.open

        def opened(*args, **kwargs):
            f = real_open(*args, **kwargs)
            if not self.inside and isinstance(args[0], os.PathLike):
                return File(f, self)
            return f

        builtins.open = opened
        return self

    def __exit__(self, *_):
        for mod, n, real in self.saved:
            setattr(mod, n, real)


class File:
    """ what is written is on the disk at once, and may fail """

    def __init__(self, f, between):
        self._f, self._between = f, between

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self._f.close()

    def __getattr__(self, name):
        return getattr(self._f, name)

    def write(self, data):
        self._between._tick()
        half = len(data) // 2
        n = self._f.write(data[:half])
        self._f.flush()
        self._between._tick()
        n += self._f.write(data[half:])
        self._f.flush()
        self._between._tick()
        return n
