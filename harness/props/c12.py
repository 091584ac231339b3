import os
import time
import threading
from hypothesis import strategies as st
import gen
from framework import Violation, check, equal

import augpathlib
from augpathlib import LocalPath, EatPath, AugmentedPath, XopenPath
from augpathlib.core import XopenHelper

ID = 'C12'
COUNTS = {'quick': 6000, 'thorough': 60000}
RULE = ('a path with a random name (spaces, newlines, quotes, $, *, ;, a leading '
        'dash, bytes that are not text), spelled absolute, relative, with .. or '
        'as a link, that is a file, folder, link, link to nothing or nothing, opened '
        'one to three times with the default program or with a command given by '
        'name, by path, with spaces in it, missing, or not a string.  Non-trivial: '
        'the name has a character that a shell would interpret, or the path '
        'is relative or a link.')


class Both(XopenHelper, LocalPath):
    pass


Both._bind_flavours()


class EatXopen(EatPath, XopenPath, AugmentedPath):
    pass


EatXopen._bind_flavours()


class Own(XopenPath):
    _command = 'own-open'


Own._bind_flavours()

CLASSES = [XopenPath, XopenPath, Both, EatXopen, Own]

# records its arguments and folder, once it is told to go on
SCRIPT = b'''#!/bin/sh
echo noise
echo noise >&2
read go < "%s/go"
for a in "$0" "$(pwd -P; printf x)" "$@"; do printf '%%s\\0' "$a"; done > "%s/part"
mv "%s/part" "%s/done"
'''


def strategy(tier):
    odd = st.sampled_from(['-n', '--help', '-', 'a b', 'a  b ', ' a', 'a\nb', "it's", '"q"',
                           '$HOME', '`x`', '*', 'a;b', 'a&b', 'a|b', '\\', '%s', '%20',
                           'http:', 'file:', '~', '~root', '#a', 'a?b', '{}', '\udce9'])
    name = st.one_of(odd, odd, gen.fname())
    command = st.sampled_from([None, None, None, 'named', 'absolute', 'spaced', 'rel', 5, True,
                               b'named', ('named',), 'missing'])
    return st.fixed_dictionaries({
        'name': name, 'folder': st.one_of(st.just('f'), name),
        'kind': st.sampled_from(['file', 'file', 'dir', 'link', 'broken', 'none']),
        'spell': st.sampled_from(['abs', 'rel', 'rel', 'dots', 'deep', 'here', 'abslink']),
        'cls': st.integers(0, len(CLASSES) - 1),
        'commands': st.lists(command, min_size=1, max_size=3),
    })


def install(path, out):
    o = os.fsencode(out)
    with open(path, 'wb') as f:
        f.write(SCRIPT % (o, o, o, o))
    os.chmod(path, 0o700)


def run(case, ctx):
    d = os.path.realpath(ctx.scratch())
    out = os.path.join(d, 'out')
    tools = os.path.join(d, 'tools')
    base = os.path.join(d, 'base')
    name, folder = case['name'], case['folder']
    if name in ('', '.', '..') or folder in ('', '.', '..') or folder == name:
        return
    for path in (out, tools, base, os.path.join(base, folder)):
        os.mkdir(path)
    for program in ('xdg-open', 'own-open', 'named', 'with space'):
        install(os.path.join(tools, program), out)
    install(os.path.join(base, folder, 'relprog'), out)
    os.mkfifo(os.path.join(out, 'go'))
    sub = os.path.join(base, folder)
    full = os.path.join(sub, name)
    if os.path.lexists(full):
        return
    kind = case['kind']
    if kind == 'file':
        open(full, 'w').close()
    elif kind == 'dir':
        os.mkdir(full)
    elif kind == 'link':
        os.symlink('relprog', full)
    elif kind == 'broken':
        os.symlink('nothing/.meta.a|b', full)

    spell = case['spell']
    start = sub
    if spell == 'abs':
        text = full
    elif spell == 'rel':
        text = name
    elif spell == 'here':
        text = './' + name
    elif spell == 'dots':
        text = os.path.join('..', folder, name)
    elif spell == 'deep':
        start, text = base, os.path.join(folder, name)
    else:
        link = os.path.join(base, 'via-link')
        if os.path.lexists(link):
            return
        os.symlink(folder, link)
        text = os.path.join(link, name)

    cls = CLASSES[case['cls']]
    os.chdir(start)
    path = cls(text)
    before = os.environ['PATH']
    os.environ['PATH'] = tools + ':' + before
    try:
        for command in case['commands']:
            one(path, cls, command, tools, sub, out, start, ctx)
    finally:
        os.environ['PATH'] = before

    ctx.note(kind, spell)
    if spell not in ('abs', 'deep') or kind in ('link', 'broken') or not name.isalnum():
        ctx.nontrivial()


def one(path, cls, command, tools, sub, out, start, ctx):
    given, expect = command, None
    if command == 'missing':
        given = 'no-such-program'
    elif command == 'absolute':
        given = expect = os.path.join(tools, 'named')
    elif command == 'spaced':
        given, expect = 'with space', os.path.join(tools, 'with space')
    elif command == 'rel':
        # dot first, the shell takes its script for an option otherwise
        given = expect = './' + os.path.relpath(os.path.join(sub, 'relprog'), start)
    elif command == 'named':
        expect = os.path.join(tools, 'named')
    else:  # a command that is not a string is none
        expect = os.path.join(tools, 'own-open' if cls is Own else 'xdg-open')

    log = os.path.join(out, 'log')
    waited = []
    late = threading.Timer(30, lambda: (waited.append(1), release(out)))
    late.daemon = True
    with open(log, 'wb') as f:
        saved = os.dup(1), os.dup(2)
        os.dup2(f.fileno(), 1)
        os.dup2(f.fileno(), 2)
        late.start()
        try:
            if command is None:
                result = path.xopen()
            else:
                result = path.xopen(given)
        except FileNotFoundError:
            if command == 'missing':
                ctx.note('missing')
                return
            raise Violation(f'the program of {command!r} was not found')
        finally:
            late.cancel()
            for fd, old in zip((1, 2), saved):
                os.dup2(old, fd)
                os.close(old)

    check(command != 'missing', 'a missing program was not reported')
    check(not waited, 'opening waited for the program')
    equal(result, None, 'result of opening')
    release(out)
    done = os.path.join(out, 'done')
    deadline = time.monotonic() + 30
    while not os.path.exists(done):
        check(time.monotonic() < deadline, 'the program did not get to its end')
        time.sleep(.001)
    with open(done, 'rb') as f:
        program, cwd, *args = [os.fsdecode(a) for a in f.read().split(b'\0')[:-1]]
    os.unlink(done)
    equal(program, expect, f'the program run for {command!r}')
    equal(cwd, start + '\nx', 'the folder that the program runs in')
    equal(len(args), 1, f'arguments for {path!r}: {args}: how many')
    arg, = args
    if arg.startswith('./'):
        arg = arg[2:]
    equal(arg, os.fspath(path), f'the path that {command!r} was given')
    equal(open(log, 'rb').read(), b'', 'what the program wrote to our own output')
    ctx.note('command', repr(command))


def release(out):
    """ let the stand in go on once it is there """
    deadline = time.monotonic() + 30
    while True:
        try:
            fd = os.open(os.path.join(out, 'go'), os.O_WRONLY | os.O_NONBLOCK)
            break
        except OSError:
            if time.monotonic() > deadline:
                raise Violation('the program never started')
            time.sleep(.0005)
    os.write(fd, b'\n')
    os.close(fd)
