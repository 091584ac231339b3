from hypothesis import strategies as st
from framework import Violation, check, equal, outcome

from packaging.version import Version
from augpathlib.package import next_version

ID = 'G01'
COUNTS = {'quick': 40000, 'thorough': 800000}
RULE = ('random versions (epoch, 1 to 5 release numbers, pre, post, dev and local '
        'parts each present or not), every phase to go to and release component to '
        'bump, 1 to 4 steps one after the other.  Non-trivial: a step is taken.')
ASSUMPTIONS = ['whether an explicit step between pre release phases also bumps the '
               'release is left open']

number = st.one_of(st.integers(0, 3), st.sampled_from([9, 10, 99, 2024, 20240101]))
PHASES = ('current', 'dev', 'pre', 'a', 'b', 'rc', 'release', 'major', 'minor',
          'micro', 'post', 'local')
COMPS = 'release', 'major', 'minor', 'micro'


def strategy(tier):
    opt = lambda s: st.one_of(st.none(), s)
    return st.fixed_dictionaries({
        'epoch': st.sampled_from([0, 0, 0, 1, 2]),
        'release': st.lists(number, min_size=1, max_size=5),
        'pre': opt(st.tuples(st.sampled_from(['a', 'b', 'rc']), number)),
        'post': st.one_of(st.none(), opt(number)),
        'dev': opt(number),
        'local': st.one_of(st.none(), opt(st.lists(
            st.one_of(number, st.sampled_from(['a', 'abc', 'g1f'])), min_size=1, max_size=3))),
        'steps': st.lists(st.tuples(st.sampled_from(PHASES + ('nonsense',)),
                                    st.sampled_from(COMPS)), min_size=1, max_size=4),
    })


def phase(v):
    """ local, post, pre release, dev and else release """
    if v.local is not None:
        return 'local'
    if v.post is not None:
        return 'post'
    if v.pre is not None:
        return v.pre[0]
    if v.dev is not None:
        return 'dev'
    return 'release'


def bumped(release, comp):
    i = {'major': 0, 'minor': 1, 'micro': 2, 'release': len(release) - 1}[comp]
    r = list(release) + [0] * (i + 1 - len(release))
    return tuple(r[:i] + [r[i] + 1] + [0] * (len(r) - i - 1))


PRE = 'a', 'b', 'rc'


def model(state, release, to, comp):
    """ (phases the result may be in, releases it may have) or None """
    up = bumped(release, comp)
    if to == 'current':
        to = state
        if state == 'release':
            return {'release'}, {bumped(release, 'release')}
        return {state}, {release}
    if to == 'dev':
        if state in PRE:
            return
        return {'dev'}, {release if state == 'dev' else up}
    if to == 'pre':
        if state == 'dev':
            return {'a'}, {release}
        if state in PRE:
            return {PRE[min(2, PRE.index(state) + 1)]}, {release}
        return {'a'}, {up}
    if to in PRE:
        if state == 'dev':
            return {to}, {release}
        if state in PRE:
            if PRE.index(to) < PRE.index(state):
                return
            return {to}, {release, up}
        return {to}, {up}
    if to == 'release':
        return {'release'}, {release if state == 'dev' or state in PRE
                             else bumped(release, 'release')}
    if to in ('major', 'minor', 'micro'):
        return {'release'}, {bumped(release, to)}
    if to == 'post':
        return ({'post'}, {release}) if state == 'release' else None
    if to == 'local':
        return {'local'}, {release}


def run(case, ctx):
    s = f"{case['epoch']}!" if case['epoch'] else ''
    s += '.'.join(map(str, case['release']))
    if case['pre']:
        s += '{}{}'.format(*case['pre'])
    if case['post'] is not None:
        s += f".post{case['post']}"
    if case['dev'] is not None:
        s += f".dev{case['dev']}"
    if case['local']:
        s += '+' + '.'.join(map(str, case['local']))
    v = Version(s)
    for to, comp in case['steps']:
        before = str(v)
        state = phase(v)
        want = model(state, v.release, to, comp)
        tag, n = outcome(next_version, v, to, comp)
        what = f'{v} to {to} ({comp})'
        ctx.note(f'{"pre" if state in PRE else state} to {to}'
                 + (' refused' if want is None else ''))
        if tag == 'err':
            check(isinstance(n, ValueError), '{}: {}: {}', what, type(n).__name__, n)
            check(want is None, '{} was refused: {}', what, n)
            equal(str(v), before, f'{what}: the version that was asked for')
            continue
        check(want is not None, '{} was not refused: {}', what, n)
        ctx.nontrivial()
        equal(str(v), before, f'{what}: the version that was asked for')
        check(Version(str(n)) == n and isinstance(n, Version), '{}: {} is no version', what, n)
        check(n > v, '{}: {} is not later', what, n)
        check(phase(n) in want[0], '{}: {} is {}', what, n, phase(n))
        equal(n.epoch, v.epoch, f'{what}: epoch of {n}')
        check(n.release in want[1], '{}: {} is not one of the releases {}', what, n,
              sorted(want[1]))
        if phase(n) == 'release':
            equal((n.pre, n.post, n.dev, n.local), (None,) * 4, f'{what}: parts of {n}')
        elif phase(n) != 'local':
            equal(n.local, None, f'{what}: local part of {n}')
        v = n
