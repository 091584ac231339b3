import os
from hypothesis import strategies as st
import gen
from framework import check, equal

from augpathlib import AugmentedPath, LocalPath, RepoPath

ID = 'C01'
COUNTS = {'quick': 48000, 'thorough': 400000}
RULE = ('pairs of absolute paths made of a shared start and two ends with names '
        'from a small set, so that ancestors, siblings, cousins and names that '
        'begin with other names are common.  Non-trivial: neither path is the '
        'other and they share more than the root.')
CLASSES = AugmentedPath, LocalPath, RepoPath
NAMES = ['a', 'b', 'ab', 'a b', '.a', 'a.b', '...', '\u00e9', 'c', '-', '~']


def strategy(tier):
    parts = st.lists(st.one_of(st.sampled_from(NAMES), gen.fname(max_size=4)), max_size=4)
    return st.tuples(parts, parts, parts, st.integers(0, 2))


def run(case, ctx):
    start, one, two, c = case
    cls = CLASSES[c]
    pa, pb = start + one, start + two
    a, b = cls('/', *pa), cls('/', *pb)
    common = []
    for x, y in zip(pa, pb):
        if x != y:
            break
        common.append(x)
    if common and pa != pb:
        ctx.nontrivial()
    base = a.commonpath(b)
    equal(base.as_posix(), '/' + '/'.join(common), 'commonpath')
    equal(b.commonpath(a).as_posix(), base.as_posix(), 'commonpath the other way')
    for to, frm, pt, pf in ((a, b, pa, pb), (b, a, pb, pa)):
        rel = to.relative_path_from(frm)
        other = frm.relative_path_to(to)
        equal(other.as_posix(), rel.as_posix(), 'relative_path_to')
        check(type(rel) is type(a), 'the result is a {}', type(rel))
        check(not rel.is_absolute(), 'the result is absolute {}', rel)
        within = pt[:len(pf)] == pf  # start is the destination or above it
        folder = pf if within else pf[:-1]
        ctx.note('down' if within else 'up')
        got = os.path.normpath(os.path.join('/' + '/'.join(folder), rel.as_posix()))
        equal(got, to.as_posix(), f'{rel.as_posix()!r} from {frm.as_posix()!r}')
        ups = 0
        for part in rel.parts:
            if part != '..':
                break
            ups += 1
        check('..' not in rel.parts[ups:], '{} goes up again', rel)
        equal(ups, max(0, len(folder) - len(common)), f'levels up in {rel.as_posix()!r} '
              f'from {frm.as_posix()!r} to {to.as_posix()!r}')
