import os
from hypothesis import strategies as st
import gen
from framework import check, equal, short, Violation, rejects, outcome

from augpathlib import PathMeta, AugmentedPath, LocalPath, exceptions as exc

ID = 'A02'
COUNTS = {'quick': 24000, 'thorough': 200000}
RULE = ('random metadata as for A01 but with text over the reserved characters '
        'of the symlink format too (| ! # / . and empty), encoded, written as a '
        'real symlink with or without the defensive leading name and read back '
        'through a path, and from links whose name was changed to any other or to nearly '
        'the same.  Non-trivial: at least three fields have a value.')
ASSUMPTIONS = ['error tokens are not empty and have no ;',
               'user ids that are numeric strings read back as numbers',
               'no NUL in text, the link target fits in PATH_MAX']

safe = gen.text_of(gen.ASCII + "-: ~'\"\\%,;.\u00e9\u4e2d\n", 0, 20)
slashed = gen.text_of(gen.ASCII + '/.', 0, 12)
evil = st.one_of(gen.text_of(gen.ASCII + gen.SPECIAL, 0, 12),
                 st.sampled_from(['#', '.', '..', '|', '!', '/', '//', './', 'a/b.c', '##',
                                  'a|b', 'a!b', 'a/b|c', 'a.b!c', 'a/', '/a', '...']))
plain = gen.text_of(gen.ASCII, 1, 10)
errors = gen.text_of(gen.ASCII + '-. /', 1, 10)
evil_errors = gen.text_of(gen.ASCII + gen.SPECIAL.replace(';', ''), 1, 6)


def metas():
    return st.one_of(
        gen.meta_fields(st.one_of(safe, slashed), errors, names=safe),
        gen.meta_fields(st.one_of(plain, evil), evil_errors,
                        names=st.one_of(plain, evil)))


NEAR = {  # names that are nearly the one it was written for
    '<swapcase>': str.swapcase,
    '<lower>': str.lower,
    '<longer>': lambda n: n + 'x',
    '<suffix>': lambda n: n + '.txt',
    '<prefix>': lambda n: 'x' + n,
    '<shorter>': lambda n: n[:-1],
    '<rest>': lambda n: n[1:],
    '<stem>': lambda n: n.split('.')[0],
    '<space>': lambda n: n + ' ',
    '<nfd>': lambda n: n.replace('\u00e9', 'e\u0301'),
}


def strategy(tier):
    return st.fixed_dictionaries({
        'meta': metas(),
        'fname': gen.fname(),
        'moved': st.one_of(gen.fname(), st.sampled_from(sorted(NEAR))),
        'local_name': st.booleans(),
    })


def justified(fields):
    """ values the format cannot represent """
    for k, v in fields.items():
        vals = v if k == 'errors' else (v,)
        for s in vals or ():
            if isinstance(s, str):
                if '|' in s or '!' in s or s == '#':
                    return True
                if k == 'name' and '/' in s:
                    return True
                if k == 'id' and s == '':
                    return True
    if ';'.join(fields.get('errors') or ()) == '#':
        return True
    return False


def run(case, ctx):
    fields = case['meta']
    expected = gen.meta_expected(fields)
    present = [f for f in gen.FIELDS if expected[f] is not None and expected[f] != ()]
    if len(present) >= 3:
        ctx.nontrivial()
    m = PathMeta(**gen.meta_kwargs(fields))
    name = case['fname']
    local_name = name if case['local_name'] else None

    how, sym = outcome(m.as_symlink, local_name=local_name)
    if how == 'err':
        check(isinstance(sym, ValueError), 'encoding raised {}', repr(sym))
        check(justified(fields), 'rejected metadata that fits: {} {}', fields, sym)
        ctx.note('rejected')
        return
    ctx.note('encoded')
    if justified(fields):
        ctx.note('encoded anyway')

    d = ctx.scratch()
    target = os.path.join(d, name)
    p = AugmentedPath(target)
    p.symlink_to(sym)
    # a single relative path of the expected depth, never absolute
    raw = os.readlink(target)
    check(not raw.startswith('/'), 'absolute link {}', raw)
    equal(raw.count('/'), 2 if case['local_name'] else 1, 'parts in the link')
    if case['local_name']:
        check(raw.startswith(name + '/'), 'link {} does not start with its name {}', raw, name)

    for cls in (AugmentedPath, LocalPath):
        q = cls(target)
        back = PathMeta.from_symlink(q)
        diff = gen.meta_diff(back, expected)
        if diff is not None:
            raise Violation(f'field {diff[0]} was {short(diff[2])} read back as {short(diff[1])}')
        check(back == m, 'read back metadata is not equal: {} {}', m, back)
        check(not q.exists(), 'the link resolves')
        check(q.is_symlink() and q.is_broken_symlink(), 'not a broken symlink')
        check(not q.is_dir() and not q.is_file(), 'a broken symlink is a file or a dir')
    check(not os.path.exists(target), 'the link resolves')

    to = NEAR[case['moved']](name) if case['moved'] in NEAR else case['moved']
    if to not in (name, '', '.', '..') and len(os.fsencode(to)) < 256:
        ctx.note('moved near' if case['moved'] in NEAR else 'moved')
        moved = AugmentedPath(os.path.join(d, to))
        os.rename(target, moved)
        if case['local_name']:
            with rejects(exc.CircularSymlinkNameError, what='reading a link under another name'):
                PathMeta.from_symlink(moved)
        back = PathMeta.from_symlink(moved, match_name=False)
        diff = gen.meta_diff(back, expected)
        check(diff is None, 'match_name=False read {}', diff)
