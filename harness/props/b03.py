import os
import subprocess
from fractions import Fraction
from hypothesis import strategies as st
import gen
from framework import Violation, check, equal, outcome, describe

from augpathlib import LocalPath, StatResult, FileSize

ID = 'B03'
COUNTS = {'quick': 6400, 'thorough': 40000}
RULE = ('files and folders with random names (spaces, quotes, newlines, dashes, any '
        'script, bytes that are not text), sizes up to terabytes (sparse), all permission bits and times before and after '
        '1970 with nanoseconds; file sizes of any magnitude.  Non-trivial: a name with two spaces, '
        'a quote or a newline, or a time before 1970, or a size over a megabyte.')
UNITS = ['', 'K', 'M', 'G', 'T', 'P', 'E', 'Z', 'Yi']


def strategy(tier):
    name = st.one_of(
        gen.fname(),
        gen.text_of('a "\'-%n\\\n\t', 1, 10).map(lambda s: s if s not in ('.', '..') else 'x'),
        st.sampled_from(['a  b', '"', '" "', '-c', '--', '  ', 'a  1  2', '"x"', 'x"', '\udcff',
                         'caf\udce9  x', '%s', "$(echo)", 'a\nb', '1.5']))
    return st.fixed_dictionaries({
        'name': name,
        'kind': st.sampled_from(['file', 'file', 'file', 'dir', 'link']),
        'size': st.one_of(st.integers(0, 5000), st.sampled_from([2 ** 20, 2 ** 32 + 1, 2 ** 41]),
                          st.integers(0, 2 ** 42)),
        'mode': st.one_of(st.integers(0, 0o777), st.integers(0, 0o7777)),
        'times': st.tuples(st.integers(-2 ** 31, 2 ** 33), st.integers(0, 10 ** 9 - 1),
                           st.integers(-2 ** 31, 2 ** 33), st.integers(0, 10 ** 9 - 1)),
        'rel': st.booleans(),
        'number': st.one_of(st.integers(0, 3000), st.integers(0, 2 ** 70),
                            st.tuples(st.integers(0, 7), st.integers(1, 1023),
                                      st.integers(-1, 1)).map(
                                lambda t: max(0, t[1] * 1024 ** t[0] + t[2])),
                            st.integers(0, 7).flatmap(lambda k: st.integers(
                                1024 ** k * 1023, 1024 ** (k + 1) + 2)),
                            st.integers(-5, -1)),
    })


def run(case, ctx):
    d = ctx.scratch()
    name = case['name']
    full = os.path.join(d, name)
    try:
        if case['kind'] == 'dir':
            os.mkdir(full)
        elif case['kind'] == 'link':
            os.symlink('broken-target', full)
        else:
            with open(full, 'wb') as f:
                f.truncate(case['size'])
    except OSError:
        return  # a name or size this file system does not take
    a, an, m, mn = case['times']
    if case['kind'] != 'link':
        os.chmod(full, case['mode'])
    os.utime(full, ns=(a * 10 ** 9 + an, m * 10 ** 9 + mn), follow_symlinks=False)
    if '  ' in name or '"' in name or '\n' in name or a < 0 or m < 0 or case['size'] > 2 ** 20:
        ctx.nontrivial()
    ctx.note(case['kind'])
    s = os.lstat(full)
    os.chdir(d)
    arg = name if case['rel'] and name != '-' else full  # - is stdin for stat

    out = subprocess.run(['stat', '-c', StatResult.stat_format, '--', arg],
                         stdout=subprocess.PIPE, check=True,
                         env={**os.environ, 'TZ': 'UTC'}).stdout
    assert out[:1] == b'"' and out[-2:] == b'"\n'
    results = [('parsed', StatResult(out[1:-2]), arg)]
    p = LocalPath(arg)
    if hasattr(p, '_stat'):
        results.append(('_stat', p._stat(), p.as_posix()))
    for what, r, n in results:
        for f in ('st_ino', 'st_size', 'st_uid', 'st_gid', 'st_mode', 'st_blksize'):
            equal(getattr(r, f), getattr(s, f), f'{what} of {n!r}: {f}')
        equal(r.name, n, f'{what}: name')
        for f in ('st_atime', 'st_mtime', 'st_ctime'):
            exact = Fraction(getattr(s, f + '_ns'), 10 ** 9)
            check(abs(Fraction(getattr(r, f)) - exact) < Fraction(1, 10 ** 5),
                  '{} of {!r}: {} is {!r} expected {}', what, n, f, getattr(r, f), float(exact))
        if hasattr(r, 'st_birthtime'):
            check(r.st_birthtime > 1500000000, '{}: birth time {}', what, r.st_birthtime)
    equal(p.size, os.stat(full).st_size if case['kind'] != 'link' else s.st_size,
          f'size of {name!r}')
    if case['kind'] == 'file':
        equal(int(FileSize.ofPath(p)), s.st_size, 'FileSize.ofPath')

    n = case['number']
    if n > 2 ** 53:
        n = int(float(n))  # the division is in floating point
    fs = FileSize(n)
    equal(int(fs), n, 'FileSize')
    hr = fs.hr
    if n < 0:
        equal(hr, '??', 'negative size')
    else:
        number, unit = hr.rstrip("KMGTPEZYi"), hr.lstrip('0123456789.')
        check(unit in UNITS, 'unit of {} in {!r}', n, hr)
        k = UNITS.index(unit)
        want = next(i for i in range(len(UNITS)) if Fraction(n, 1024 ** i) < 1024
                    or i == len(UNITS) - 1)
        equal(k, want, f'unit of {n} in {hr!r}')
        check(abs(Fraction(number) - Fraction(n, 1024 ** k)) <= Fraction(1, 2) + Fraction(1, 10 ** 6),
              '{} is shown as {!r}', n, hr)
        check(abs(fs.mb - n / 2 ** 20) <= abs(n / 2 ** 20) * 1e-12, 'mb of {}: {}', n, fs.mb)
    equal(str(fs), str(n), 'str of FileSize')
