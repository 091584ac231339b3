import os
import zipfile
from hypothesis import strategies as st
import gen
from framework import Violation, check, equal, outcome, describe

from augpathlib import ZipPath

ID = 'F01'
COUNTS = {'quick': 8000, 'thorough': 60000}
RULE = ('random archives (stored or deflated, with and without folder entries, '
        'nested and odd names, members from empty to several read sizes, an '
        'archive in an archive, empty archives, with and without .zip in the name), '
        'absolute and relative paths, several reads at once, archives replaced by '
        'another one (moved there or written in place, of the same size or time), and things that are called .zip but are not one.  '
        'Non-trivial: at least two members one of which is in a folder.')


def strategy(tier):
    part = st.one_of(st.sampled_from(['a', 'b', 'ab', 'c.txt', 'd.zip', '.h', 'sp ace',
                                     '...', '.a.', '~']),
                     gen.fname(max_size=5))
    # the zip format has no place for these in a name
    part = part.map(lambda p: p.replace(':', '_').replace('\\', '_'))
    name = st.lists(part, min_size=1, max_size=3).map('/'.join)
    size = st.one_of(st.integers(0, 40), gen.near_multiples(4096, 2))
    member = st.tuples(name, size, st.booleans(), st.sampled_from(['file', 'file', 'file', 'dir']))
    archive = st.lists(member, max_size=6)
    return st.fixed_dictionaries({
        'archive': archive,
        'second': st.one_of(st.none(), archive, st.just('same')),
        'how': st.sampled_from(['moved', 'moved same time', 'written', 'written same time']),
        'zipname': st.sampled_from(['x.zip', 'x.zip', 'x', 'a.zip.zip', 'x.ZIP', 'x y.zip']),
        'explicit': st.booleans(),
        'rel': st.booleans(),
        'missing': st.lists(name, max_size=3),
        'others': st.sampled_from(['dir', 'text', 'empty', 'missing', 'broken', 'loop', 'fifo']),
        'chunk': st.sampled_from([None, 1, 7, 4096]),
        'link': st.booleans(),
    })


def model_of(members):
    """ {name: (data or None, deflated)} without what a file system cannot have """
    files, dirs = {}, set()
    for i, (name, size, deflated, kind) in enumerate(members):
        parents = ['/'.join(name.split('/')[:k]) for k in range(1, name.count('/') + 1)]
        if name in files or any(p in files for p in parents):
            continue
        if kind == 'file':
            if name in dirs:
                continue
            files[name] = gen.blob(size, i + 1), deflated
        else:
            dirs.add(name)
        dirs.update(parents)
    return files, dirs


def write(path, members, explicit, salt=0):
    files, dirs = model_of(members)
    listed = {m[0] for m in members if m[3] == 'dir'} & dirs
    files = {n: (gen.blob(len(d), i + 1 + salt), c) for i, (n, (d, c)) in enumerate(files.items())}
    with zipfile.ZipFile(path, 'w') as z:
        for n in sorted(dirs):
            if explicit or n in listed:
                z.writestr(zipfile.ZipInfo(n + '/'), b'')
        for n, (data, deflated) in files.items():
            z.writestr(zipfile.ZipInfo(n), data,
                       zipfile.ZIP_DEFLATED if deflated else zipfile.ZIP_STORED)
    return {n: d for n, (d, _) in files.items()}, dirs


def below(names, top):
    return {n for n in names if not top or n.startswith(top + '/')}


def examine(zp, files, dirs, case, ctx, full):
    """ zp is the path of the archive """
    top = zp.asInternal()
    everything = set(files) | dirs
    equal(zp.exists(), True, 'the archive exists')
    equal(zp.zip_path, zp, 'zip_path of the archive')
    for name in sorted(everything) + ['']:
        p = zp / name if name else zp
        what = f'{name!r} in the archive'
        equal(p.exists(), True, f'{what} exists')
        equal(p.zip_path.as_posix(), zp.as_posix(), f'{what} zip_path')
        ip = p.asInternal()
        equal(ip.as_posix(), name or '.', f'{what} inside')
        equal(ip.exists(), True, f'{what} exists inside')
        isdir = name in dirs or not name
        equal(ip.is_dir(), isdir, f'{what} is_dir')
        kids = [c.as_posix() for c in ip.children]
        want = sorted(n for n in below(everything, name)
                      if os.path.dirname(n) == name)
        equal(sorted(kids), want, f'{what} children')
        deep = [c.as_posix() for c in ip.rchildren]
        equal(sorted(deep), sorted(below(everything, name)), f'{what} rchildren')
        deep = [c.as_posix() for c in p.rchildren]
        equal(sorted(deep), sorted((zp / n).as_posix() for n in below(everything, name)),
              f'{what} rchildren from outside')
        if isdir:
            for f in (p.open, ip.open, lambda: list(ip.data)):
                how, res = outcome(f)
                check(how == 'err' and isinstance(res, OSError),
                      '{} a folder opened: {!r}', what, res)
        else:
            data = files[name]
            with p.open() as f:
                equal(f.read(), data, f'{what} opened')
            with ip.open() as f:
                equal(f.read(7), data[:7], f'{what} the start')
                # another read of the same path at the same time
                if case['chunk']:
                    ip.chunksize = case['chunk']
                equal(b''.join(ip.data), data, f'{what} data')
                equal(f.read(), data[7:], f'{what} the rest')
            one, two = ip.data, ip.data
            both = [b''.join(x) for x in zip(*zip(one, two))]
            if data:
                equal(both, [data, data], f'{what} read twice at once')
    for name in case['missing'] + [n + '/z' for n in files] + ['zz']:
        if name in everything:
            continue
        p = zp / name
        what = f'{name!r} not in the archive'
        equal(p.exists(), False, f'{what} exists')
        equal(p.asInternal().is_dir(), False, f'{what} is_dir')
        how, res = outcome(p.open)
        check(how == 'err' and isinstance(res, OSError), '{} opened: {!r}', what, res)
        equal(list(p.rchildren), [], f'{what} rchildren')


def run(case, ctx):
    d = os.path.realpath(ctx.scratch())
    os.chdir(d)
    full = os.path.join(d, case['zipname'])
    real = full
    if case['link']:
        real = os.path.join(d, 'real-archive')
        os.symlink('real-archive', full)
    files, dirs = write(real, case['archive'], case['explicit'])
    if len(files) > 1 and dirs:
        ctx.nontrivial()
    if not files and not dirs:
        ctx.note('empty archive')
    arg = case['zipname'] if case['rel'] else full
    zp = ZipPath(arg)
    examine(zp, files, dirs, case, ctx, full)
    if case['second'] is not None:
        how = case['how']
        ctx.note('replaced, ' + how)
        old = os.stat(real)
        second = case['archive'] if case['second'] == 'same' else case['second']
        target = os.path.join(d, 'new') if how.startswith('moved') else real
        files, dirs = write(target, second, case['explicit'], 7)
        new = os.stat(target)
        if new.st_size == old.st_size:
            ctx.note('of the same size')
        if 'same time' not in how:
            # the clock of the file system may not have moved on
            os.utime(target, ns=(new.st_atime_ns, old.st_mtime_ns + 1000000))
        elif how.startswith('moved') or new.st_size != old.st_size:
            os.utime(target, ns=(new.st_atime_ns, old.st_mtime_ns))
        else:  # nothing tells these apart
            os.utime(target, ns=(new.st_atime_ns, old.st_mtime_ns + 1))
        if target != real:
            os.replace(target, real)
        examine(ZipPath(arg), files, dirs, case, ctx, full)

    # what is not an archive
    kind = case['others']
    other = os.path.join(d, 'other.zip')
    if kind == 'dir':
        os.makedirs(os.path.join(other, 'in'))
    elif kind in ('text', 'empty'):
        with open(other, 'wb') as f:
            f.write(b'text' if kind == 'text' else b'')
    elif kind in ('broken', 'loop'):
        os.symlink('other.zip' if kind == 'loop' else 'nowhere', other)
    elif kind == 'fifo':
        os.mkfifo(other)
    plain = os.path.join(d, 'plain')
    os.mkdir(plain)
    with open(os.path.join(plain, 'f'), 'wb') as f:
        f.write(b'content')
    for n in ('other.zip', 'other.zip/in', 'other.zip/none', 'plain', 'plain/f', 'plain/none'):
        p = ZipPath(n if case['rel'] else os.path.join(d, n))
        what = f'{n} ({kind})'
        how, got = outcome(p.exists)
        inside = p.zip_path
        check(how == 'ok', 'exists of {}: {}', what, describe(got) if how == 'err' else '')
        equal(got, os.path.exists(n), f'exists of {what}')
        equal(inside, None, f'zip_path of {what}')
        if kind == 'fifo' and n == 'other.zip':
            continue
        how, got = outcome(p.open, 'rb')
        if os.path.isfile(n):
            check(how == 'ok', 'open of {}: {}', what, got)
            with got:
                equal(got.read(), open(n, 'rb').read(), f'content of {what}')
        else:
            check(how == 'err' and isinstance(got, OSError), 'open of {}: {!r}', what, got)
        want = [os.path.join(b, x) for b, s, fs in os.walk(p.as_posix()) for x in s + fs]
        how, got = outcome(lambda: sorted(c.as_posix() for c in p.rchildren))
        check(how == 'ok', 'rchildren of {}: {}', what, describe(got) if how == 'err' else '')
        equal(got, sorted(want), f'rchildren of {what}')
