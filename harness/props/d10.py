import os
from datetime import datetime, timezone, timedelta
from hypothesis import strategies as st
import mem
import trees
from framework import check, outcome, describe

from augpathlib import PathMeta

ID = 'D10'
COUNTS = {'quick': 4800, 'thorough': 40000}
RULE = ('two paths of a project, each a file or a metadata link or a folder, for the same thing '
        'or (rarely) not, whose metadata has one of few timestamps and sizes or none, and were '
        'changed locally one after the other or at the same time, compared both ways, as caches or local paths.  Non-trivial: the '
        'same id, and some of the times or sizes differ.')

T0 = datetime(2020, 1, 1, tzinfo=timezone.utc)


def strategy(tier):
    side = st.fixed_dictionaries({
        'kind': st.sampled_from(['file', 'file', 'link', 'link', 'dir']),
        'updated': st.sampled_from([0, 0, 1, 2, None]),
        'size': st.sampled_from([None, 0, 5, 7]),
        'checksum': st.booleans(),
        'deep': st.booleans(),
    })
    return st.fixed_dictionaries({
        'a': side, 'b': side,
        'same': st.sampled_from([True] * 6 + [False]),
        'last': st.sampled_from(['a', 'b', 'same', 'same']),
        'local': st.booleans(), 'pretend': st.booleans(),
    })


def run(case, ctx):
    d = os.path.realpath(ctx.scratch())
    p = mem.Project(d)
    p.anchor()
    caches = {}
    facts = {}
    present = {}
    for n in 'ab':
        s = case[n]
        rel = n
        if s['deep']:
            rel = f'sub-{n}/{n}'
            os.mkdir(os.path.join(p.top, f'sub-{n}'))
        full = os.path.join(p.top, rel)
        id = 'N:x' if case['same'] or n == 'a' else 'N:y'
        meta = PathMeta(id=id, size=s['size'],
                        checksum=b'\x01' * 32 if s['checksum'] else None,
                        updated=None if s['updated'] is None else
                        T0 + timedelta(days=s['updated']))
        if s['kind'] == 'link':
            os.symlink(str(meta.as_symlink(local_name=n)), full)
        else:
            if s['kind'] == 'dir':
                os.mkdir(full)
            else:
                with open(full, 'w') as f:
                    f.write(n)
            p.local(rel).cache_init(meta)
            present[n] = full
        facts[n] = meta
        caches[n] = p.local(rel)
    times = touch(present, case['last'])
    before = trees.full_snapshot(d)

    def ask(x, y):
        a, b = caches[x], caches[y]
        if not case['local']:
            a, b = a.cache, b.cache
        how, res = outcome(a.dedupe, b, **({'pretend': True} if case['pretend'] else {}))
        if how == 'err':
            return 'err', res
        got = [n for n in 'ab' if res.local.as_posix() == caches[n].as_posix()]
        check(len(got) == 1, '{} is neither', res)
        return 'ok', got[0]

    results = {q: ask(*q) for q in ('ab', 'ba')}
    diff = trees.first_difference(trees.full_snapshot(d), before)
    check(diff is None, 'choosing changed {}', diff)

    what = ' and '.join(f'{n}: {case[n]}' for n in 'ab')
    if not case['same']:
        for how, res in results.values():
            check(how == 'err' and isinstance(res, ValueError),
                  'different ids: {}', describe(res) if how == 'err' else res)
        ctx.note('different')
        return

    def newer(x, y):
        if x == y:
            return None
        if x is None or y is None:
            return 'b' if x is None else 'a'
        return 'a' if x > y else 'b'

    ma, mb, ta, tb = facts['a'], facts['b'], times.get('a'), times.get('b')
    want, why = newer(ma.updated, mb.updated), 'remote'
    if want is None:
        want, why = newer(ta, tb), 'local'
    if want is None and ta is not None and (ma.size is None) != (mb.size is None):
        want, why = 'b' if ma.size is None else 'a', 'size'
    if want is not None:
        ctx.nontrivial(why)
    for q, (how, res) in results.items():
        check(how == 'ok', '{}: {}', what, describe(res) if how == 'err' else '')
        check(want is None or res == want, '{} ({}): chose {} not {} by {} time',
              what, q, res, want, why)


def touch(paths, last):
    """ change both at once or one later, returns when each was changed """
    order = sorted(paths, key=lambda n: n == last)
    for _ in range(200):
        for n in order:
            os.utime(paths[n])
            if last != 'same':
                tick(paths[n])
        out = {n: os.stat(paths[n]).st_ctime_ns for n in paths}
        if last != 'same' or len(set(out.values())) < 2:
            break
    return out


def tick(path):
    """ wait until the clock of the file system has moved on """
    probe = path + '.probe'
    then = os.stat(path).st_ctime_ns
    while True:
        with open(probe, 'w'):
            pass
        now = os.stat(probe).st_ctime_ns
        os.unlink(probe)
        if now > then + 2000:
            return
