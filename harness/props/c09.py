import os
from hypothesis import strategies as st
import gen
from framework import Violation, check, equal, outcome, describe, rejects

from augpathlib import EatPath, LocalPath, RepoPath, exceptions as exc

ID = 'C09'
COUNTS = {'quick': 7500, 'thorough': 80000}
RULE = ('random histories of setting, getting, listing and deleting extended '
        'attributes and of marking folders as sparse, over a file, folders and a '
        'link, through fresh and reused path objects, '
        'names given as text or bytes.  Non-trivial: an attribute is replaced or deleted '
        'after it was set.')
PATHS = ['f', 'd', 'd/f', 'd/e', 'd/e/g', 'l']
KEYS = ['a', 'b', 'ab', 'a.b', 'bf.id', 'user.a', '\u00e9', ' ', "it's"]


def strategy(tier):
    name = st.one_of(st.sampled_from(KEYS), gen.text_of(gen.ASCII + gen.SPECIAL, 1, 8))
    return st.lists(name, min_size=1, max_size=4, unique=True).flatmap(history)


def history(keys):
    where = st.one_of(st.just(0), st.integers(0, len(PATHS) - 1))
    key = st.sampled_from(keys)
    value = st.binary(max_size=40)
    op = st.one_of(
        st.tuples(st.just('set'), where, key, value, st.booleans()),
        st.tuples(st.just('set'), where, key, value, st.booleans()),
        st.tuples(st.just('setmany'), where, st.dictionaries(key, value, max_size=3)),
        st.tuples(st.just('get'), where, key, st.booleans()),
        st.tuples(st.just('del'), where, key, st.booleans(), st.booleans()),
        st.tuples(st.just('del'), where, key, st.booleans(), st.booleans()),
        st.tuples(st.just('text'), where, key),
        st.tuples(st.just('sparse'), where),
        st.tuples(st.just('clear'), where),
    )
    return st.tuples(st.lists(op, min_size=1, max_size=14), st.integers(0, 1),
                     st.booleans())


def run(case, ctx):
    ops, c, fresh = case
    cls = (EatPath, LocalPath)[c]
    d = os.path.realpath(ctx.scratch())
    for n in ('d', 'd/e', 'd/e/g'):
        os.mkdir(os.path.join(d, n))
    content = {}
    for n in ('f', 'd/f'):
        content[n] = gen.blob(20, len(n))
        with open(os.path.join(d, n), 'wb') as f:
            f.write(content[n])
    os.symlink('d', os.path.join(d, 'l'))
    real = {p: ('d' if p == 'l' else p) for p in PATHS}
    model = {p: {} for p in set(real.values())}
    marks = set()
    objs = {}

    def obj(i):
        if fresh or i not in objs:
            objs[i] = cls(os.path.join(d, PATHS[i]))
        return objs[i]

    def room(m, extra):
        return sum(len(k) + len(v) + 32 for k, v in m.items()) + extra < 1500

    touched = set()
    for op in ops:
        kind, i = op[:2]
        p, m = obj(i), model[real[PATHS[i]]]
        if kind == 'set':
            _, _, key, value, asbytes = op
            k = key.encode()
            if not room(m, len(k) + len(value)):
                continue
            if (i, k) in touched:
                ctx.nontrivial('replaced')
            touched.add((i, k))
            p.setxattr(k if asbytes else key, value)
            m[k] = value
        elif kind == 'setmany':
            many = op[2]
            if not room(m, sum(len(k.encode()) + len(v) + 32 for k, v in many.items())):
                continue
            p.setxattrs(many)
            m.update({k.encode(): v for k, v in many.items()})
            touched.update((i, k.encode()) for k in many)
        elif kind == 'get':
            _, _, key, asbytes = op
            k = key.encode()
            how, got = outcome(p.getxattr, k if asbytes else key)
            if k in m:
                check(how == 'ok', 'get {!r}: {}', key, got)
                equal(got, m[k], f'attribute {key!r}')
            else:
                check(how == 'err' and isinstance(got, exc.NoStreamError),
                      'missing attribute {!r}: {!r}', key, got)
        elif kind == 'del':
            _, _, key, fail, asbytes = op
            k = key.encode()
            how, got = outcome(p.delxattr, k if asbytes else key, fail=fail)
            if k in m:
                ctx.nontrivial('deleted')
                check(how == 'ok', 'delete {!r}: {}', key, got)
                del m[k]
            else:
                check((how == 'err') is fail, 'delete of missing {!r} with fail={}: {!r}',
                      key, fail, got)
        elif kind == 'text':
            with rejects(TypeError, what='an attribute that is not bytes'):
                p.setxattr(op[2], 'text')
        elif hasattr(p, '_mark_sparse') and hasattr(p, '_clear_sparse'):
            r = real[PATHS[i]]
            if kind == 'sparse':
                if not room(m, 60):
                    continue
                p._mark_sparse()
                marks.add(r)
                ctx.note('sparse')
            else:
                p._clear_sparse()
                marks.discard(r)

        # everything, everywhere, after each step
        for j, n in enumerate(PATHS):
            full = os.path.join(d, n)
            r = real[n]
            want = dict(model[r])
            if r in marks:
                want[b'augpathlib.sparse'] = b'1'
            got = {k.encode(): os.getxattr(full, k) for k in os.listxattr(full)}
            equal({k: v for k, v in got.items() if k.startswith(b'user.')},
                  {b'user.' + k: v for k, v in want.items()}, f'stored attributes of {n}')
            equal(obj(j).xattrs(), want, f'listed attributes of {n}')
            if n != 'l':  # the ancestors of a link are those it is spelled with
                parts = r.split('/')
                equal(obj(j).is_sparse(),
                      any('/'.join(parts[:k + 1]) in marks for k in range(len(parts))),
                      f'{n} is sparse with {sorted(marks)} marked')
            if n in content:
                with open(full, 'rb') as f:
                    equal(f.read(), content[n], f'content of {n}')

    # nothing is done to a path that cannot be reached and it is always an error
    for r in ('d', 'd/e', 'd/e/g'):
        os.symlink('x/.meta.0|1', os.path.join(d, r, 'broken'))
        parts = r.split('/')
        equal(cls(os.path.join(d, r, 'broken')).is_sparse(),
              any('/'.join(parts[:k + 1]) in marks for k in range(len(parts))),
              f'a link to nothing in {r} is sparse with {sorted(marks)} marked')
    os.symlink('nothing', os.path.join(d, 'broken'))
    os.symlink('loop', os.path.join(d, 'loop'))
    key = next((op[2] for op in ops if op[0] in ('set', 'get', 'del')), 'a')
    for n in ('gone', 'd/gone', 'broken', 'loop', 'f/gone'):
        bad = cls(os.path.join(d, n))
        for what, f in (('set', lambda: bad.setxattr(key, b'')),
                        ('set many', lambda: bad.setxattrs({key: b''})),
                        ('get', lambda: bad.getxattr(key)),
                        ('delete', lambda: bad.delxattr(key)),
                        ('strict delete', lambda: bad.delxattr(key, fail=True)),
                        ('list', bad.xattrs)):
            how, got = outcome(f)
            check(how == 'err' and isinstance(got, OSError)
                  and not isinstance(got, exc.NoStreamError),
                  '{} of an attribute of {} that cannot be reached: {!r}', what, n, got)
    check(not os.path.lexists(os.path.join(d, 'gone')), 'a missing path appeared')
