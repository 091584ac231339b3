import os
from hypothesis import strategies as st
import gen
from framework import Violation, check, equal, outcome, describe

from augpathlib import LocalPath

ID = 'C07'
COUNTS = {'quick': 16000, 'thorough': 150000}
RULE = ('random data written in random chunks (empty ones and none at all '
        'included, a failure at any chunk), onto nothing or onto longer or '
        'shorter content, read back with chunk sizes from 1 and as lists of ranges, also '
        'through chains of writers.  Non-trivial: data longer than one read '
        'chunk, or a failure, or a range.')


def strategy(tier):
    chunk = st.one_of(st.integers(1, 12), st.sampled_from([64, 4096]))

    def more(n):
        size = st.one_of(gen.near_multiples(n, 3), st.just(n))
        rng = st.tuples(st.integers(0, 4 * n), st.one_of(
            st.none(), st.integers(0, 3 * n), st.just(n), st.just(2 * n), st.just(0)),
            st.booleans())
        return st.fixed_dictionaries({
            'chunk': st.just(n),
            'writes': st.lists(st.tuples(
                st.lists(st.one_of(size, st.just(0)), max_size=5),
                st.sampled_from([None] * 4 + [0, 0, 1, 2]),
                st.sampled_from(['data', 'data', 'chain', 'chain2', 'append'])),
                min_size=1, max_size=3),
            'ranges': st.lists(rng, max_size=4),
            'range_chunk': st.sampled_from([None, n, 1, 2, 7, 4096]),
            'xattrs': st.booleans(),
            'salt': st.integers(0, 99),
        })

    return chunk.flatmap(more)


class Boom(Exception):
    pass


def run(case, ctx):
    d = ctx.scratch()
    n = case['chunk']
    full = os.path.join(d, 'file')
    bystander = os.path.join(d, 'bystander')
    with open(bystander, 'wb') as f:
        f.write(b'bystander')
    p = LocalPath(full)
    p.chunksize = n
    content = None
    salt = case['salt']
    have_chain = hasattr(p, '_data_setter')
    marked = False
    for sizes, fail, via in case['writes']:
        chunks = []
        for s in sizes:
            salt += 1
            chunks.append(gen.blob(s, salt))
        if via != 'data' and not have_chain:
            via = 'data'
        failing = fail is not None and fail <= len(chunks)

        def source():
            for i, c in enumerate(chunks):
                if i == fail:
                    raise Boom
                yield c
            if fail == len(chunks):
                raise Boom

        passed = []

        def write():
            if via == 'data':
                p.data = source()
            elif via == 'chain':
                passed.extend(p._data_setter(source()))
            elif via == 'append':
                passed.extend(p._data_setter(source(), append=True))
            else:
                q = LocalPath(d, 'second')
                passed.extend(q._data_setter(p._data_setter(source())))

        how, res = outcome(write)
        what = f'writing chunks of {sizes} via {via}'
        if failing:
            ctx.nontrivial('failure')
            check(how == 'err' and isinstance(res, Boom),
                  '{}: the error of the source was lost: {!r}', what, res)
            if fail == 0:
                now = open(full, 'rb').read() if os.path.lexists(full) else None
                check(now == content, '{}: failed before the first chunk but the file '
                      'changed', what)
            else:
                content = open(full, 'rb').read() if os.path.lexists(full) else None
            continue
        check(how == 'ok', '{}: {}', what, describe(res) if how == 'err' else '')
        data = b''.join(chunks)
        content = (content or b'') + data if via == 'append' else data
        equal(open(full, 'rb').read(), content, what)
        if via != 'data':
            equal(b''.join(passed), data, f'{what}: passed on')
            if via == 'chain2':
                equal(open(os.path.join(d, 'second'), 'rb').read(), data,
                      f'{what}: second file')
        if not data:
            ctx.note('empty')
        if marked:
            equal(os.getxattr(full, 'user.mark'), b'here', f'{what}: extended attribute')
        elif case['xattrs']:
            os.setxattr(full, 'user.mark', b'here')
            marked = True
        read = list(p.data)
        check(all(0 < len(c) <= n for c in read), 'chunks of {} when reading {} bytes '
              'with chunk size {}', [len(c) for c in read], len(content), n)
        equal(b''.join(read), content, f'read {len(content)} bytes with chunk size {n}')
        equal(b''.join(LocalPath(full).data), content, 'read with the usual chunk size')
        if len(content) > n:
            ctx.nontrivial()
    with open(bystander, 'rb') as f:
        equal(f.read(), b'bystander', 'another file')

    if content is not None and hasattr(p, '_data'):
        ranges, want = [], b''
        size = len(content)
        for start, length, negative in case['ranges']:
            start = min(start, size)
            if negative:
                if start == 0:
                    continue
                # from the end, both counted from there
                if length is None or length >= start:
                    ranges.append((-start, None))
                    want += content[-start:]
                else:
                    ranges.append((-start, -start + length))
                    want += content[size - start:size - start + length]
            elif length is None:
                ranges.append((start, None))
                want += content[start:]
            else:
                ranges.append((start, start + length))
                want += content[start:start + length]
        if ranges:
            ctx.nontrivial('ranges')
            for c in {case['range_chunk'], n}:
                got = b''.join(p._data(ranges=tuple(ranges), chunksize=c))
                equal(got, want, f'ranges {ranges} of {size} bytes with chunk size {c}')
        equal(b''.join(p._data()), content, 'no ranges')
        equal(b''.join(p._data(chunksize=case['range_chunk'])), content, 'no ranges')
