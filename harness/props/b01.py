import os
import hashlib
from hypothesis import strategies as st
import gen
from framework import check, equal

from augpathlib import etag, LocalPath

ID = 'B01'
COUNTS = {'quick': 24000, 'thorough': 200000}
RULE = ('random data given as a list of updates of random sizes (empty ones, '
        'exact multiples of the chunk size and one off included) with digests '
        'asked for at random points, chunk sizes from 1; and files of such data '
        'read with read sizes smaller, equal and larger than the chunk size.  '
        'Non-trivial: at least two updates and more data than one chunk.')


def strategy(tier):
    chunk = st.one_of(st.integers(1, 12), st.sampled_from([16, 64, 100, 4096, 5000]))

    def with_chunk(n):
        size = st.one_of(st.integers(0, 3 * n), st.just(n), st.just(2 * n),
                         st.sampled_from([max(0, n - 1), n + 1, 0, 1]))
        ops = st.one_of(size, size, size, st.just('digest'), st.just('hexdigest'))
        return st.fixed_dictionaries({
            'chunk': st.just(n),
            'ops': st.lists(ops, max_size=12),
            'salt': st.integers(0, 1000),
            'file': st.sampled_from([None, None, None, 1, 7, 64, 4096, 8192]),
            'kind': st.sampled_from(['bytes', 'bytes', 'bytearray', 'zeros']),
        })

    return chunk.flatmap(with_chunk)


def reference(data, n):
    parts = [hashlib.md5(data[i:i + n]).digest() for i in range(0, len(data), n)]
    return hashlib.md5(b''.join(parts)).digest(), len(parts)


def run(case, ctx):
    n = case['chunk']
    total = sum(o for o in case['ops'] if isinstance(o, int))
    data = gen.blob(total, case['salt']) if case['kind'] != 'zeros' else bytes(total)
    updates = [o for o in case['ops'] if isinstance(o, int)]
    if len(updates) > 1 and total > n:
        ctx.nontrivial()
    m = etag(n)
    at = 0
    for op in case['ops']:
        if op == 'digest':
            ctx.note('early digest')
            equal(m.digest(), reference(data[:at], n), f'digest after {at} bytes')
        elif op == 'hexdigest':
            d, c = reference(data[:at], n)
            equal(m.hexdigest(), f'{d.hex()}-{c}', f'hexdigest after {at} bytes')
        else:
            piece = data[at:at + op]
            m.update(bytearray(piece) if case['kind'] == 'bytearray' else piece)
            at += op
    want = reference(data, n)
    if total and total % n == 0:
        ctx.note('exact multiple')
    equal(m.digest(), want, 'final digest')
    equal(m.digest(), want, 'second final digest')
    equal(m.hexdigest(), f'{want[0].hex()}-{want[1]}', 'final hexdigest')

    if case['file'] is not None:
        ctx.note('file')
        path = os.path.join(ctx.scratch(), 'f')
        with open(path, 'wb') as f:
            f.write(data)
        p = LocalPath(path)
        p.chunksize = case['file']
        equal(p.etag(n), want, 'etag of the file')
        equal(LocalPath(path).etag(n), want, 'etag of the file')
        check(LocalPath(os.path.dirname(path)).etag(n) is None, 'a folder has an etag')
