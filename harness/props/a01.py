import os
import pickle
import struct
import time
from datetime import datetime
from hypothesis import strategies as st
import gen
from framework import check, equal, short, Violation

from augpathlib import PathMeta, LocalPath
from augpathlib.core import EatPath

ID = 'A01'
COUNTS = {'quick': 24000, 'thorough': 200000}
RULE = ('random metadata (each field absent, None or a value: text with every '
        'separator of the formats, non ascii, boundary numbers, naive and aware '
        'timestamps with microseconds, arbitrary digest bytes), a random prefix '
        'and a second set of metadata under another prefix (one a string prefix '
        'of the other in many cases); written and read back in memory, as a '
        'metastore blob and through the extended attributes of a real file or '
        'directory.  Non-trivial: at least three fields have a value.')
ASSUMPTIONS = ['empty strings and None are the same value in this format',
               'error tokens are not empty and have no ;',
               'user ids that are numeric strings read back as numbers']

texts = st.one_of(gen.text_of(gen.ASCII, 1), gen.text_of(gen.ASCII + gen.SPECIAL, 1, 20))
errors = gen.text_of(gen.ASCII + gen.SPECIAL.replace(';', ''), 1)
prefixes = st.one_of(
    st.none(),
    st.sampled_from(['bf', 'bfx', 'b', 'f', 'name', 'local', 'bf.', 'bf.x', 'b.f',
                     'bf.name', 'bf.id', '.bf', 'bf.size.']),
    gen.text_of(gen.ASCII + '-_: .', 1, 8))


def setup(ctx):
    # legacy timestamps are in local time, which is rarely utc
    os.environ['TZ'] = 'XVP-5:45'
    time.tzset()


def strategy(tier):
    return st.fixed_dictionaries({
        'meta': gen.meta_fields(texts, errors),
        'prefix': prefixes,
        'other': gen.meta_fields(texts, errors),
        'other_prefix': prefixes,
        'where': st.sampled_from(['none', 'none', 'none', 'file', 'dir', 'local']),
        'fname': gen.fname(),
        'legacy': st.one_of(st.none(), st.integers(0, 2 ** 33)),
    })


def raw_expect(expected, field):
    """ independent statement of the stored bytes for the simple fields """
    v = expected[field]
    if field == 'checksum':
        return v
    if field in ('size', 'chunksize', 'multi', 'file_id', 'gid'):
        return str(int(v)).encode()
    if field in ('name', 'id', 'parent_id', 'old_id', 'mode', 'checksum_cypher'):
        return v.encode()
    if field == 'errors':
        return ';'.join(v).encode()
    return None


def same(meta, expected, what):
    d = gen.meta_diff(meta, expected)
    if d is not None:
        raise Violation(f'{what}: field {d[0]} was {short(d[2])} read back as {short(d[1])}')


def run(case, ctx):
    expected = gen.meta_expected(case['meta'], empty_is_none=True)
    present = [f for f in gen.FIELDS if expected[f] is not None and expected[f] != ()]
    if len(present) >= 3:
        ctx.nontrivial()
    ctx.note(f'where:{case["where"]}', f'fields:{min(len(present) // 4 * 4, 12)}+')
    prefix = case['prefix']
    m = PathMeta(**gen.meta_kwargs(case['meta']))

    # the fields are what was provided
    same(m, gen.meta_expected(case['meta']), 'construction')

    x = m.as_xattrs(prefix)
    want_keys = {(f'{prefix}.{f}' if prefix else f).encode() for f in present}
    equal(set(x), want_keys, 'stored keys')
    for f in present:
        r = raw_expect(expected, f)
        got = x[(f'{prefix}.{f}' if prefix else f).encode()]
        check(type(got) is bytes, 'stored value of {} is not bytes', f)
        if r is not None:
            equal(got, r, f'stored bytes of {f}')

    back = PathMeta.from_xattrs(x, prefix)
    same(back, expected, 'xattrs')
    check(back == PathMeta.from_xattrs(dict(x), prefix), 'two reads differ')
    if back != m and not any(expected[f] is None and case['meta'].get(f) == ''
                             for f in gen.FIELDS):
        raise Violation(f'read back metadata does not equal what was written {m} {back}')

    blob = m.as_metastore(prefix)
    check(isinstance(blob, bytes), 'metastore blob is not bytes')
    same(PathMeta.from_metastore(blob, prefix), expected, 'metastore')
    equal(pickle.loads(blob), x, 'metastore content')

    op = case['other_prefix']
    other = PathMeta(**gen.meta_kwargs(case['other']))
    ox = other.as_xattrs(op)
    if op != prefix and op and prefix:
        ctx.note('two prefixes')
        both = {**ox, **x}
        same(PathMeta.from_xattrs(both, prefix), expected, 'with another prefix alongside')
        same(PathMeta.from_xattrs(both, op),
             gen.meta_expected(case['other'], empty_is_none=True), 'other prefix')
    else:
        both = None

    if case['legacy'] is not None and prefix is not None:
        ts = case['legacy'] / 2
        legacy = PathMeta.from_xattrs({f'{prefix}.updated'.encode(): struct.pack('d', ts)},
                                      prefix) if prefix else None
        if legacy is not None:
            equal(legacy.updated, datetime.fromtimestamp(ts), 'legacy packed timestamp')

    if case['where'] != 'none':
        d = ctx.scratch()
        target = os.path.join(d, case['fname'])
        if case['where'] == 'dir':
            os.mkdir(target)
        else:
            with open(target, 'wb') as f:
                f.write(b'content')
        cls = LocalPath if case['where'] == 'local' else EatPath
        p = cls(target)
        p.setxattrs(x)
        if both is not None:
            p.setxattrs(ox)
        on_disk = cls(target).xattrs()
        equal(on_disk, both if both is not None else x, 'xattrs on disk')
        same(PathMeta.from_xattrs(on_disk, prefix, p), expected, 'disk')
        for k, v in list(x.items())[:3]:
            equal(cls(target).getxattr(k), v, 'getxattr')
        if case['where'] != 'dir':
            with open(target, 'rb') as f:
                equal(f.read(), b'content', 'content after setting xattrs')
