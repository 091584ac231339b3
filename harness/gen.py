"""Shared generators.  Everything they make is a plain literal."""

from datetime import datetime, timezone, timedelta
from hypothesis import strategies as st

# characters that have a meaning in one of the formats, are awkward in a file
# name, or are simply not ascii
SPECIAL = '.|/!;#-: ~\'"\\%,\u00e9\u4e2d\U0001f600'
ASCII = 'abcXYZ019_'


def text_of(alphabet, min_size=0, max_size=12):
    return st.text(alphabet=alphabet, min_size=min_size, max_size=max_size)


# file names: no / and no NUL, not . and not ..
NAME_ODD = '.|!;#-: ~\'"\\%,*?[]{}()@=+&$\t\n\u00e9\u4e2d\U0001f600'


def fname(odd=True, max_size=10):
    alpha = ASCII + (NAME_ODD if odd else '.-')
    plain = text_of(ASCII + '.', 1, max_size)
    s = st.one_of(plain, text_of(alpha, 1, max_size)) if odd else plain
    return s.map(lambda n: n if n not in ('.', '..') else n + 'x')


def small_names(n=5):
    """ a handful of names so that collisions happen """
    return st.sampled_from(['a', 'b', 'c', 'd', 'e', 'f', 'g'][:n])


tz_minutes = st.one_of(st.none(), st.just(0), st.integers(-14 * 60, 14 * 60))


def moment():
    """ literal datetimes: (y, mo, d, h, mi, s, us, tz minutes or None) """
    return st.tuples(st.integers(1900, 2200), st.integers(1, 12),
                     st.integers(1, 28), st.integers(0, 23), st.integers(0, 59),
                     st.integers(0, 59),
                     st.one_of(st.just(0), st.integers(0, 999999),
                               st.sampled_from([1, 10, 1000, 100000, 999999])),
                     tz_minutes)


def to_datetime(t):
    if t is None:
        return None
    *parts, tz = t
    return datetime(*parts, tzinfo=None if tz is None else
                    timezone(timedelta(minutes=tz)))


big_int = st.one_of(st.integers(0, 5), st.integers(0, 2 ** 63),
                    st.sampled_from([1023, 1024, 4096, 2 ** 31, 2 ** 32, 10 ** 15]))


def opt(s):
    return st.one_of(st.none(), s)


def non_numeric(s):
    def isnum(v):
        try:
            int(v)
            return True
        except ValueError:
            return False
    return s.map(lambda v: 'N:' + v if isnum(v) else v)


def digests(max_size=64):
    return st.one_of(st.binary(min_size=1, max_size=max_size),
                     st.sampled_from([b'\x00' * 16, b'.|/!;#', b'\xff' * 32,
                                      bytes(range(64))]))


def meta_fields(texts, errors, names=None, created_before_updated=False):
    """ keyword arguments for PathMeta as a literal dict.
    numbers and timestamps where the format stores numbers and timestamps,
    texts everywhere else """
    names = texts if names is None else names
    return st.fixed_dictionaries({}, optional={
        'name': opt(names),
        'size': opt(big_int),
        'created': opt(moment()),
        'updated': opt(moment()),
        'checksum': opt(digests()),
        'checksum_cypher': opt(st.one_of(st.sampled_from(['sha256', 'md5', 'blake2b']),
                                         texts)),
        'etag': opt(st.tuples(digests(16), st.integers(0, 10 ** 6))),
        'chunksize': opt(big_int),
        'multi': opt(big_int),
        'parent_id': opt(texts),
        'id': opt(texts),
        'file_id': opt(big_int),
        'old_id': opt(texts),
        'gid': opt(big_int),
        'user_id': opt(st.one_of(big_int, non_numeric(texts))),
        'mode': opt(texts),
        'errors': st.lists(errors, max_size=3).map(tuple),
    })


FIELDS = ('name', 'size', 'created', 'updated', 'checksum', 'checksum_cypher',
          'etag', 'chunksize', 'multi', 'parent_id', 'id', 'file_id', 'old_id',
          'gid', 'user_id', 'mode', 'errors')


def meta_kwargs(fields):
    """ the literal as arguments for PathMeta """
    out = dict(fields)
    for k in ('created', 'updated'):
        if k in out:
            out[k] = to_datetime(out[k])
    return out


def meta_expected(fields, empty_is_none=False):
    """ {field: value} a reader must see for every field """
    out = {f: None for f in FIELDS}
    out.update(meta_kwargs(fields))
    out['errors'] = tuple(out['errors'] or ())
    if empty_is_none:
        for k, v in out.items():
            if k != 'errors' and v in ('', b''):
                out[k] = None
    return out


def same_value(a, b):
    if isinstance(a, datetime) and isinstance(b, datetime):
        return a.utcoffset() == b.utcoffset() and a == b
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(b, (str, bytes)) and type(a) is not type(b):
        return False
    return a == b


def meta_diff(meta, expected):
    """ the first field that is not as expected, or None """
    for f in FIELDS:
        got = getattr(meta, f)
        if f == 'errors':
            got = tuple(got)
        if not same_value(got, expected[f]):
            return f, got, expected[f]


# chunk sizes and the sizes near their multiples
def near_multiples(chunk, top=4):
    return st.one_of(
        st.integers(0, chunk * top),
        st.tuples(st.integers(0, top), st.integers(-2, 2)).map(
            lambda t: max(0, t[0] * chunk + t[1])))


def blob(size, salt=0):
    """ deterministic bytes of a size in which every position matters """
    out = bytearray()
    x = (salt * 2654435761 + 12345) & 0xffffffff
    while len(out) < size:
        x = (x * 1664525 + 1013904223) & 0xffffffff
        out += x.to_bytes(4, 'big')
    return bytes(out[:size])
