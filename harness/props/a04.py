import copy
import pickle
from hypothesis import strategies as st
import gen
from framework import check, equal, short, Violation, rejects

from augpathlib import PathMeta

ID = 'A04'
COUNTS = {'quick': 40000, 'thorough': 300000}
RULE = ('a random metadata value, a second that is identical, changed in one '
        'field, or unrelated, with timestamps given as datetimes or as the '
        'strings the formats store; compared, copied, deep copied, pickled with '
        'every protocol, read through each accessor.  Non-trivial: at least two '
        'fields have a value.')

texts = gen.text_of(gen.ASCII + gen.SPECIAL, 0, 8)


def strategy(tier):
    meta = gen.meta_fields(texts, texts)
    return st.fixed_dictionaries({
        'meta': meta,
        'change': st.one_of(st.none(), st.sampled_from(gen.FIELDS)),
        'other': meta,
        'strings': st.booleans(),
        'protocol': st.integers(0, pickle.HIGHEST_PROTOCOL),
    })


def build(fields, strings=False):
    kw = gen.meta_kwargs(fields)
    if strings:
        for k in ('created', 'updated'):
            if kw.get(k) is not None:
                kw[k] = kw[k].isoformat().replace('.', ',').replace('+00:00', 'Z')
    return PathMeta(**kw)


def eq(a, b):
    r = a == b
    n = a != b
    check(bool(r) is not bool(n), '== and != agree: {} {}', r, n)
    check(bool(b == a) is bool(r), 'equality is not symmetric')
    return bool(r)


def run(case, ctx):
    fields = case['meta']
    e = gen.meta_expected(fields)
    present = [f for f in gen.FIELDS if e[f] is not None and e[f] != ()]
    if len(present) >= 2:
        ctx.nontrivial()
    m = build(fields)
    s = build(fields, case['strings'])

    check(eq(m, m), 'not equal to itself')
    check(eq(m, build(fields)), 'not equal to a second instance with the same values')
    check(eq(m, s), 'not equal when timestamps were provided as strings {} {}', m, s)
    check(not (m == None) and m != 'x' and not (m == dict(fields)), 'equal to something else')  # noqa

    changed = dict(fields)
    if case['change'] is not None:
        ctx.note('one field changed')
        changed[case['change']] = case['other'].get(case['change'])
    else:
        changed = case['other']
    o = build(changed)
    oe = gen.meta_expected(changed)
    want = all(e[f] == oe[f] for f in gen.FIELDS)
    ctx.note('equal' if want else 'different')
    if eq(m, o) != want:
        raise Violation(f'equality of {m} and {o} is not {want}')

    check(bool(m) is bool(present), 'truth of {} is {}', m, bool(m))

    for how, c in (('copy', copy.copy(m)), ('deepcopy', copy.deepcopy(m)),
                   ('pickle', pickle.loads(pickle.dumps(m, case['protocol']))),
                   ('pickle strings', pickle.loads(pickle.dumps(s, case['protocol'])))):
        d = gen.meta_diff(c, e)
        check(type(c) is PathMeta and c is not m, '{} gave {}', how, type(c))
        if d is not None:
            raise Violation(f'{how}: field {d[0]} {short(d[2])} became {short(d[1])}')
        check(eq(c, m), '{} is not equal', how)

    items = dict(m.items())
    equal(set(items), set(gen.FIELDS), 'fields from items')
    for f in gen.FIELDS:
        check(gen.same_value(items[f], e[f]), 'items {} {} {}', f, items[f], e[f])
        check(gen.same_value(m[f], e[f]), 'm[{!r}] is {} not {}', f, m[f], e[f])
    for k in m.keys():
        check(k in e, 'unexpected key {}', k)
    equal(sorted(m.keys()), sorted(m), 'keys and iteration')
    check(set(gen.FIELDS) - set(m.keys()) <= {'created', 'updated'}, 'keys missing')
    with rejects(KeyError, what='unknown key'):
        m['no such field']
    if m.size is not None:
        equal(int(m.size), e['size'], 'size')
        equal(str(m.size), str(e['size']), 'str of size')

    # content_different: evidence about content only
    a, b = m, o
    if e['checksum'] and oe['checksum']:
        ctx.note('checksums')
        equal(bool(a.content_different(b)), e['checksum'] != oe['checksum'], 'content_different')
    elif e['updated'] is None or oe['updated'] is None:
        equal(bool(a.content_different(b)), e['size'] != oe['size'], 'content_different')
    elif (e['updated'].tzinfo is None) == (oe['updated'].tzinfo is None):
        ctx.note('timestamps')
        equal(bool(a.content_different(b)),
              e['size'] != oe['size'] or e['updated'] < oe['updated'], 'content_different')
