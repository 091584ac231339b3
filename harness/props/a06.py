from collections import Counter
from hypothesis import strategies as st
import gen
from framework import check, equal, short, Violation

from augpathlib import PathMeta

ID = 'A06'
COUNTS = {'quick': 16000, 'thorough': 100000}
RULE = ('pairs of random metadata values, identical, differing in some fields, '
        'or with fields only one of them has; the printed table of each and the '
        'printed difference are parsed back into cells.  Non-trivial: both have '
        'at least two fields and each has a field the other lacks.')
ASSUMPTIONS = ['text has no | and no line breaks so that tables parse',
               'timestamps are all timezone aware']

texts = gen.text_of(gen.ASCII + "-:~,;#!/.\u00e9", 1, 12)


def aware(d):
    out = dict(d)
    for k in ('created', 'updated'):
        if out.get(k) is not None:
            out[k] = out[k][:-1] + (out[k][-1] or 0,)
    return out


def strategy(tier):
    meta = gen.meta_fields(texts, texts).map(aware)
    return st.fixed_dictionaries({
        'a': meta, 'b': meta,
        'share': st.lists(st.sampled_from(gen.FIELDS), max_size=12),
        'human': st.booleans(),
    })


def cell(field, v, human):
    if field in ('created', 'updated'):
        return v.isoformat().replace('.', ',').replace('+00:00', 'Z')
    if field == 'checksum':
        return v.hex()
    if field == 'etag':
        return f'{v[0].hex()}-{v[1]}'
    if field == 'errors':
        return str(list(v))
    if field == 'size' and human:
        return None  # presence only
    return str(v)


def cells(table):
    """ rows of the table below the header """
    rows = [line for line in table.split('\n') if line.startswith('|')]
    return [[c.strip() for c in row[1:-1].split('|')] for row in rows]


def present(e):
    return {f for f in gen.FIELDS if e[f] is not None and e[f] != ()}


def run(case, ctx):
    a = dict(case['a'])
    b = dict(case['b'])
    for f in case['share']:
        if f in a:
            b[f] = a[f]
        else:
            b.pop(f, None)
    human = case['human']
    ea, eb = gen.meta_expected(a), gen.meta_expected(b)
    pa, pb = present(ea), present(eb)
    if len(pa) > 1 and len(pb) > 1 and pa - pb and pb - pa:
        ctx.nontrivial()
    ctx.note('same fields' if pa == pb else 'different fields')
    ma, mb = PathMeta(**gen.meta_kwargs(a)), PathMeta(**gen.meta_kwargs(b))

    for m, e, p in ((ma, ea, pa), (mb, eb, pb)):
        rows = cells(m.as_pretty(title='t', human=human))
        equal(rows[0][0], 'Key', 'header')
        got = {}
        for row in rows[1:]:
            equal(len(row), 2, 'columns')
            check(row[0] not in got, 'field {} twice', row[0])
            got[row[0]] = row[1]
        equal(set(got), p, 'fields in the table')
        for f in p:
            want = cell(f, e[f], human)
            if want is not None:
                equal(got[f], want.strip(), f'cell for {f}')
            else:
                check(got[f], 'empty cell for {}', f)

    ctx.note('diff')
    rows = cells(ma.as_pretty_diff(mb, title='t', human=human))
    equal(rows[0], ['Key', 'Value', 'Key Other', 'Value Other'], 'diff header')
    seen = Counter(), Counter()
    for row in rows[1:]:
        equal(len(row), 4, 'columns')
        kl, vl, kr, vr = row
        check(kl or kr, 'a row for no field')
        if kl in pb or kr in pa:
            check(kl == kr, 'fields {} and {} on the same row', kl, kr)
        for i, (k, v, e) in enumerate(((kl, vl, ea), (kr, vr, eb))):
            if k:
                seen[i][k] += 1
                want = cell(k, e[k], human)
                if want is not None:
                    equal(v, want.strip(), f'diff cell for {k}')
    for i, p in ((0, pa), (1, pb)):
        check(set(seen[i]) == p, 'side {} of the difference shows {} not {}',
              i, sorted(seen[i]), sorted(p))
        dup = [k for k, n in seen[i].items() if n > 1]
        check(not dup, 'side {} of the difference shows {} more than once', i, dup)
