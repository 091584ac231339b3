import os
from hypothesis import strategies as st
import gen
from framework import check, equal, short, Violation

from augpathlib import PathMeta, AugmentedPath

ID = 'A03'
COUNTS = {'quick': 24000, 'thorough': 150000}
RULE = ('random metadata written by an encoder of the harness in one of the '
        'seven symlink formats ever written (with the trailing human readable '
        'size and any later suffixes or without, with the leading file name or '
        'without) as a real symlink, read back by the code.  Non-trivial: not '
        'the current format and at least three fields have a value.')
ASSUMPTIONS = ['the formats before mdv5 escaped . in a name as | and had no escape '
               'for . elsewhere, mdv5 and later escape . as !',
               'user ids that are numeric strings read back as numbers']

BASE = ['file_id', 'size', 'created', 'updated', 'checksum', 'old_id', 'gid',
        'user_id', 'mode', 'errors']


def ins(order, after, *new):
    i = order.index(after) + 1
    return order[:i] + list(new) + order[i:]


V = {'meta': BASE}
V['mdv1'] = ins(V['meta'], 'checksum', 'chunksize')
V['mdv2'] = ins(V['mdv1'], 'checksum', 'etag')
V['mdv3'] = ins(ins(V['mdv2'], 'chunksize', 'parent_id'), 'mode', 'name')
V['mdv4'] = ins(V['mdv3'], 'checksum', 'checksum_cypher')
V['mdv5'] = V['mdv4']
V['mdv6'] = ins(V['mdv5'], 'chunksize', 'multi')

texts = gen.text_of(gen.ASCII + "-: ~,%/.!", 1, 16).filter(lambda s: s != '#')
errors = gen.text_of(gen.ASCII + '-', 1, 10)
names = gen.text_of(gen.ASCII + "-: ~,%.!\u00e9", 1, 16)


def strategy(tier):
    return st.fixed_dictionaries({
        'version': st.sampled_from(sorted(V)),
        'meta': gen.meta_fields(texts, errors, names=names),
        'fname': gen.fname(),
        'local_name': st.booleans(),
        'trailing': st.sampled_from([[], ['1K'], ['#'], ['2M', 'later']]),
    })


def iso(t):
    y, mo, d, h, mi, s, us, tz = t
    out = f'{y:04d}-{mo:02d}-{d:02d}T{h:02d}:{mi:02d}:{s:02d}'
    if us:
        out += f',{us:06d}'
    if tz == 0:
        out += 'Z'
    elif tz is not None:
        sign = '-' if tz < 0 else '+'
        out += f'{sign}{abs(tz) // 60:02d}:{abs(tz) % 60:02d}'
    return out


def enc(field, v, version):
    n = 0 if version == 'meta' else int(version[3:])
    if v is None or v == ():
        # no errors is an empty string in the encodings that have it
        return '' if field == 'errors' and v is not None else '#'
    if field in ('created', 'updated'):
        return iso(v)
    if field == 'checksum':
        return v.hex()
    if field == 'etag':
        return f'{v[0].hex()}-{v[1]}'
    if field == 'errors':
        return ';'.join(v)
    if isinstance(v, int):
        return str(v)
    if field == 'name':
        return v.replace('.', '!') if n >= 5 else v.replace('.', '|')
    v = v.replace('/', '|')
    return v.replace('.', '!') if n >= 5 else v


def run(case, ctx):
    version = case['version']
    n = 0 if version == 'meta' else int(version[3:])
    fields = {k: v for k, v in case['meta'].items() if k in V[version] or k == 'id'}
    if n < 5:  # . could not be stored outside of names in the older formats
        fields = {k: (v.replace('.', '') or 'x')
                  if isinstance(v, str) and k != 'name' else v
                  for k, v in fields.items()}
    else:  # it stands for . in the newer ones
        fields = {k: v.replace('!', '-') if isinstance(v, str) else v
                  for k, v in fields.items()}
    ident = fields.get('id')
    if ident is None:
        fields['id'] = ident = 'N:package:1'
    uid = fields.get('user_id')
    if isinstance(uid, str):
        try:
            int(uid)
            fields['user_id'] = 'x'
        except ValueError:
            pass
    parts = ['', version] + [enc(f, fields.get(f), version) for f in V[version]]
    data = '.'.join(parts + case['trailing'])
    target = f'{enc("id", ident, version)}/{data}'
    if case['local_name']:
        target = f'{case["fname"]}/{target}'
    expected = gen.meta_expected(fields)
    present = [f for f in gen.FIELDS if expected[f] is not None and expected[f] != ()]
    if version != 'mdv6' and len(present) >= 3:
        ctx.nontrivial()
    ctx.note(f'version:{version}')

    path = os.path.join(ctx.scratch(), case['fname'])
    os.symlink(target, path)
    back = PathMeta.from_symlink(AugmentedPath(path))
    d = gen.meta_diff(back, expected)
    if d is not None:
        raise Violation(f'{version} link {target!r}: field {d[0]} was {short(d[2])} '
                        f'read as {short(d[1])}')
    check(back == PathMeta(**gen.meta_kwargs(fields)), 'not equal to the metadata {}', fields)

    if version == 'mdv6' and fields.get('errors') is not None:
        # the current writer writes what this encoder writes
        got = str(back.as_symlink(local_name=case['fname'] if case['local_name'] else None))
        head = f'{target}'[:-len('.'.join([''] + case['trailing']))] if case['trailing'] else target
        check(got.startswith(head + '.'), 'writes {} not {}', got, head)
