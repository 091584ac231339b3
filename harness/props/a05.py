import os
from hypothesis import strategies as st
import gen
from framework import Violation, check, equal, short

from augpathlib import PathMeta, LocalPath, PrimaryCache, EatCache, SymlinkCache
from augpathlib import exceptions as exc

ID = 'A05'
COUNTS = {'quick': 8000, 'thorough': 80000}
RULE = ('a folder is given metadata and then 1 to 5 newer ones, each with a random '
        'set of fields, many equal to the old ones, under a random prefix or none, next to '
        'foreign attributes and the metadata of another cache; after each one it is '
        'read by a fresh object and straight from disk.  Non-trivial: a field is '
        'dropped, or an id is replaced.')
ASSUMPTIONS = ['metadata of a cached path has an id',
               'an empty text is not a value that is recorded',
               'user ids that are numeric strings read back as numbers']

texts = gen.text_of(gen.ASCII + gen.SPECIAL, 1, 8)
few = st.sampled_from(['x', 'y'])
CONTENT = 'created', 'updated', 'size', 'checksum', 'file_id'


def strategy(tier):
    errors = gen.text_of(gen.ASCII, 1)
    meta = gen.meta_fields(texts, errors)
    moments = st.sampled_from([(2020, 1, 1, 0, 0, 0, 0, 0), (2020, 1, 1, 1, 0, 0, 0, 60),
                               (2021, 5, 4, 3, 2, 1, 5, None)])
    # few values so that fields often stay the same
    same = st.fixed_dictionaries({}, optional={
        'size': gen.opt(st.integers(0, 1)), 'created': gen.opt(moments),
        'updated': gen.opt(moments), 'checksum': gen.opt(st.sampled_from([b'1', b'2'])),
        'file_id': gen.opt(st.integers(0, 1)), 'name': gen.opt(few),
        'etag': gen.opt(st.tuples(st.sampled_from([b'1', b'2']), st.integers(1, 2))),
        'old_id': gen.opt(few), 'mode': gen.opt(few), 'gid': gen.opt(st.integers(0, 1)),
        'user_id': gen.opt(st.integers(0, 1)), 'multi': gen.opt(st.integers(0, 1)),
        'checksum_cypher': gen.opt(few), 'parent_id': gen.opt(few),
        'chunksize': gen.opt(st.integers(0, 1)),
        'errors': st.lists(few, max_size=2).map(tuple)})
    one = st.tuples(st.sampled_from(['N:1', 'N:1', 'N:2', 'N:3']),
                    st.one_of(same, same, meta)).map(lambda t: {**t[1], 'id': t[0]})
    return st.fixed_dictionaries({
        'metas': st.lists(one, min_size=2, max_size=6),
        'prefix': st.sampled_from(['bf', 'test', 'b', 'bf.x', 'x-y', None]),
        'other': gen.opt(same),
        'again': st.booleans(),
    })


def merge(old, new):
    """ both are complete {field: value} """
    changed = any(old[f] is not None and new[f] is not None and old[f] != new[f]
                  for f in CONTENT)
    out = {}
    for f in gen.FIELDS:
        if f == 'errors':
            out[f] = new[f] or old[f]
        elif new[f] is not None:
            out[f] = new[f]
        elif changed and f != 'old_id':
            out[f] = None
        else:
            out[f] = old[f]
    if old['id'] != new['id'] and new['old_id'] is None:
        out['old_id'] = old['id']
    dropped = [f for f in gen.FIELDS if old[f] is not None and out[f] is None]
    return out, dropped


def same(meta, expected, what):
    d = gen.meta_diff(meta, expected)
    if d is not None:
        raise Violation(f'{what}: field {d[0]} is {short(d[1])} expected {short(d[2])}')


_classes = {}


def classes(prefix):
    if prefix not in _classes:
        C = type('MergeCache', (PrimaryCache, EatCache),
                 {'xattr_prefix': prefix, '_not_exists_cache': SymlinkCache,
                  'anchor': None})
        L = type('MergeLocal', (LocalPath,), {})
        C._bind_flavours()
        L._bind_flavours()
        C._local_class = L
        L._cache_class = C
        _classes[prefix] = L, C
    return _classes[prefix]


def run(case, ctx):
    d = os.path.join(ctx.scratch(), 'folder')
    os.mkdir(d)
    L, C = classes(case['prefix'])
    keep = {}
    if case['prefix'] is not None:  # otherwise every attribute is a field
        os.setxattr(d, 'user.other', b'kept')
        os.setxattr(d, 'user.bf2.size', b'7')
        keep = {b'other': b'kept', b'bf2.size': b'7'}
    if case['other'] and keep:
        other = PathMeta(**gen.meta_kwargs(case['other'])).as_xattrs('alt')
        for k, v in other.items():
            os.setxattr(d, b'user.' + k, v)
        keep.update(other)

    state = None
    for i, fields in enumerate(case['metas']):
        new = gen.meta_expected(fields)
        meta = PathMeta(**gen.meta_kwargs(fields))
        before = gen.meta_expected(fields)
        if state is None:
            cache = L(d).cache_init(meta)
            state = new
            dropped = []
        else:
            oid = state['id']
            state, dropped = merge(state, new)
            cache = C(d, meta=meta)
            if dropped or oid != state['id']:
                ctx.nontrivial()
            ctx.note('dropped' if dropped else 'kept', *(['new id'] if oid != state['id'] else []))
        what = f'after {i}'
        same(meta, before, 'the metadata that was recorded')
        same(cache.meta, state, what)
        same(L(d).cache.meta, state, f'{what}, by a fresh path')
        equal(L(d).cache.id, state['id'], f'{what}, id')
        disk = {k.encode()[5:]: os.getxattr(d, k) for k in os.listxattr(d)
                if k.startswith('user.')}
        same(PathMeta.from_xattrs({k: v for k, v in disk.items() if k not in keep},
                                  case['prefix']), state, f'{what}, on disk')
        equal({k: v for k, v in disk.items() if k in keep}, keep, f'{what}, other attributes')
        if case['again']:  # recording it again changes nothing
            C(d, meta=meta)
            again, _ = merge(state, new)
            same(L(d).cache.meta, again, f'{what}, again')
            state = again
