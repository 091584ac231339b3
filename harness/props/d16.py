import os
import hashlib
from hypothesis import strategies as st
import gen
import mem
import trees
from framework import Violation, check, equal, outcome, describe

from augpathlib import PathMeta, exceptions as exc

ID = 'D16'
COUNTS = {'quick': 8000, 'thorough': 80000}
RULE = ('a project with random files and folders, and one to eight steps on them: '
        'give a path metadata (an id or fields, with the checksum of its content or of '
        'another by a random algorithm), again, where nothing is; write, replace or rename a file; copy one to or '
        'from another path, that may be there, with or without its metadata; and at each '
        'step what every path has and whether its content differs from it.  Non-trivial: '
        'metadata is copied, or given a second time.')

PATHS = ['a', 'b', 'd', 'd/a', 'd/e', 'd/e/c', 'new', 'd/new', 'd/e/new']
CYPHERS = ['sha256', 'blake2b', 'md5', 'sha3_256']
FIELDS = ('id', 'size', 'created', 'updated', 'checksum', 'checksum_cypher', 'file_id')


def strategy(tier):
    path = st.integers(0, len(PATHS) - 1)
    meta = st.fixed_dictionaries({
        'id': st.integers(0, 5), 'size': st.one_of(st.none(), st.integers(0, 50)),
        'time': st.one_of(st.none(), st.integers(0, 10 ** 6),
                          st.integers(10 ** 9, 2 * 10 ** 9)),
        'file_id': st.one_of(st.none(), st.integers(0, 3)),
        'of': st.sampled_from(['none', 'self', 'self', 'other']),
        'cypher': st.sampled_from([None, *CYPHERS]),
    })
    step = st.one_of(
        st.tuples(st.just('init'), path, meta), st.tuples(st.just('init'), path, meta),
        st.tuples(st.just('id'), path, st.integers(0, 5)),
        st.tuples(st.just('write'), path, st.integers(0, 9), st.booleans()),
        st.tuples(st.just('copy'), path, path, st.sampled_from([True, True, False]),
                  st.booleans(), st.booleans()),
        st.tuples(st.just('rename'), path, path))
    return st.fixed_dictionaries({
        'rel': st.booleans(), 'fresh': st.booleans(),
        'steps': st.lists(step, min_size=1, max_size=8),
    })


def run(case, ctx):
    p = mem.Project(ctx.scratch())
    p.anchor()
    top = p.top
    content, metas, dirs = {}, {}, {'d', 'd/e'}
    for r in ('d', 'd/e'):
        os.mkdir(os.path.join(top, r))
    for r in ('a', 'b', 'd/a', 'd/e/c'):
        content[r] = gen.blob(20, len(r))
        with open(os.path.join(top, r), 'wb') as f:
            f.write(content[r])
    here = os.getcwd()
    os.chdir(os.path.join(top, 'd') if case['rel'] else here)
    objs = {}

    def local(r, fresh=False):
        full = os.path.join(top, r)
        if fresh or case['fresh'] or r not in objs:
            q = p.Local(os.path.relpath(full) if case['rel'] else full)
            if fresh:
                return q
            objs[r] = q
        return objs[r]

    def digest(cypher, data):
        return getattr(hashlib, cypher)(data).digest()

    def make(m, r):
        kw = {}
        if m['of'] != 'none' and r not in dirs:
            cypher = m['cypher'] or p.Cache.cypher().name
            kw['checksum'] = digest(cypher, content.get(r, b'') if m['of'] == 'self' else b'other')
            kw['checksum_cypher'] = m['cypher']
        if m['time'] is not None:
            kw['updated'] = kw['created'] = mem.ts(m['time'])
        return PathMeta(id=f'N:{m["id"]}', size=m['size'], file_id=m['file_id'], **kw)

    def same(got, want, what):
        for f in FIELDS:
            equal(getattr(got, f), getattr(want, f), f'{what}: {f}')

    def forget(*rs):
        # what was asked of an object before it was somewhere else
        for r in rs:
            objs.pop(r, None)

    try:
        for step in case['steps']:
            op, r = step[0], PATHS[step[1]]
            if op in ('copy', 'rename') and step[1] != step[2] + 1:
                some = sorted(set(metas) & set(content))
                if some:
                    r = some[step[1] % len(some)]
            there = r in dirs or r in content
            what = f'{op} {r}'
            before = trees.full_snapshot(top)
            if op in ('init', 'id'):
                m = make(step[2], r) if op == 'init' else PathMeta(id=f'N:{step[2]}')
                arg = m if op == 'init' else m.id
                how, res = outcome(local(r).cache_init, arg)
                if not there or r in metas:
                    want = exc.CacheExistsError if there else ValueError
                    check(how == 'err' and isinstance(res, want), '{}: expected {} got {}', what,
                          want.__name__, describe(res) if how == 'err' else res)
                    diff = trees.first_difference(trees.full_snapshot(top), before)
                    check(diff is None, '{} was refused but changed {}', what, diff)
                    if there:
                        ctx.nontrivial('again')
                else:
                    check(how == 'ok', '{}: {}', what, describe(res) if how == 'err' else '')
                    metas[r] = m
                    same(res.meta, m, f'{what}: metadata of the result')
                    equal(os.path.abspath(res.local), os.path.join(top, r),
                          f'{what}: place of the result')
            elif op == 'write':
                if r in dirs or not r in content and not os.path.isdir(
                        os.path.join(top, os.path.dirname(r))):
                    continue
                data = gen.blob(20, step[2])
                if step[3]:
                    local(r).data = iter([data[:7], data[7:]])
                else:
                    with open(os.path.join(top, r), 'wb') as f:
                        f.write(data)
                content[r] = data
            elif op == 'rename':
                t = PATHS[step[2]]
                if not there or r in dirs or t in dirs or t == r:
                    continue
                res = local(r).rename(local(t))
                content[t] = content.pop(r)
                metas.pop(t, None)
                if r in metas:
                    metas[t] = metas.pop(r)
                forget(r, t)
            else:
                _, _, t, with_meta, force, backward = step
                t = PATHS[t]
                if r not in content or t in dirs or with_meta and r not in metas:
                    continue
                what += f' to {t} with {"meta" if with_meta else "nothing"}'
                if with_meta and t in metas and force and t != r:
                    continue  # two metadata for one path: not decided here
                kw = {'force': force, 'copy_cache_meta': with_meta}
                if backward:
                    how, res = outcome(local(t).copy_from, local(r), **kw)
                else:
                    how, res = outcome(local(r).copy_to, local(t), **kw)
                if t == r or t in content and not force:
                    check(how == 'err', '{}: {}', what, res)
                    diff = trees.first_difference(trees.full_snapshot(top), before)
                    check(diff is None, '{} was refused but changed {}', what, diff)
                else:
                    check(how == 'ok', '{}: {}', what, describe(res) if how == 'err' else '')
                    content[t] = content[r]
                    if with_meta:
                        metas[t] = metas[r]
                        ctx.nontrivial('copied')
                ctx.note('refused' if how == 'err' else 'copy')

            ctx.note(op)
            for q in PATHS:
                full = os.path.join(top, q)
                equal(os.path.lexists(full), q in dirs or q in content, f'{what}: {q} is there')
                if q in content:
                    with open(full, 'rb') as f:
                        equal(f.read(), content[q], f'{what}: content of {q}')
                for l in ([local(q)] if q in metas else []) + [local(q, fresh=True)]:
                    c = l.cache
                    if q not in metas:
                        check(c is None or c.meta is None, '{}: {} has metadata {}', what, q, c)
                        continue
                    check(c is not None, '{}: {} has no metadata', what, q)
                    m = metas[q]
                    same(c.meta, m, f'{what}: metadata of {q}')
                    equal(c.id, m.id, f'{what}: id of {q}')
                    if q in content and m.checksum:
                        cypher = m.checksum_cypher or p.Cache.cypher().name
                        different = digest(cypher, content[q]) != m.checksum
                        ctx.note('different' if different else 'same')
                        equal(bool(l.content_different()), different,
                              f'{what}: content of {q} is different')
    finally:
        os.chdir(here)
