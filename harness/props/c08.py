import os
from hypothesis import strategies as st
import gen
import trees
from framework import Violation, check, equal, outcome, describe

from augpathlib import AugmentedPath, LocalPath, RepoPath, ZipPath, exceptions as exc

ID = 'C08'
COUNTS = {'quick': 12000, 'thorough': 150000}
RULE = ('every kind of source (file, link to a file, broken link, folder, missing) '
        'and target (missing, file, folder, broken link, link to a file, link to '
        'the source, hard link to the source, the source), sizes around the read '
        'size, forced or not, by all four operations.  Non-trivial: something '
        'is at the target, or the source has more than one chunk.')
SOURCES = ['file'] * 6 + ['link', 'broken', 'dir', 'missing']
TARGETS = ['missing'] * 3 + ['file', 'file', 'dir', 'broken', 'link', 'tosource',
                             'hardlink', 'source', 'loop', 'noparent', 'longlink']

CLASSES = AugmentedPath, LocalPath, RepoPath, ZipPath


def strategy(tier):
    return st.fixed_dictionaries({
        'source': st.sampled_from(SOURCES),
        'target': st.sampled_from(TARGETS),
        'size': st.one_of(st.integers(0, 40), gen.near_multiples(4096, 3),
                          st.sampled_from([4096, 8192, 20000])),
        'old': st.sampled_from([0, 5, 5000, 30000]),
        'force': st.booleans(),
        'op': st.sampled_from(['to', 'from', 'outto', 'infrom']),
        'rel': st.booleans(),
        'cls': st.tuples(*[st.integers(0, len(CLASSES) - 1)] * 2),
    })


def run(case, ctx):
    d = os.path.realpath(ctx.scratch())
    for n in ('s', 't'):
        os.mkdir(os.path.join(d, n))
    data, old = gen.blob(case['size'], 1), gen.blob(case['old'], 2)
    name = 'name.ext'
    src, tgt = os.path.join(d, 's', name), os.path.join(d, 't', name)
    other = os.path.join(d, 'other')
    with open(other, 'wb') as f:
        f.write(old)
    kind = case['source']
    if kind == 'file':
        with open(src, 'wb') as f:
            f.write(data)
    elif kind == 'link':
        with open(os.path.join(d, 'real'), 'wb') as f:
            f.write(data)
        os.symlink('../real', src)
    elif kind == 'broken':
        os.symlink('nowhere/at-all', src)
    elif kind == 'dir':
        os.mkdir(src)
        open(os.path.join(src, 'inner'), 'w').close()

    to = case['target']
    if to == 'file':
        with open(tgt, 'wb') as f:
            f.write(old)
    elif to == 'dir':
        os.mkdir(tgt)
    elif to == 'broken':
        os.symlink('../not-there', tgt)
    elif to == 'longlink':
        os.symlink(name + '/.meta.' + 'm' * 280, tgt)
    elif to == 'link':
        os.symlink('../other', tgt)
    elif to == 'tosource':
        os.symlink('../s/' + name, tgt)
    elif to == 'hardlink':
        if kind != 'file':
            return
        os.link(src, tgt)
    elif to == 'loop':
        os.symlink(name, tgt)
    elif to == 'source':
        tgt = src
    elif to == 'noparent':
        tgt = os.path.join(d, 'none', name)
    readable = kind in ('file', 'link')

    os.chdir(d)
    cs, ct = (CLASSES[i] for i in case['cls'])

    def path(cls, full):
        return cls(os.path.relpath(full, d)) if case['rel'] else cls(full)

    s, t, td = path(cs, src), path(ct, tgt), path(ct, os.path.dirname(tgt))
    before = trees.full_snapshot(d, inodes=False)
    occupied = os.path.lexists(tgt)
    kw = {'force': True} if case['force'] else {}
    if case['op'] == 'to':
        how, res = outcome(s.copy_to, t, **kw)
    elif case['op'] == 'from':
        how, res = outcome(t.copy_from, s, **kw)
    elif case['op'] == 'outto':
        how, res = outcome(s.copy_outto, td, **kw)
    else:
        how, res = outcome(td.copy_infrom, s, **kw)
    after = trees.full_snapshot(d, inodes=False)
    what = (f'{case["op"]} {"forced " if case["force"] else ""}from {kind} of {case["size"]} '
            f'to {to} ({cs.__name__} {ct.__name__})')
    err = describe(res) if how == 'err' else ''
    if occupied or case['size'] > 4096:
        ctx.nontrivial(to)

    def flat(snapshot):
        return {k: v[:2] for k, v in snapshot.items()}

    b, a = flat(before), flat(after)
    unchanged = trees.first_difference(a, b)
    same = readable and os.path.exists(tgt) and b.get('s/' + name) and (
        to in ('tosource', 'hardlink', 'source'))
    rt = os.path.relpath(tgt, d)

    # whatever happens the source stays
    for k in ('s/' + name, 'real', 's'):
        if k in b:
            check(a.get(k) == b[k], '{}: source {} is {!r:.100} was {!r:.100} ({})',
                  what, k, a.get(k), b[k], err)

    if occupied and not case['force']:
        check(how == 'err', '{} was not refused', what)
        check(isinstance(res, exc.PathExistsError) or not readable, '{}: {}', what, err)
        check(unchanged is None, '{} refused but {}', what, unchanged)
        ctx.note('refused')
    elif not occupied:
        if not readable or to == 'noparent':
            check(how == 'err', '{} worked', what)
            check(unchanged is None, '{} failed but {}', what, unchanged)
        else:
            check(how == 'ok', '{}: {}', what, err)
            if case['op'] in ('outto', 'infrom'):
                check(res is not None and os.path.realpath(res) == tgt,
                      '{}: returned {}', what, res)
            diff = trees.first_difference(a, {**b, rt: ('file', data)})
            check(diff is None, '{}: {}', what, diff)
    else:  # forced
        ctx.note('forced')
        if same:
            check(unchanged is None, '{} changed {}', what, unchanged)
        elif not readable:
            check(how == 'err', '{} worked', what)
            check(unchanged is None, '{} failed but {}', what, unchanged)
        elif to == 'file':
            check(how == 'ok', '{}: {}', what, err)
            diff = trees.first_difference(a, {**b, rt: ('file', data)})
            check(diff is None, '{}: {}', what, diff)
        elif to == 'link':
            check(how == 'ok', '{}: {}', what, err)
            with open(tgt, 'rb') as f:
                equal(f.read(), data, what)
            allowed = {rt, 'other'}
            diff = trees.first_difference({k: v for k, v in a.items() if k not in allowed},
                                          {k: v for k, v in b.items() if k not in allowed})
            check(diff is None, '{}: {}', what, diff)
        else:  # folder, broken link: an error or the data is where it was asked to be
            if how == 'err':
                check(unchanged is None, '{} failed but {}', what, unchanged)
            elif to == 'dir':
                inner = rt + '/' + name
                diff = trees.first_difference(a, {**b, inner: ('file', data)})
                check(diff is None, '{}: {}', what, diff)
            else:
                with open(tgt, 'rb') as f:
                    equal(f.read(), data, what)
