import os
from hypothesis import strategies as st
import mem
import trees
from framework import check, outcome, describe

ID = 'D09'
COUNTS = {'quick': 4800, 'thorough': 40000}
RULE = ('an anchored project and up to 8 steps: setting up its data folder, as it is or with the '
        'objects in one of several other folders (given absolute, relative, through a link, '
        'missing), putting files into the objects, replacing or removing them or the trash, or '
        'starting over.  Non-trivial: it is set up again after objects were put there, or a '
        'second place for the objects is asked for.')
ASSUMPTIONS = ['the project is on one file system']


def strategy(tier):
    init = st.tuples(st.just('init'),
                     st.sampled_from([None, 'A', 'A', 'B', 'relA', 'linkA', 'missing', 'x/A']),
                     st.sampled_from([True] * 5 + [False]))
    user = st.tuples(st.sampled_from(['put', 'put', 'clear', 'clear', 'file', 'notrash', 'again',
                                      'folder']),
                     st.integers(0, 2))
    return st.fixed_dictionaries({
        'steps': st.lists(st.one_of(init, init, user), min_size=1, max_size=8),
        'trash': st.sampled_from([True] * 4 + [False]),
    })


def no_trash(self):
    raise NotImplementedError


def run(case, ctx):
    d = os.path.realpath(ctx.scratch())
    for n in ('A', 'B', 'x/A'):  # two have the same name
        os.makedirs(os.path.join(d, n))
        with open(os.path.join(d, n, 'kept'), 'w') as f:
            f.write(n)
    os.symlink('A', os.path.join(d, 'linkA'))
    kw = {} if case['trash'] else {'cache_attrs': {'trash': property(no_trash)}}
    p = mem.Project(d, **kw)
    p.anchor()
    cache = p.local().cache
    cache.anchorClassHere() if getattr(p.Cache, '_anchor', None) is None else None
    data = os.path.join(p.top, cache._local_data_dir)
    objects, trash = os.path.join(data, 'objects'), os.path.join(data, 'trash')
    check(os.path.isdir(objects) and not os.path.islink(objects),
          'no objects folder after anchoring')
    check(os.path.isdir(trash) == case['trash'], 'trash after anchoring')

    os.chdir(d)
    put = False
    asked = set()
    for step in case['steps']:
        before = trees.full_snapshot(d, inodes=False)
        b = {k: v[:2] for k, v in before.items()}
        name = step[0]
        if name == 'put':
            if os.path.isdir(objects):
                with open(os.path.join(objects, f'o{step[1]}'), 'w') as f:
                    f.write(f'object {step[1]}')
                put = True
            continue
        if name in ('clear', 'file', 'folder'):
            if os.path.islink(objects) or os.path.isfile(objects):
                os.unlink(objects)
            elif os.path.isdir(objects):
                for n in os.listdir(objects):
                    os.unlink(os.path.join(objects, n))
                os.rmdir(objects)
            if name == 'file':
                open(objects, 'w').close()
            elif name == 'folder':
                os.mkdir(objects)
            continue
        if name == 'notrash':
            if os.path.isdir(trash):
                os.rmdir(trash)
            continue
        if name == 'again':
            cache = p.local().cache
            continue

        _, to, exist_ok = step
        kw = {} if exist_ok else {'exist_ok': False}
        full = None
        if to is not None:
            full = os.path.join(d, 'A' if to in ('relA', 'linkA') else to)
            kw['symlink_objects_to'] = p.Local({'relA': 'A', 'linkA': f'{d}/linkA'}.get(
                to, os.path.join(d, to)))
            asked.add(full)
            if len(asked) > 1:
                ctx.nontrivial('other place')
        if put:
            ctx.nontrivial('again')

        was = ('link' if os.path.islink(objects) else 'dir' if os.path.isdir(objects)
               else 'file' if os.path.exists(objects) else None)
        same = was == 'link' and full is not None and (
            os.path.realpath(objects) == os.path.realpath(full))
        if not exist_ok:
            allowed = False
        elif to is None:
            allowed = was is None or os.path.isdir(objects)
        elif was == 'link':
            allowed = same
        elif was == 'dir':
            allowed = not os.listdir(objects)
        else:
            allowed = was is None

        how, res = outcome(cache.local_data_dir_init, **kw)
        after = {k: v[:2] for k, v in trees.full_snapshot(d, inodes=False).items()}
        what = f'set up with {to} when objects is {was}'
        rt, ro = os.path.relpath(trash, d), os.path.relpath(objects, d)
        if how == 'err':
            check(not allowed, '{}: {}', what, describe(res) if how == 'err' else '')
            check(isinstance(res, OSError), '{}: {}', what, describe(res))
            diff = trees.first_difference(after, b)
            check(diff is None, '{} refused but {}', what, diff)
            ctx.note('refused')
            continue

        check(allowed, '{} was not refused', what)
        want = dict(b)
        if case['trash']:
            want.setdefault(rt, ('dir', None))
        got = dict(after)
        made = got.pop(ro, None)
        want.pop(ro, None)
        diff = trees.first_difference(
            {k: v[0] if v[0] == 'dir' else v for k, v in got.items()},
            {k: v[0] if v[0] == 'dir' else v for k, v in want.items()})
        check(diff is None, '{}: {}', what, diff)
        if full is None:
            check(os.path.isdir(objects), '{}: objects is not a folder', what)
            check(os.path.islink(objects) == (was == 'link'), '{}: objects is {}', what, made)
        else:
            check(os.path.islink(objects) and
                  os.path.realpath(objects) == os.path.realpath(full),
                  '{}: objects is {}', what, made)
            ctx.note('elsewhere')
