import os
from hypothesis import strategies as st
import gen
import mem
from faults import Crash, Faults, ids, operate, snapshot, strategy, world
from framework import Violation, check, outcome

ID = 'D13'
COUNTS = {'quick': 10000, 'thorough': 100000}
RULE = ('the projects and operations of D12 with the process ended at call number n that '
        'changes the file system (nothing is done from there on, a write is half done); then '
        'a new process opens the project and bootstraps it again.  Non-trivial: there was '
        'local data and at least one change was made before the end.')
ASSUMPTIONS = ['calls that were made before the end are on the disk',
               'fetch onto a file that has content is left out, it writes in place',
               'a link that was being fetched may be gone, bootstrap makes it again']


def contents(tree):
    return {v[2] for v in tree.values() if v[0] == 'file'}


def run(case, ctx):
    d = ctx.scratch()
    op, kind, change = case['op'], case['kind'], case['change']
    if change == 'removed' and op in ('move', 'init') or op == 'fetch' and kind != 'link':
        return
    os.mkdir(os.path.join(d, 'A'))
    control, old = world(os.path.join(d, 'A'), case)
    with Faults() as f:
        outcome(operate, control, case, old)
    if not f.calls:
        return
    at = case['at'] % len(f.calls)
    want = snapshot(control.top)
    os.mkdir(os.path.join(d, 'B'))
    p, old = world(os.path.join(d, 'B'), case)
    before = snapshot(p.top)
    with Faults(at, crash=True):
        try:
            operate(p, case, old)
        except (Crash, Exception):
            pass
    after = snapshot(p.top)
    call = ' '.join(os.path.relpath(x, control.top) if x.startswith('/') else x
                    for x in f.calls[at])
    what = f'{op} of {kind} after {change}, ended at {call}'
    ctx.note(op, f.calls[at][0])
    if at and any(v[0] == 'file' and v[2] for v in before.values()):
        ctx.nontrivial()

    def kept(tree, when):
        have = contents(tree)
        for k, v in before.items():
            if v[0] == 'file' and v[2] not in have:
                raise Violation(f'{what}: content of {k} is gone {when}')

    kept(after, 'after it')
    lost = ids(before) & ids(want) - ids(after)
    if op == 'fetch':
        lost -= {'N:s'}
    check(not lost, '{}: {} is not tracked anymore', what, lost)

    # a new process
    q = mem.Project(p.base)
    q.store = p.store
    q.Local, q.Cache, q.Remote = mem.make(q.store)
    q.Remote.init(q.store.root)
    tag, root = outcome(q.Remote.anchorTo, q.Local(p.top))
    check(tag == 'ok' and root is not None and root.id == q.store.root,
          '{}: the project does not open: {!r}', what, root)
    # the version before the remote changed is not half of anything
    known = contents(before) | contents(want) | {gen.blob(case['size'], 1)}
    for k, v in after.items():
        if v[0] == 'file' and v[2] not in known and not k.startswith(mem.DATA_DIR):
            ctx.note('half')
            path = q.Local(p.top, k)
            cache = path.cache
            if cache is not None:
                check(path.meta.content_different(cache.meta),
                      '{}: {} looks complete', what, k)
    outcome(root.bootstrap, root.remote.meta, recursive=True)
    kept(snapshot(p.top), 'after the next bootstrap')
