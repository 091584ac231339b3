import os
import mem
from faults import Faults, ids, operate, snapshot, strategy, world
from framework import Violation, check, equal, outcome

ID = 'D12'
COUNTS = {'quick': 10000, 'thorough': 100000}
RULE = ('small projects where one thing (fetched or edited file, link, folder, empty folder) '
        'was renamed, moved, changed, touched or removed on the remote; one of refresh (with '
        'and without data), fetch, move, bootstrap, cache_init, crumple, swap_carefree and '
        'copy_to is done while call number n that changes the file system (rename, symlink, '
        'mkdir, unlink, rmdir, utime, setxattr, open for writing, write) fails with ENOSPC, '
        'EACCES, EIO or EROFS; the same is done without a fault on a second project.  '
        'Non-trivial: it works without the fault.')
ASSUMPTIONS = ['fetch onto a file that has content writes in place, its faults are left out',
               'one call fails: removing what was temporary can not be made up for when that '
               'is what fails, nor can a link be put back when making it fails']


def run(case, ctx):
    d = ctx.scratch()
    op, change = case['op'], case['change']
    if change == 'removed' and op in ('move', 'init'):
        return
    os.mkdir(os.path.join(d, 'A'))
    control, old = world(os.path.join(d, 'A'), case)
    with Faults() as f:
        tag0, got0 = outcome(operate, control, case, old)
    calls = f.calls
    if not calls:
        return
    at = case['at'] % len(calls)
    if op == 'fetch' and case['kind'] != 'link' and calls[at][0] in ('write', 'open'):
        return
    if op == 'fetch' and change == 'removed' and calls[at][0] == 'symlink':
        return  # a second failure, of putting things back after the first
    want = snapshot(control.top)
    os.mkdir(os.path.join(d, 'B'))
    p, old = world(os.path.join(d, 'B'), case)
    before = snapshot(p.top)
    at = case['at'] % len(calls)
    with Faults(at, case['errno']) as f:
        tag, got = outcome(operate, p, case, old)
    after = snapshot(p.top)
    call = ' '.join(os.path.relpath(x, control.top) if x.startswith('/') else x for x in calls[at])
    what = f'{op} of {case['kind']} after {change}, {call} failed'
    ctx.note(op, calls[at][0])
    if tag0 == 'ok':
        ctx.nontrivial()

    if tag == 'ok':
        ctx.note('went on')
        equal(tag0, 'ok', f'{what} and it did not say so')
        equal(after, want, f'{what} and it did not say so: tree')
        return
    # nothing is lost
    have = {v[2] for v in after.values() if v[0] == 'file'}
    for k, v in before.items():
        if v[0] == 'file' and v[2] not in have:
            raise Violation(f'{what}: content of {k} is gone')
    extra = set(after) - set(before) - set(want)
    if calls[at][0] in ('unlink', 'rmdir'):
        # removing the leftover is what failed
        extra -= {os.path.relpath(f.calls[at][1], p.top)}
    check(not extra, '{}: leaves {}', what, extra)
    gone = set(before) - set(after) - (set(before) - set(want))
    check(not gone, '{}: {} is gone', what, gone)

    def visible(tree):
        return {k: v for k, v in tree.items() if not k.startswith(mem.DATA_DIR)}

    lost = ids(before) & ids(visible(want)) - ids(visible(after))
    check(not lost, '{}: {} is not tracked anymore', what, lost)
