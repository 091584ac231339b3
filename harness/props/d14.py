import os
from hypothesis import strategies as st
import gen
import mem
from faults import snapshot
from framework import Violation, check, equal, outcome
from sched import Schedule

from augpathlib import core

ID = 'D14'
COUNTS = {'quick': 3000, 'thorough': 40000}
RULE = ('2 to 4 threads with 1 to 3 operations each (fetch, refresh of a thing that was renamed, '
        'moved, changed or not on the remote, cache_init, crumple, copy, swap, write, set '
        'attributes, look at metadata) on different files or links of one project; one thread '
        'runs at a time and a drawn schedule says at which calls to the file system which '
        'thread goes on; the same is done one after the other in a second project.  '
        'Non-trivial: at least 3 switches.')
ASSUMPTIONS = ['threads are switched only at calls that reach the file system',
               'no two threads work on the same path, and no folder is missing',
               'the remote is an in memory subclass of RemotePath']

OPS = ['fetch', 'fetch', 'refresh', 'rename', 'move', 'content', 'init', 'crumple', 'copy', 'look', 'write',
       'swap', 'attrs']


def strategy(tier):
    return st.fixed_dictionaries({
        'ops': st.lists(st.lists(st.tuples(st.sampled_from(OPS), st.sampled_from(['link', 'file']),
                                           st.integers(0, 2)),
                                 min_size=1, max_size=3), min_size=2, max_size=4),
        'turns': st.lists(st.integers(0, 3), min_size=20, max_size=150),
        'sizes': st.lists(st.sampled_from([0, 3, 5000, 20000]), min_size=1, max_size=4),
    })


def world(base, case):
    """ a project and for each thread its functions """
    p = mem.Project(base)
    s = p.store
    for n in 'abc':
        s.add(f'N:{n}', n, s.root)
    todo = []
    for t, ops in enumerate(case['ops']):
        for k, (op, kind, at) in enumerate(ops):
            id, name = f'N:{t}.{k}', f'{op}-{t}-{k}'
            size = case['sizes'][(t + k) % len(case['sizes'])]
            s.add(id, name, f'N:{"abc"[at]}', gen.blob(size, t * 10 + k), 5)
            todo.append((t, op, kind, id))
    root = p.anchor()
    root.bootstrap(root.remote.meta, recursive=True)
    for t, op, kind, id in todo:
        if kind == 'file' and op != 'fetch':
            p.local(*s.path(id)).cache.fetch()
    threads = [[] for _ in case['ops']]
    for t, op, kind, id in todo:
        node = s.nodes[id]
        local = p.local(*s.path(id))
        if op == 'rename':
            node.name += '-new'
        elif op == 'move':
            node.parent = 'N:b' if node.parent == 'N:a' else 'N:a'
        elif op == 'content':
            node.data = b'changed' + node.data
            node.rev += 1
        elif op == 'init':
            s.add(id + 'i', node.name + '-i', node.parent, b'init')
        elif op == 'swap':
            with open(local.parent / (local.name + '-other'), 'wb') as f:
                f.write(b'other' + id.encode())

        def do(op=op, local=local, id=id):
            if op == 'fetch':
                local.cache.fetch()
            elif op in ('refresh', 'rename', 'move', 'content'):
                local.cache.refresh()
            elif op == 'init':
                p.Remote(id + 'i').cache_init(parents=True)
            elif op == 'crumple':
                local.cache.crumple()
            elif op == 'copy':
                if local.exists():
                    local.copy_to(local.parent / (local.name + '-copy'))
            elif op == 'look':
                return (local.cache.id, local.cache.meta.size, local.cache.remote.id,
                        local.exists(), local.is_broken_symlink())
            elif op == 'write':
                if local.exists():
                    local.data = iter([b'written', b' here'])
            elif op == 'swap':
                local.swap_carefree(local.parent / (local.name + '-other'))
            elif op == 'attrs':
                if local.exists():
                    local.setxattrs({'mine.a': b'1', 'mine.b': id.encode()})
                    local.delxattr('mine.a')
                    return local.getxattr('mine.b')

        threads[t].append(do)
    return p, threads


def all_of(functions):
    return [outcome(f) for f in functions]


def run(case, ctx):
    d = ctx.scratch()
    got = []
    for top in 'AB':
        base = os.path.join(d, top)
        os.mkdir(base)
        p, threads = world(base, case)
        if top == 'A':
            results = [all_of(fs) for fs in threads]
            want = snapshot(p.top), results
        else:
            sched = Schedule(case['turns'], core.xattr)
            results = sched.run([lambda fs=fs: all_of(fs) for fs in threads])
            for t, (tag, r) in enumerate(results):
                check(tag == 'ok', 'thread {}: {!r}', t, r)
                for (op, kind, at), (w, wr), (g, gr) in zip(case['ops'][t], want[1][t], r):
                    check(w == g, '{} of {}: {!r} but alone {!r}', op, kind, gr, wr)
                    if w == 'ok' and op in ('look', 'attrs'):
                        equal(gr, wr, 'look')
            equal(snapshot(p.top), want[0], 'tree')
    ctx.note('switches', min(sched.switches, 20) // 5 * 5)
    if sched.switches >= 3:
        ctx.nontrivial()
