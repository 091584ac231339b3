import os
import shutil
from hypothesis import strategies as st
import gen
import mem
from framework import Violation, check, equal, short, outcome

from augpathlib import PathMeta, exceptions as exc

ID = 'D06'
COUNTS = {'quick': 12000, 'thorough': 60000}
RULE = ('histories of up to 14 steps over three sets of classes (with the same or separate '
        'base classes), three places and three projects of which two have the same name: '
        'binding the api, anchoring in each of the ways there are, weighing anchor, starting '
        'over, folders of the user being there already, and mirroring.  After every step '
        'every set has to resolve what it did.  Non-trivial: two sets are anchored at once, '
        'or a set is anchored again.')
ASSUMPTIONS = ['sets are bound from remote classes that are not bound themselves']

IDS = ['N:root', 'N:two', 'N:three']
NAMES = {'N:root': 'proj', 'N:two': 'proj', 'N:three': 'other'}


def strategy(tier):
    k = st.integers(0, 2)
    base = st.sampled_from(['x', 'x', 'y', 'z'])
    op = st.one_of(
        st.tuples(st.just('bind'), k, st.sampled_from(IDS + IDS[:1])),
        st.tuples(st.just('drop'), k, base),
        st.tuples(st.just('drop'), k, base),
        st.tuples(st.just('smart'), k, base),
        st.tuples(st.just('to'), k, base, st.sampled_from(['proj', 'proj', 'other']),
                  st.booleans(), st.booleans()),
        st.tuples(st.just('again'), k, base, st.sampled_from(['proj', 'u1', 'u2'])),
        st.tuples(st.just('weigh'), k, st.booleans()),
        st.tuples(st.just('fresh'), k, st.booleans()),
        st.tuples(st.just('folder'), base, st.sampled_from(['proj', 'proj', 'other']),
                  st.sampled_from(['empty', 'empty', 'file', 'link', 'hidden', 'folder'])),
        st.tuples(st.just('hollow'), base, st.sampled_from(['proj', 'other'])),
        st.tuples(st.just('mirror'), k),
    )
    first = st.tuples(*(st.sampled_from(IDS + IDS[:1] + [None]) for _ in range(3)))
    return st.fixed_dictionaries({'bound': first, 'shared': st.booleans(),
                                  'ops': st.lists(op, min_size=5, max_size=14 if tier == 'quick' else 30)})


class Set:
    """ one set of classes and what it is expected to know """

    def __init__(self, store, base=None):
        if base is None:
            self.L, self.C, self.R = mem.make(store)
        else:  # classes of its own below the ones that others use too
            L, C, R = base
            self.L, self.C = type('L', (L,), {}), type('C', (C,), {})
            for c in (self.L, self.C):
                c._bind_flavours()
            self.R = R.__mro__[1]._new(self.L, self.C)
        self.id = None      # of the api
        self.remote = None  # folder the remote is anchored to
        self.cache = None   # and the cache


class World:
    def __init__(self, ctx, case):
        self.ctx = ctx
        self.top = ctx.scratch()
        self.s = mem.Store()
        for id in IDS:
            self.s.add(id, NAMES[id], None)
            for n in ('a', 'b'):
                self.s.add(f'{id}:{n}', n, id)
                self.s.add(f'{id}:{n}:f', 'f', f'{id}:{n}', f'{id} {n}'.encode())
        for b in 'xyz':
            os.mkdir(os.path.join(self.top, b))
        self.base = mem.make(self.s) if case['shared'] else None
        self.sets = [Set(self.s, self.base) for _ in range(3)]
        self.meta = {}  # id in the metadata of the folder
        self.mirrored = set()  # (folder, id)
        for k, id in enumerate(case['bound']):
            if id is not None:
                self.do_bind(k, id)

    def rel(self, path):
        return None if path is None else os.path.relpath(os.path.abspath(str(path)), self.top)

    def full(self, rel):
        return os.path.join(self.top, rel)

    def verify(self, what):
        for k, s in enumerate(self.sets):
            w = f'after {what}: set {k}'
            have = s.R.__dict__.get('_cache_anchor')
            equal(self.rel(have), s.remote, f'{w}: anchor of the remote')
            have = getattr(s.C, '_anchor', None)
            equal(self.rel(have), s.cache, f'{w}: anchor of the cache')
            for a, b, c in (('local', s.L, s.R._local_class), ('cache', s.C, s.R._cache_class),
                            ('cache of local', s.C, s.L._cache_class),
                            ('remote of local', s.R, s.L._remote_class),
                            ('remote of cache', s.R, s.C._remote_class),
                            ('local of cache', s.L, s.C._local_class)):
                check(b is c, '{}: the {} class is that of another', w, a)
            if s.remote is None or s.cache != s.remote:
                continue
            equal(s.R.root, s.id, f'{w}: root')
            local = s.L(self.full(s.cache))
            equal(local.cache.id, s.id, f'{w}: id of the anchor')
            check(type(local.cache)._remote_class is s.R, '{}: remote class', w)
            if (s.cache, s.id) in self.mirrored:
                for n in 'ab':
                    f = s.L(self.full(s.cache), n, 'f')
                    c = f.cache
                    check(c is not None, '{}: no cache of {}', w, f)
                    equal(c.id, f'{s.id}:{n}:f', f'{w}: id of a file')
                    equal(self.rel(c.anchor), s.cache, f'{w}: anchor of a file')
                    r = c.remote
                    check(type(r) is s.R, '{}: class of the remote of a file', w)
                    equal(r.id, c.id, f'{w}: remote of a file')
                    equal(self.rel(r.cache.local), self.rel(f), f'{w}: local of the remote')
                    equal(r.as_path().as_posix(), f'{n}/f', f'{w}: path of the remote')
                    equal(self.rel(c.local_data_dir), s.cache + '/' + mem.DATA_DIR,
                          f'{w}: data folder')
        anchored = {s.remote for s in self.sets if s.remote}
        if len([s for s in self.sets if s.remote]) > 1:
            self.ctx.nontrivial()
        for rel, id in self.meta.items():
            got = self.sets[0].L(self.full(rel)).cache
            equal(got and got.id, id, f'after {what}: id of {rel}')

    # steps

    def do_bind(self, k, id):
        s = self.sets[k]
        tag, e = outcome(s.R.init, id)
        if s.id is None:
            check(tag == 'ok', 'bind {} to {}: {!r}', k, id, e)
            s.id = id
        else:
            check(tag == 'err' and isinstance(e, ValueError), 'bind {} again: {!r}', k, e)

    def do_fresh(self, k, both):
        self.sets[k] = Set(self.s, self.base if both else None)

    def do_weigh(self, k, both):
        s = self.sets[k]
        s.R.weighAnchor()
        s.remote = None
        if both:
            s.C.weighAnchor()
            s.cache = None

    def do_folder(self, base, name, kind):
        rel = f'{base}/{name}'
        if not os.path.exists(self.full(rel)):
            os.mkdir(self.full(rel))
            if kind == 'link':
                os.symlink('nowhere', self.full(rel) + '/mine')
            elif kind == 'folder':
                os.mkdir(self.full(rel) + '/mine')
            elif kind != 'empty':
                with open(self.full(rel) + ('/.mine' if kind == 'hidden' else '/mine'), 'w') as f:
                    f.write('mine')

    def do_hollow(self, base, name):
        """ everything in the project is removed """
        rel = f'{base}/{name}'
        if rel in self.meta and not any(rel in (s.remote, s.cache) for s in self.sets):
            for n in os.listdir(self.full(rel)):
                if os.path.islink(self.full(f'{rel}/{n}')) or os.path.isfile(self.full(f'{rel}/{n}')):
                    os.unlink(self.full(f'{rel}/{n}'))
                else:
                    shutil.rmtree(self.full(rel) + '/' + n)
            self.mirrored = {m for m in self.mirrored if m[0] != rel}

    def do_mirror(self, k):
        s = self.sets[k]
        if s.remote is not None and s.remote == s.cache:
            root = s.L(self.full(s.remote)).cache
            root.bootstrap(root.remote.meta, recursive=True)
            self.mirrored.add((s.remote, s.id))

    def try_drop(self, k, rel):
        """ what dropAnchor has to do: an error class or None """
        s = self.sets[k]
        if s.remote is not None:
            return exc.RemoteAlreadyAnchoredError
        if os.path.exists(self.full(rel)):
            there = os.listdir(self.full(rel))
            if there == [mem.DATA_DIR] and s.cache == rel:
                there = []  # it knows that this one is its own
            if there:
                return exc.DirectoryNotEmptyError
            if rel in self.meta:
                return exc.CacheExistsError
        return None

    def anchored(self, k, rel, what, got):
        s = self.sets[k]
        self.meta[rel] = s.id
        s.remote = s.cache = rel
        equal(self.rel(got), rel, f'{what}: anchor that is returned')
        for n in ('objects', 'trash'):
            check(os.path.isdir(os.path.join(self.full(rel), mem.DATA_DIR, n)),
                  '{}: no folder for {}', what, n)

    def refused(self, what, tag, got, kind):
        self.ctx.note(f'{what.split()[0]} {kind.__name__}')
        check(tag == 'err' and isinstance(got, kind), '{}: {!r} expected {}', what,
              got, kind.__name__)

    def do_drop(self, k, base):
        s = self.sets[k]
        what = f'drop {k} in {base}'
        if s.id is None:
            if s.remote is None:
                tag, got = outcome(s.R.dropAnchor, s.L(self.full(base)))
                check(tag == 'err', '{} without an api', what)
            return
        rel = f'{base}/{NAMES[s.id]}'
        kind = self.try_drop(k, rel)
        if s.remote is not None:
            self.ctx.nontrivial()
        tag, got = outcome(s.R.dropAnchor, s.L(self.full(base)))
        if kind is not None:
            self.refused(what, tag, got, kind)
        else:
            check(tag == 'ok', '{}: failed {!r}', what, got)
            self.ctx.note('drop')
            self.anchored(k, rel, what, got)

    def do_smart(self, k, base):
        s = self.sets[k]
        what = f'smart {k} in {base}'
        if s.id is None:
            return
        rel = f'{base}/{NAMES[s.id]}'
        kind = self.try_drop(k, rel)
        if s.remote is not None:
            self.ctx.nontrivial()
        tag, got = outcome(s.R.smartAnchor, s.L(self.full(base)))
        if kind is exc.RemoteAlreadyAnchoredError and s.remote == rel:
            check(tag == 'ok', '{}: already there {!r}', what, got)
            equal(self.rel(got), rel, f'{what}: anchor that is returned')
            self.ctx.note('smart same')
        elif kind in (exc.CacheExistsError, exc.DirectoryNotEmptyError) and rel in self.meta:
            self.existing(k, rel, what, tag, got)
        elif kind is not None:
            self.refused(what, tag, got, kind)
        else:
            check(tag == 'ok', '{}: failed {!r}', what, got)
            self.ctx.note('smart new')
            self.anchored(k, rel, what, got)

    def existing(self, k, rel, what, tag, got):
        s = self.sets[k]
        if s.id is not None and self.meta[rel] != s.id:
            self.refused(what, tag, got, ValueError)
        else:
            check(tag == 'ok', '{}: failed {!r}', what, got)
            self.ctx.note(what.split()[0] + ' existing')
            s.id = self.meta[rel]
            self.anchored(k, rel, what, got)

    def do_to(self, k, base, name, create, as_cache):
        s = self.sets[k]
        rel = f'{base}/{name}'
        what = f'to {k} in {rel}'
        path = s.L(self.full(rel))
        if s.remote is not None:
            self.ctx.nontrivial()
        if rel in self.meta:
            if as_cache:
                path = path.cache
            tag, got = outcome(s.R.anchorTo, path, create=create)
            if s.remote is not None:
                self.refused(what, tag, got, ValueError)
            else:
                self.existing(k, rel, what, tag, got)
        elif s.id is not None:
            kind = self.try_drop(k, rel)
            tag, got = outcome(s.R.anchorTo, path, create=create)
            if name != NAMES[s.id] or not create:
                self.refused(what, tag, got, ValueError)
            else:
                if kind is not None:
                    self.refused(what, tag, got, kind)
                else:
                    check(tag == 'ok', '{}: failed {!r}', what, got)
                    self.anchored(k, rel, what, got)

    def do_again(self, k, base, name):
        """ the anchor of a folder that is something else """
        s = self.sets[k]
        if s.remote is None:
            return
        self.ctx.nontrivial()
        rel = f'{base}/{name}'
        what = f'again {k} at {rel}'
        if rel in self.meta:
            tag, got = outcome(lambda: s.L(self.full(rel)).cache.anchorClassHere())
        else:
            os.makedirs(self.full(rel), exist_ok=True)
            tag, got = outcome(s.L(self.full(rel)).cache_init, s.id, anchor=True)
            c = self.sets[0].L(self.full(rel)).cache
            if c is not None:  # metadata may be there already
                self.meta[rel] = s.id
        self.refused(what, tag, got, ValueError)


def run(case, ctx):
    w = World(ctx, case)
    w.verify('the start')
    for op in case['ops']:
        getattr(w, 'do_' + op[0])(*op[1:])
        w.verify(f'{op}')
