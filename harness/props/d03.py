import os
import hashlib
from hypothesis import strategies as st
import gen
import mem
from framework import Violation, check, equal, short, outcome

from augpathlib import PathMeta, exceptions as exc

ID = 'D03'
COUNTS = {'quick': 4000, 'thorough': 50000}
RULE = ('histories of up to 14 steps over a mirrored tree of 3 folders and 4 files: the '
        'remote changes (content, times, names, places, new folders, removals), files are '
        'fetched, edited or moved locally, processes end and start, and one path or all '
        'paths are refreshed (all at the end), with transfers that may fail, and a '
        'trash whose names may be too long, and checksums by one of four '
        'algorithms that the remote may stop to give.  Non-trivial: a fetched file '
        'or a path whose name or place differs is refreshed.')
ASSUMPTIONS = ['the remote is an in memory subclass of RemotePath whose refresh is '
               'update_cache and then fetch if data was asked for and there is none',
               'if a link to something else is where a path has to go only the contents of '
               'files are required to be kept',
               'folders are refreshed before what is in them on the remote']

FOLDERS = ['N:a', 'N:b', 'N:c']
FILES = ['N:1', 'N:2', 'N:3', 'N:4']
TREE = [('N:a', 'a', mem.ROOT), ('N:b', 'b', mem.ROOT), ('N:c', 'c', 'N:a'),
        ('N:1', '1.t', mem.ROOT), ('N:2', '2.t', 'N:a'), ('N:3', '3.t', 'N:c'),
        ('N:4', '4.t', 'N:a')]
NAMES = ['n', 'a', '1.t', '2.t', 'x y.z', '\u00e9', 'm.t', 'o', 'N', '1.T']


def strategy(tier):
    file = st.sampled_from(FILES + FILES[:2] * 2)
    any_ = st.sampled_from(FILES + FILES[:2] + FOLDERS)
    place = st.sampled_from([mem.ROOT] + FOLDERS + ['new'])
    bump = st.booleans()
    op = st.one_of(
        st.tuples(st.just('content'), file, st.one_of(
            st.integers(0, 5000), st.sampled_from([0, 4080] * 5 + [2200000]))),
        st.tuples(st.just('touch'), any_),
        st.tuples(st.just('sums'), file, st.sampled_from([False, False, True])),
        st.tuples(st.just('rename'), any_, st.sampled_from(NAMES), bump),
        st.tuples(st.just('move'), any_, place, bump),
        st.tuples(st.just('remove'), st.sampled_from(FILES + FOLDERS[2:])),
        st.tuples(st.just('fetch'), file),
        st.tuples(st.just('fetch'), file),
        st.tuples(st.just('edit'), file, st.sampled_from(['other', 'other', 'remote'])),
        st.tuples(st.just('lmove'), file, place, st.sampled_from(NAMES)),
        st.tuples(st.just('own'), place, st.sampled_from(NAMES), st.booleans()),
        st.tuples(st.just('restart')),
        st.tuples(st.just('refresh'), any_, st.booleans(),
                  st.sampled_from([False] * 4 + [True])),
        st.tuples(st.just('refresh'), file, st.booleans(), st.just(False)),
        st.tuples(st.just('all'), st.booleans()),
    )
    return st.fixed_dictionaries({
        'trash': st.sampled_from(['default', 'default', 'long']),
        'cypher': st.sampled_from([None, None, 'sha256', 'blake2b', 'md5']),
        'fetched': st.sets(st.sampled_from(FILES), max_size=4).map(sorted),
        'ops': st.lists(op, min_size=4, max_size=14 if tier == 'quick' else 30)})


def digest(cypher, data):
    return hashlib.new(cypher or 'sha256', data).digest()


class Lost(OSError):
    """ the connection """


def snapshot(top):
    """ {path: what is there} """
    out = {}
    for base, dirs, files in os.walk(top):
        for n in dirs + files:
            full = os.path.join(base, n)
            rel = os.path.relpath(full, top)
            if os.path.islink(full):
                out[rel] = ('link', os.readlink(full))
            else:
                x = tuple(sorted((k, os.getxattr(full, k)) for k in os.listxattr(full)))
                if os.path.isdir(full):
                    out[rel] = ('dir', x)
                else:
                    with open(full, 'rb') as f:
                        out[rel] = ('file', x, f.read())
    return out


class World:
    def __init__(self, ctx, trash, cypher):
        self.ctx = ctx
        self.cypher = cypher  # what the remote uses, None for what everything uses
        attrs = {}
        if trash == 'long':  # names in the trash that turn out to be too long
            attrs['_trashed_path'] = property(lambda self: self.trash / ('x' * 260 + self.id))
        self.p = mem.Project(ctx.scratch(), cache_attrs=attrs)
        self.attrs = attrs
        self.s = self.p.store
        self.n = 0
        self.nosum = set()  # the remote gives no checksum for these
        self.weak = False  # one thing is in two places
        for id, name, parent in TREE:
            self.s.add(id, name, parent, self.bytes() if id in FILES else None)
            self.sum(id)
        root = self.p.anchor()
        root.bootstrap(root.remote.meta, recursive=True)
        self.Local = self.p.Local
        # where what is known to be tracked is, and what the bytes of the file are
        self.at = {id: '/'.join(self.s.path(id)) for id, _, _ in TREE}
        self.seen = {id: self.want(id) for id, _, _ in TREE}  # at the last refresh
        self.trash = os.path.join(self.p.top, mem.DATA_DIR, 'trash')

    def sum(self, id):
        n = self.s.nodes[id]
        n.extra = {}
        if id in self.nosum:
            n.extra.update(checksum=None)
        elif n.data is not None and self.cypher:
            n.extra.update(checksum=digest(self.cypher, n.data), checksum_cypher=self.cypher)

    def bytes(self, size=None):
        self.n += 1
        data = f'version {self.n} '.encode()
        return data if size is None else data + gen.blob(size, self.n)

    def tree(self):
        return {k: v for k, v in snapshot(self.p.top).items()
                if k.split('/')[0] != mem.DATA_DIR}

    def full(self, id):
        return os.path.join(self.p.top, self.at[id])

    def local(self, id):
        return self.Local(self.full(id))

    def present(self, id):
        return id in self.at and os.path.isfile(self.full(id))

    def read(self, id):
        with open(self.full(id), 'rb') as f:
            return f.read()

    def under(self, path):
        return [i for i, at in self.at.items() if (at + '/').startswith(path + '/')]

    def resync(self):
        """ what is where after something that has no single right outcome """
        self.at, doubles = {}, set()
        L, C, R = mem.make(self.s, self.attrs)
        for rel, entry in sorted(self.tree().items()):
            full = os.path.join(self.p.top, rel)
            try:
                cache = L(full).cache
            except Exception:
                cache = None
            if cache is None:
                continue
            if cache.id in self.at:
                doubles.add(cache.id)
            self.at[cache.id] = rel
            m = cache.meta
            self.seen[cache.id] = {k: getattr(m, k) for k in
                                   ('id', 'name', 'parent_id', 'created', 'updated', 'size',
                                    'checksum', 'file_id')}
        self.weak = self.weak or bool(doubles)
        for id in doubles:
            del self.at[id]

    def in_sync(self, id):
        """ every folder above it on the remote that is here is in its place """
        n = self.s.nodes[id].parent
        while n != mem.ROOT:
            if n in self.at and self.at[n] != '/'.join(self.s.path(n)):
                return False
            n = self.s.nodes[n].parent
        return True

    # remote

    def alive(self, id):
        return id in self.s.nodes

    def do_content(self, id, size):
        if self.alive(id):
            n = self.s.nodes[id]
            n.data = self.bytes(size)
            self.sum(id)
            n.rev += 1

    def do_sums(self, id, given):
        if self.alive(id):
            (self.nosum.discard if given else self.nosum.add)(id)
            self.sum(id)

    def do_touch(self, id):
        if self.alive(id):
            self.s.nodes[id].rev += 1

    def do_rename(self, id, name, bump):
        if self.alive(id) and not self.s.taken(self.s.nodes[id].parent, name):
            self.s.nodes[id].name = name
            self.s.nodes[id].rev += bump

    def do_move(self, id, place, bump):
        if not self.alive(id):
            return
        if place == 'new':
            self.n += 1
            place = f'N:f{self.n}'
            self.s.add(place, f'fold{self.n}', FOLDERS[1] if self.n % 2 and
                       self.alive(FOLDERS[1]) and not self.s.inside(FOLDERS[1], id)
                       else mem.ROOT)
        if not self.alive(place) or self.s.inside(place, id):
            return
        n = self.s.nodes[id]
        if not self.s.taken(place, n.name):
            n.parent = place
            n.rev += bump

    def do_remove(self, id):
        if self.alive(id):
            self.s.remove(id)

    # local

    def do_fetch(self, id):
        """ of what is on the remote now, only when that is what is known here """
        if (self.alive(id) and id in self.at and not self.present(id) and
            self.seen[id] == self.want(id)):
            self.local(id).cache.fetch(size_limit_mb=None)
            equal(self.read(id), self.s.nodes[id].data, 'fetched content')

    def do_edit(self, id, what):
        if self.present(id):
            if what == 'remote' and self.alive(id):
                data = self.s.nodes[id].data
            else:
                data = self.bytes()
            with open(self.full(id), 'wb') as f:
                f.write(data)

    def do_lmove(self, id, place, name):
        """ the user moves a file that was fetched """
        if not self.present(id) or place != mem.ROOT and place != 'new' and (
                place not in self.at or not os.path.isdir(self.full(place))):
            return
        if place == 'new':
            folder = os.path.join(self.p.top, 'untracked')
            os.makedirs(folder, exist_ok=True)
        else:
            folder = self.p.top if place == mem.ROOT else self.full(place)
        target = os.path.join(folder, name)
        if not os.path.lexists(target):
            os.rename(self.full(id), target)
            self.at[id] = os.path.relpath(target, self.p.top)

    def do_own(self, place, name, folder):
        """ something of the user that has nothing to do with the remote """
        if place == mem.ROOT or place in self.at and os.path.isdir(self.full(place)):
            base = self.p.top if place == mem.ROOT else self.full(place)
            full = os.path.join(base, name)
            if not os.path.lexists(full):
                if folder:
                    os.mkdir(full)
                    full = os.path.join(full, 'f')
                with open(full, 'wb') as f:
                    f.write(self.bytes())

    def do_restart(self):
        self.Local, C, R = mem.make(self.s, self.attrs)
        self.Local(self.p.top).cache.anchorClassHere()

    def want(self, id):
        m = PathMeta(**self.s.meta(id))
        return {k: getattr(m, k) for k in ('id', 'name', 'parent_id', 'created', 'updated',
                                           'size', 'checksum', 'file_id')}

    def do_all(self, data):
        done = set()
        def walk(id):
            for n in self.s.children(id):
                if n.id not in done:
                    done.add(n.id)
                    self.do_refresh(n.id, data, False)
                walk(n.id)
        walk(mem.ROOT)
        for id in sorted(self.at):
            if not self.alive(id):
                self.do_refresh(id, data, False)

    def do_refresh(self, id, data, fail):
        if id not in self.at:
            return
        ctx, s = self.ctx, self.s
        before = self.tree()
        trash = snapshot(self.trash)
        old = self.at[id]
        entry = before[old]
        kind = entry[0]
        what = f'refresh {id} at {old!r}'
        had = self.present(id)
        local = self.read(id) if had else None
        if had:
            ctx.nontrivial()

        calls = len(s.calls)
        # data is only asked for where there is none and it is below the limit
        wants = data and self.alive(id) and len(s.nodes[id].data or b'') < 2 ** 21
        if fail:
            def fault(id, chunks):
                for c in chunks:
                    yield c[:-1]
                    break
                raise Lost('gone')
            s.fault = fault
        cache = self.local(id).cache
        check(cache is not None, '{}: no cache', what)
        equal(cache.id, id, f'{what}: id')
        tag, e = outcome(cache.refresh, update_data=data)
        s.fault = None
        after = self.tree()

        def kept():
            """ no content of a file is gone """
            have = {v[2] for v in snapshot(self.p.top).values() if v[0] == 'file'}
            for k, v in before.items():
                if v[0] == 'file' and v[2] not in have:
                    raise Violation(f'{what}: the content of {k!r} {short(v[2])} is gone '
                                    f'(outcome {short(e)})')
        kept()

        if not self.alive(id):
            ctx.note('removed ' + kind)
            check(tag == 'ok', '{}: failed {!r}', what, e)
            gone = {k for k in before if (k + '/').startswith(old + '/')}
            equal(after, {k: v for k, v in before.items() if k not in gone},
                  f'{what}: the rest of the tree')
            top = self.in_trash(what, id, old, trash)
            if kind == 'link':
                equal(os.readlink(top), entry[1], f'{what}: link in the trash')
            elif kind == 'file':
                self.trashed(what, id, old, entry, trash)
            else:
                equal(snapshot(top), {k[len(old) + 1:]: before[k] for k in gone if k != old},
                      f'{what}: what is in the trash')
            for i in self.under(old):
                del self.at[i]
            return

        new = '/'.join(s.path(id))
        want = self.want(id)
        seen = self.seen[id]
        if old != new:
            ctx.nontrivial()
        different = any(want[k] != seen[k] and seen[k] is not None and want[k] is not None
                        for k in ('created', 'updated', 'size', 'checksum', 'file_id'))
        above = new.split('/')[:-1]
        blocked = old != new and (
            new in before or
            any(before.get('/'.join(above[:i + 1]), ('dir',))[0] != 'dir'
                for i in range(len(above))))
        if self.weak or not self.in_sync(id) or blocked:
            ctx.note('blocked' if blocked else 'parents not refreshed')
            if not self.weak and self.in_sync(id) and before.get(new, ('link',))[0] != 'link':
                # a file or folder is there, it stays and so does this
                ctx.note('occupied')
                check(tag == 'err', '{}: went to {!r} where something else is', what, new)
                equal(sorted(after), sorted(before), f'{what}: paths, {new!r} was occupied')
                for k, v in before.items():
                    if k != old:
                        equal(after[k], v, f'{what}: at {k!r}, {new!r} was occupied')
            self.resync()
            return

        missing = []
        p = s.nodes[id].parent
        while p != mem.ROOT and '/'.join(s.path(p)) not in before:
            missing.append(p)
            p = s.nodes[p].parent

        changed = had and seen['checksum'] is not None and \
            digest(self.cypher, local) != seen['checksum'] and digest(self.cypher, local) != want['checksum']
        if different and had and seen['checksum'] is None and \
                tag == 'err' and isinstance(e, exc.LocalChangesError):
            ctx.note('no checksum to tell local changes by')
            equal(after, before, f'{what}: tree after a refusal')
            return
        if not different:  # nothing says that what is known is not true anymore
            want = {k: seen[k] if v is None else v for k, v in want.items()}
        if different and changed:
            ctx.note('local changes')
            check(tag == 'err' and isinstance(e, exc.LocalChangesError),
                  '{}: a changed file was refreshed to a changed remote {!r}', what, e)
            equal(after, before, f'{what}: tree after local changes were found')
            return
        if fail and had and different or fail and wants and kind == 'link':
            ctx.note('transfer failed')
            check(tag == 'err' and isinstance(e, Lost), '{}: outcome {!r}', what, e)
            if had:
                equal(after, before, f'{what}: tree after a failed transfer')
            else:
                check(new in after and after[new][0] == 'link',
                      '{}: no link after a failed transfer', what)
                self.at[id] = new
                self.seen[id] = want
            return

        check(tag == 'ok', '{}: failed {!r}', what, e)
        ctx.note(kind + (' different' if different else '') + (' moved' if old != new else ''))
        expected = {}
        for k, v in before.items():
            if (k + '/').startswith(old + '/'):
                k = new + k[len(old):]
            expected[k] = v
        for p in missing:
            expected['/'.join(s.path(p))] = after.get('/'.join(s.path(p)))
        equal(sorted(after), sorted(expected), f'{what} to {new!r}: paths')
        for k, v in expected.items():
            if k != new:
                equal(after[k], v, f'{what}: at {k!r}')
        now = after[new]
        if kind == 'dir':
            equal(now[0], 'dir', f'{what}: kind')
            equal(len(s.calls), calls, f'{what}: transfers')
        elif had:
            equal(now[0], 'file', f'{what}: kind')
            if different:
                equal(now[2], s.nodes[id].data, f'{what}: content of the new version')
                self.trashed(what, id, old, entry, trash)
            else:
                equal(now[2], local, f'{what}: content that did not change')
        elif wants:
            equal(now[0], 'file', f'{what}: was not fetched')
            equal(now[2], s.nodes[id].data, f'{what}: content')
        else:
            equal(now[0], 'link', f'{what}: kind')
            equal(len(s.calls), calls, f'{what}: transfers')
        for i in self.under(old):
            self.at[i] = new + self.at[i][len(old):]
        self.seen[id] = want
        L, C, R = mem.make(s, self.attrs)
        cache = L(self.p.top, new).cache
        check(cache is not None, '{}: no metadata at {!r}', what, new)
        meta = cache.meta
        for k, v in want.items():
            equal(getattr(meta, k), v, f'{what}: field {k} at {new!r}')
        equal(meta.errors, (), f'{what}: errors')
        for p in missing:
            rel = '/'.join(s.path(p))
            check(after[rel][0] == 'dir', '{}: {!r} is not a folder', what, rel)
            c = L(self.p.top, rel).cache
            check(c is not None, '{}: no metadata at {!r}', what, rel)
            equal({k: getattr(c.meta, k) for k in want}, self.want(p),
                  f'{what}: metadata of {rel!r}')
            self.at[p] = rel
            self.seen[p] = self.want(p)
        equal(self.Local(self.p.top, new).remote.id, id, f'{what}: remote')

    def in_trash(self, what, id, old, trash):
        """ where it is in the trash """
        name = id.replace(':', '-')
        if self.attrs:
            new = [n for n in os.listdir(self.trash) if n not in trash]
            equal(len(new), 1, f'{what}: new in the trash {new}')
            name, = new
            now = snapshot(self.trash)
            for k, v in trash.items():
                equal(now.get(k), v, f'{what}: {k!r} that was already in the trash')
        top = os.path.join(self.trash, name)
        check(os.path.lexists(top), '{}: not in the trash', what)
        return top

    def trashed(self, what, id, old, entry, trash):
        top = self.in_trash(what, id, old, trash)
        got = snapshot(self.trash)[os.path.basename(top)]
        equal(got, entry, f'{what}: the version before in the trash')


def run(case, ctx):
    w = World(ctx, case['trash'], case['cypher'])
    for id in case['fetched']:
        w.do_fetch(id)
    for op in case['ops']:
        getattr(w, 'do_' + op[0])(*op[1:])
    w.do_all(False)
