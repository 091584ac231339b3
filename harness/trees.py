"""Small file trees as literals, and what is on disk as a dictionary."""

import os
import stat
from hypothesis import strategies as st
import gen

NAMES = ['a', 'b', 'c', 'd', 'x.txt', '.h', 'sp ace', "q'\"", '-n', '\u00e9']


def names(n=len(NAMES)):
    return st.sampled_from(NAMES[:n])


# where a link can go: to another entry (absolute or relative), to itself,
# nowhere, below itself, up, or out to another tree
LINKS = 'abs', 'rel', 'self', 'broken', 'child', 'up', 'out', 'outdir', 'long'


def entry(kinds=('dir', 'dir', 'file', 'file', 'link'), nnames=len(NAMES)):
    """ (kind, which earlier folder, name, how, number) """
    return st.tuples(st.sampled_from(kinds), st.integers(0, 11), names(nnames),
                     st.sampled_from(LINKS), st.integers(0, 30))


def spec(min_size=1, max_size=12, **kw):
    return st.lists(entry(**kw), min_size=min_size, max_size=max_size)


def build(root, entries, outside=None):
    """ make the tree below root, returns the relative paths made, '' first """
    made = ['']
    dirs = ['']
    for kind, parent, name, how, k in entries:
        rel = os.path.join(dirs[parent % len(dirs)], name)
        if rel in made:
            continue
        full = os.path.join(root, rel)
        if kind == 'dir':
            os.mkdir(full)
            dirs.append(rel)
        elif kind == 'file':
            with open(full, 'wb') as f:
                f.write(gen.blob(k * 3, k))
        elif kind == 'fifo':
            os.mkfifo(full)
        else:
            to = os.path.join(root, made[k % len(made)])
            target = {
                'abs': to,
                'rel': os.path.relpath(to, os.path.dirname(full)),
                'self': name,
                'broken': 'no-such-thing',
                'child': f'{name}/below/here',
                'up': '..',
                'out': os.path.join(outside or '/nonexistent', 'file'),
                'outdir': outside or '/nonexistent',
                'long': name + '/.meta.' + 'y' * 300,
            }[how]
            os.symlink(target, full)
        made.append(rel)
    return made


def full_snapshot(root, inodes=True):
    """ {rel: (kind, content or target, mode, xattrs, inode)} root included """
    out = {}
    stack = ['']
    while stack:
        rel = stack.pop()
        full = os.path.join(root, rel) if rel else root
        s = os.lstat(full)
        ino = s.st_ino if inodes else None
        if stat.S_ISLNK(s.st_mode):
            out[rel] = 'link', os.readlink(full), None, None, ino
            continue
        xa = {k: os.getxattr(full, k) for k in os.listxattr(full)
              if k.startswith('user.')}
        if stat.S_ISDIR(s.st_mode):
            out[rel] = 'dir', None, stat.S_IMODE(s.st_mode), xa, ino
            stack.extend(os.path.join(rel, n) for n in os.listdir(full))
        elif stat.S_ISREG(s.st_mode):
            with open(full, 'rb') as f:
                data = f.read()
            out[rel] = 'file', data, stat.S_IMODE(s.st_mode), xa, ino
        else:
            out[rel] = 'other', None, stat.S_IMODE(s.st_mode), None, ino
    return out


def below(rel, top):
    return top == '' or rel == top or rel.startswith(top + '/')


def first_difference(got, want):
    for k in sorted(set(got) | set(want)):
        if got.get(k) != want.get(k):
            return f'{k!r} is {got.get(k)!r:.300} expected {want.get(k)!r:.300}'


def outside_tree(d):
    """ a tree that nothing may touch, returns its path """
    o = os.path.join(d, 'outside')
    os.makedirs(os.path.join(o, 'sub'))
    for n in ('file', 'sub/deep'):
        with open(os.path.join(o, n), 'wb') as f:
            f.write(b'precious ' + n.encode())
    return o
