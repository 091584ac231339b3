import os
import mimetypes
from hypothesis import strategies as st
import gen
from framework import equal

from augpathlib import AugmentedPath, LocalPath, EatPath

ID = 'C10'
COUNTS = {'quick': 16000, 'thorough': 120000}
RULE = ('random names with zero to five suffixes (known types, known encodings, '
        'suffixes with + - or upper case letters, common ones without an official type, suffixes that only the class '
        'defines, unknown ones, leading dots, spaces, %, ?, #, : and other '
        'characters that mean something in an address), as a file, folder, link to '
        'a file or folder of another type, metadata link, looping link or nothing, '
        'spelled absolute, relative, with .. or from inside.  Non-trivial: the name '
        'has a type or an encoding and the path is relative or a link.')

mimetypes.init()
KNOWN = sorted(mimetypes.types_map)
# suffixes that many use but that have no official type
COMMON = sorted(set(mimetypes.common_types) - set(mimetypes.types_map)) or ['.pict']
ODD = [s for s in KNOWN if not s[1:].isalnum()] or ['.c++']
ENC = sorted(mimetypes.encodings_map) + sorted(mimetypes.suffix_map)
OWN = {('.own',): 'application/x-own', ('.two', '.own'): 'application/x-two',
       ('.nii', '.gz'): 'image/gznii', ('.txt',): 'never/used', ('.Big',): 'application/x-big', (): 'no/suffix'}


class Aug(AugmentedPath):
    _suffix_mimetypes = OWN


Aug._bind_flavours()


class Loc(LocalPath):
    _suffix_mimetypes = OWN


Loc._bind_flavours()

CLASSES = [AugmentedPath, LocalPath, EatPath, Aug, Loc]


def strategy(tier):
    suffix = st.one_of(
        st.sampled_from(['.txt', '.png', '.json', '.html', '.py', '.tar', '.csv',
                         '.own', '.two', '.nii', '.TXT', '.Gz', '.OWN', '.Big', '.big',
                         '.unknown', '.']),
        st.sampled_from(COMMON),
        st.sampled_from(KNOWN), st.sampled_from(ODD), st.sampled_from(ENC))
    stem = st.one_of(st.sampled_from(['name', 'a', 'a.b', '.hidden', '..x', 'data:,x',
                                      'http:', 'q?x', 'h#x', '50%2e', 'sp ace']),
                     gen.fname())
    return st.fixed_dictionaries({
        'stem': st.one_of(stem, st.just('')),
        'suffixes': st.one_of(
            st.lists(suffix, max_size=3), st.lists(suffix, max_size=3),
            st.builds(lambda before, own, after: before + list(own) + after,
                      st.lists(suffix, max_size=2), st.sampled_from(sorted(OWN)),
                      st.lists(suffix, max_size=1))),
        'other': suffix,
        'kind': st.sampled_from(['file', 'file', 'dir', 'link', 'dirlink', 'meta',
                                 'loop', 'broken', 'none']),
        'spell': st.sampled_from(['abs', 'rel', 'rel', 'dots', 'absdots', 'deep']),
        'cls': st.integers(0, len(CLASSES) - 1),
        'enc_first': st.booleans(),
    })


def run(case, ctx):
    name = case['stem'] + ''.join(case['suffixes'])
    if name in ('', '.', '..') or len(os.fsencode(name)) > 200:
        return
    d = os.path.realpath(ctx.scratch())
    sub = os.path.join(d, 'folder.png')  # must not matter
    os.mkdir(sub)
    full = os.path.join(sub, name)
    kind = case['kind']
    other = os.path.join(d, 'other' + case['other'])
    if kind == 'file':
        open(full, 'w').close()
    elif kind == 'dir':
        os.mkdir(full)
    elif kind == 'link':
        open(other, 'w').close()
        os.symlink(other, full)
    elif kind == 'dirlink':
        os.mkdir(other)
        os.symlink(other, full)
    elif kind == 'meta':
        os.symlink(name + '/.meta.0|1|2', full)
    elif kind == 'loop':
        os.symlink(name, full)
    elif kind == 'broken':
        os.symlink('../nothing' + case['other'], full)

    spell = case['spell']
    base = sub
    if spell == 'abs':
        text = full
    elif spell == 'absdots':
        text = os.path.join(sub, '..', 'folder.png', name)
    elif spell == 'rel':
        text = name
    elif spell == 'dots':
        text = os.path.join('..', 'folder.png', name)
    else:
        base, text = d, os.path.join('folder.png', name)

    cls = CLASSES[case['cls']]
    os.chdir(base)
    path = cls(text)
    if case['enc_first']:
        encoding = path.encoding
        mime = path.mimetype
    else:
        mime = path.mimetype
        encoding = path.encoding

    # a leading slash so that no name is taken for an address
    want, want_encoding = mimetypes.guess_type('/' + name)
    if kind in ('dir', 'dirlink'):
        want = 'inode/directory'
    elif not want and cls in (Aug, Loc):
        want = OWN.get(tuple(suffixes_of(name)))
        if want:
            ctx.note('class')
    equal(mime, want, f'mimetype of {kind} {text!r} as {cls.__name__}')
    equal(encoding, want_encoding, f'encoding of {kind} {text!r} as {cls.__name__}')
    ctx.note(kind, spell)
    if (want or want_encoding) and (
            spell != 'abs' or kind in ('link', 'dirlink', 'meta', 'loop')):
        ctx.nontrivial()


def suffixes_of(name):
    if name.endswith('.'):
        return []
    return ['.' + s for s in name.lstrip('.').split('.')[1:]]
