import os
import hashlib
from hypothesis import strategies as st
import gen
import mem
from framework import Violation, check, equal, short, outcome

from augpathlib import PathMeta, exceptions as exc

ID = 'D04'
COUNTS = {'quick': 8000, 'thorough': 60000}
RULE = ('a remote file of up to 5 chunks whose metadata has a checksum (by one of five '
        'algorithms) and a size or lacks them, or whose id as a file is not known yet, and unrelated errors, fetched under a size limit as a link, and '
        'again as a file that may have been changed, in sequences of fetches, each whole, '
        'corrupted, cut short, too long, or failing before or after any chunk.  '
        'Non-trivial: a fetch has a fault, or follows a failed one.')
ASSUMPTIONS = ['a transfer that fails half way may leave a partial file if there was '
               'a file before',
               'the size limit is not exactly the size of the file']

CYPHERS = [None, 'sha256', 'blake2b', 'md5', 'sha1', 'sha512']


def strategy(tier):
    fault = st.one_of(
        st.just(('none', 0)), st.just(('none', 0)),
        st.tuples(st.sampled_from(['flip', 'cut', 'long', 'fail']), st.integers(0, 20500)),
        st.tuples(st.just('fail'), st.sampled_from([0, 0, 4096, 8192])))
    return st.fixed_dictionaries({
        'size': st.one_of(st.integers(0, 50), gen.near_multiples(4096, 5)),
        'cypher': st.sampled_from(CYPHERS),
        'checksum': st.sampled_from([True] * 3 + [False]),
        'errors': st.sampled_from([()] * 4 + [('other',), ('other', 'more')]),
        'has_size': st.sampled_from([True] * 4 + [False]),
        'limit': st.sampled_from([2, 2, None, 0.001, 0.0101]),
        'fetches': st.lists(st.tuples(fault, st.booleans()), min_size=1, max_size=4),
        'name': st.sampled_from(['f', 'a.txt', 'x y.z', '\u00e9']),
        'deep': st.booleans(),
        'file_id': st.sampled_from([True] * 3 + [False]),
        'etag': st.sampled_from([None] * 3 + [1, 7, 4096, 5000]),
    })


MISMATCH = {'checksum-mismatch', 'etag-mismatch'}


def etag_of(data, size):
    parts = [hashlib.md5(data[i:i + size]).digest() for i in range(0, len(data), size)]
    return hashlib.md5(b''.join(parts)).digest(), len(parts)


class Lost(OSError):
    """ the connection """


def faulty(kind, at, data):
    """ (chunks with the fault in them, the bytes that arrive, fails) """
    at = at % (len(data) + 1) if kind != 'fail' else at
    if kind == 'flip' and data:
        at = min(at, len(data) - 1)
        got = data[:at] + bytes([data[at] ^ 1]) + data[at + 1:]
    elif kind == 'cut':
        got = data[:at]
    elif kind == 'long':
        got = data + b'x' * (at % 5000 + 1)
    elif kind == 'fail':
        got = data[:at]
    else:
        got = data
    def chunks(id, _):
        for i in range(0, len(got), 4096):
            yield got[i:i + 4096]
        if kind == 'fail':
            raise Lost('gone')
    return chunks, got


def run(case, ctx):
    p = mem.Project(ctx.scratch())
    s = p.store
    data = gen.blob(case['size'], 3)
    parent = s.root
    if case['deep']:
        s.add('N:d', 'dir', s.root)
        parent = 'N:d'
    n = s.add('N:f', case['name'], parent, data)
    cypher = case['cypher']
    if case['checksum']:
        n.extra.update(checksum=hashlib.new(cypher or 'sha256', data).digest(),
                       checksum_cypher=cypher)
    else:
        n.extra.update(checksum=None)
    if case['etag'] and case['file_id']:
        n.extra.update(etag=etag_of(data, case['etag']), chunksize=case['etag'])
        checked = True
    else:
        checked = case['checksum']
    if case['errors']:  # that have nothing to do with the transfer
        n.extra['errors'] = case['errors']
    if not case['has_size']:
        n.extra['size'] = None
    if not case['file_id']:  # it is known to the remote by now
        n.extra['file_id'] = None
    root = p.anchor()
    root.bootstrap(root.remote.meta, recursive=True)
    n.extra.pop('file_id', None)
    full = os.path.join(p.top, *s.path('N:f'))
    check(os.path.islink(full), 'not a link after bootstrap')
    link = os.readlink(full)
    meta = PathMeta(**s.meta('N:f'))
    limit = case['limit']
    mb = len(data) / 2 ** 20
    if limit is not None and mb == limit:
        return

    def fresh():
        L, C, R = mem.make(s)
        return L(full).cache

    content = None  # of the file, None for a link
    flagged = False
    failed = False
    for (kind, at), edit in case['fetches']:
        what = f'fetch {kind} at {at} of {len(data)}'
        if edit and content is not None:
            content = b'edited' + content[5:]
            with open(full, 'wb') as f:
                f.write(content)
        chunks, got = faulty(kind, at, data)
        s.fault = chunks
        calls = len(s.calls)
        cache = p.Local(full).cache
        if kind != 'none' or failed:
            ctx.nontrivial()
        tag, e = outcome(cache.fetch, size_limit_mb=limit)
        s.fault = None
        failed = tag == 'err'
        others = set(os.listdir(os.path.dirname(full))) - {
            case['name'], mem.DATA_DIR, 'dir'}
        check(not others, '{}: leaves {}', what, others)

        wanted = limit is None or case['has_size'] and mb < limit
        if not case['file_id'] and content is None:
            ctx.note('file id from the remote')
            if os.path.islink(full):  # it is in there now
                link = os.readlink(full)
                equal(fresh().meta.file_id, meta.file_id, f'{what}: file id')
        if not wanted:
            ctx.note('over the limit' if case['has_size'] else 'unknown size')
            check(tag == 'ok', '{}: failed {!r}', what, e)
            equal(len(s.calls), calls, f'{what}: transfers of a file over the limit')
            if content is None:
                check(os.path.islink(full), '{}: link is gone', what)
                equal(os.readlink(full), link, f'{what}: link')
            continue

        if kind == 'fail':
            ctx.note('fails at once' if not got else 'fails later',
                     'was a link' if content is None else 'was a file')
            check(tag == 'err' and isinstance(e, Lost), '{}: outcome {!r}', what, e)
            if content is None:
                check(os.path.islink(full), '{}: {}', what,
                      'link was replaced by a file that was not fetched'
                      if os.path.exists(full) else 'link is gone')
                equal(os.readlink(full), link, f'{what}: link')
            else:
                with open(full, 'rb') as f:
                    now = f.read()
                if not got:
                    equal(now, content, f'{what}: content')
                content = now
        else:
            with open(full, 'rb') as f:
                equal(f.read(), got, f'{what}: content')
            content = got
            size_ok = not case['has_size'] or len(got) == len(data)
            sum_ok = not checked or got == data
            ctx.note('as recorded' if size_ok and sum_ok else 'not as recorded')
            if not size_ok:
                check(tag == 'err', '{}: {} bytes where {} were expected', what,
                      len(got), len(data))
            else:
                check(tag == 'ok', '{}: failed {!r}', what, e)
                if not sum_ok:
                    flagged = True
        if content is not None or not os.path.islink(full):
            now = fresh().meta
            want = gen.meta_expected({})
            want.update({k: getattr(meta, k) for k in gen.FIELDS})
            bad = bool(set(now.errors) & MISMATCH)
            if flagged:
                check(bad, '{}: a mismatch is not in the metadata {}', what, short(now))
            elif not failed:
                check(not bad, '{}: the bytes are right but flagged', what)
            equal(tuple(e for e in now.errors if e not in MISMATCH), case['errors'],
                  f'{what}: other errors')
            want['errors'] = now.errors
            d = gen.meta_diff(now, want)
            if d:
                raise Violation(f'{what}: field {d[0]} is {short(d[1])} '
                                f'expected {short(d[2])}')
            if kind == 'none' and not failed:
                equal(content, data, f'{what}: content')

    if content is not None:  # what is there is checked again, as it is or changed
        for change in (False, True):
            if change:
                content = content[:-1] if case['deep'] and content else content + b'!'
                with open(full, 'wb') as f:
                    f.write(content)
            what = f'validating {len(content)} bytes of {len(data)}'
            tag, e = outcome(p.Local(full).cache.validate_file)
            now = fresh().meta
            if checked:
                check(tag == 'ok', '{}: failed {!r}', what, e)
                flagged = flagged or content != data
                equal(bool(set(now.errors) & MISMATCH), flagged, f'{what}: flagged')
            elif case['has_size'] and len(content) != len(data):
                check(tag == 'err' and isinstance(e, exc.SizeError), '{}: {!r}', what, e)
            else:
                check(tag == 'ok', '{}: failed {!r}', what, e)
            equal(p.Local(full).content_different(), content != data,
                  f'{what}: content is different')
            with open(full, 'rb') as f:
                equal(f.read(), content, f'{what}: content')
