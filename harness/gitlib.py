"""git, run by the harness as the oracle and to make states quickly."""

import os
import shutil
import subprocess

CONFIG = {'init.defaultBranch': 'master', 'gc.auto': '0', 'maintenance.auto': 'false',
          'core.fsync': 'none', 'commit.gpgsign': 'false', 'core.autocrlf': 'false',
          'advice.detachedHead': 'false', 'core.quotePath': 'true'}


def setup(ctx):
    """ before the code under test runs git for the first time """
    env = os.environ
    env['GIT_CONFIG_NOSYSTEM'] = '1'
    env['GIT_CONFIG_GLOBAL'] = os.devnull
    env['GIT_CONFIG_COUNT'] = str(len(CONFIG))
    for i, (k, v) in enumerate(CONFIG.items()):
        env[f'GIT_CONFIG_KEY_{i}'] = k
        env[f'GIT_CONFIG_VALUE_{i}'] = v
    for k in ('GIT_AUTHOR', 'GIT_COMMITTER'):
        env[f'{k}_NAME'] = 'vp'
        env[f'{k}_EMAIL'] = 'vp@example.com'
    # a repository never found above the scratch directories
    env['GIT_CEILING_DIRECTORIES'] = ctx.worker_dir
    if ctx.shm_dir:
        env['GIT_CEILING_DIRECTORIES'] += ':' + ctx.shm_dir
    template = os.path.join(ctx.worker_dir, 'template')
    os.mkdir(template)
    git(template, 'init', '-q')
    shutil.rmtree(os.path.join(template, '.git', 'hooks'), ignore_errors=True)


class GitError(Exception):
    pass


def git(cwd, *args, input=None, ok=False):
    """ stdout of git, or None if it failed and that is ok """
    p = subprocess.run(['git', *args], cwd=cwd, input=input,
                       stdin=subprocess.DEVNULL if input is None else None,
                       capture_output=True)
    if p.returncode:
        if ok:
            return None
        raise GitError(f'git {args}: {p.stderr[:500]!r}')
    return p.stdout


def init(ctx, path):
    """ as git init but without a process """
    os.makedirs(path, exist_ok=True)
    shutil.copytree(os.path.join(ctx.worker_dir, 'template', '.git'),
                    os.path.join(path, '.git'))


def quote(path):
    """ a path for fast-import """
    out = ''
    for b in path.encode('utf-8', 'surrogateescape'):
        out += chr(b) if 32 < b < 127 and b not in b'"\\' else f'\\{b:03o}'
    return f'"{out}"'.encode()


MODES = {'file': b'100644', 'exec': b'100755', 'link': b'120000'}


def fast_import(root, commits, branch='master', when=1600000000, parent=None):
    """ commits: [(message, {path: (kind, content) or None})]
    changes on top of the previous one, returns the ids oldest first """
    out = []
    for i, (message, changes) in enumerate(commits):
        m = message.encode()
        out.append(b'commit refs/heads/%s\nmark :%d\n'
                   b'committer vp <vp@example.com> %d +0000\ndata %d\n%s\n'
                   % (branch.encode(), i + 1, when + i, len(m), m))
        if i == 0 and parent:
            out.append(b'from %s\n' % parent.encode())
        for path, entry in changes.items():
            if entry is None:
                out.append(b'D %s\n' % quote(path))
            else:
                kind, data = entry
                out.append(b'M %s inline %s\ndata %d\n%s\n' %
                           (MODES[kind], quote(path), len(data), data))
    marks = os.path.join(root, '.git', 'vpmarks')
    git(root, 'fast-import', '--quiet', f'--export-marks={marks}',
        input=b''.join(out))
    with open(marks) as f:
        ids = dict(line.split() for line in f)
    os.unlink(marks)
    return [ids[f':{i + 1}'] for i in range(len(commits))]


def write(root, path, entry):
    """ put an entry (kind, content) or nothing in the working tree """
    full = os.path.join(root, path)
    if os.path.lexists(full):
        os.unlink(full)
    if entry is None:
        return
    kind, data = entry
    os.makedirs(os.path.dirname(full), exist_ok=True)
    if kind == 'link':
        os.symlink(data, os.fsencode(full))
    else:
        with open(full, 'wb') as f:
            f.write(data)
        os.chmod(full, 0o755 if kind == 'exec' else 0o644)


def working(root, skip=()):
    """ {path: (kind, content)} of the working tree, .git left out """
    out = {}
    for base, dirs, files in os.walk(root):
        if '.git' in dirs and base == root:
            dirs.remove('.git')
        for n in list(dirs):
            if os.path.islink(os.path.join(base, n)):
                files.append(n)
        for n in files:
            full = os.path.join(base, n)
            rel = os.path.relpath(full, root)
            if os.path.islink(full):
                out[rel] = 'link', os.readlink(os.fsencode(full))
            else:
                with open(full, 'rb') as f:
                    data = f.read()
                out[rel] = ('exec' if os.stat(full).st_mode & 0o100 else 'file'), data
    return out


KINDS = {v.decode(): k for k, v in MODES.items()}


def blobs(root, ids):
    """ {id: content} """
    ids = sorted(set(ids))
    if not ids:
        return {}
    raw = git(root, 'cat-file', '--batch', input=('\n'.join(ids) + '\n').encode())
    out = {}
    at = 0
    for i in ids:
        end = raw.index(b'\n', at)
        head = raw[at:end].split()
        if head[1] == b'missing':
            at = end + 1
            continue
        size = int(head[2])
        out[i] = raw[end + 1:end + 1 + size]
        at = end + 1 + size + 1
    return out


def listing(root, raw):
    """ ls-files -s -z or ls-tree -r -z: {path: (kind, content)} """
    rows = []
    for row in raw.split(b'\0'):
        if row:
            info, path = row.split(b'\t', 1)
            parts = info.decode().split()
            oid = parts[2] if parts[1] in ('blob', 'commit') else parts[1]
            rows.append((os.fsdecode(path), parts[0], oid))
    data = blobs(root, [r[2] for r in rows])
    return {p: (KINDS.get(mode, mode), data.get(oid)) for p, mode, oid in rows}


def tree(root, rev='HEAD'):
    raw = git(root, 'ls-tree', '-r', '-z', rev, ok=True)
    return {} if raw is None else listing(root, raw)


def index(root):
    return listing(root, git(root, 'ls-files', '-s', '-z'))


def set_index(root, changes):
    """ {path: (kind, content) or None} on top of the index """
    have = {k: v for k, v in changes.items() if v is not None}
    oids = {}
    if have:
        # one process for all of them
        names = []
        d = os.path.join(root, '.git', 'vpblobs')
        os.mkdir(d)
        for i, (kind, data) in enumerate(have.values()):
            with open(os.path.join(d, str(i)), 'wb') as f:
                f.write(data)
            names.append(os.path.join(d, str(i)))
        raw = git(root, 'hash-object', '-w', '--no-filters', '--stdin-paths',
                  input=('\n'.join(names) + '\n').encode())
        shutil.rmtree(d)
        oids = dict(zip(have, raw.decode().split()))
    rows = b''
    for path, entry in changes.items():
        p = os.fsencode(path)
        if entry is None:
            rows += b'0 ' + b'0' * 40 + b'\t' + p + b'\0'
        else:
            rows += MODES[entry[0]] + b' ' + oids[path].encode() + b'\t' + p + b'\0'
    if rows:
        git(root, 'update-index', '-z', '--index-info', input=rows)
