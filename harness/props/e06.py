import os
from urllib.parse import unquote
from hypothesis import strategies as st
import gen
import gitlib
from gitlib import git
from framework import Violation, check, equal, outcome, describe

from augpathlib import RepoPath, exceptions as exc

ID = 'E06'
COUNTS = {'quick': 1600, 'thorough': 40000}
RULE = ('owners and repository names (dots, dashes, digits, several suffixes) in every '
        'form of address (https with or without user, token and port, scp like and ssh, '
        'with or without .git and a final slash), files and folders with odd names, '
        'refs as branch, branch with a slash, commit, commit object or none, directly '
        'or through one or two local clones, and other hosts.  Non-trivial: not the '
        'plain https address, or a dot in the name.')


def setup(ctx):
    gitlib.setup(ctx)


FORMS = ['https://{h}/{o}/{r}', 'https://user@{h}/{o}/{r}', 'https://user:to-ken@{h}/{o}/{r}',
         'https://{h}:443/{o}/{r}', 'http://{h}/{o}/{r}', 'git://{h}/{o}/{r}',
         'git@{h}:{o}/{r}', 'git@{h}:/{o}/{r}', 'ssh://git@{h}/{o}/{r}',
         'ssh://git@{h}:22/{o}/{r}']
PATHS = ['a', 'a.txt', 'sub/b.py', 'sub', '', 'no-suffix/x.y.z', '\u00e9', 'sp ace', '.hidden',
         'dir.git/c', 'missing/file', 'sub/HEAD', "q'", 'a+b=c&d']


def strategy(tier):
    word = st.text(alphabet='abXY019-', min_size=1, max_size=8).map(lambda s: 'o' + s)
    repo = st.one_of(word, st.tuples(word, st.sampled_from(
        ['.x', '.github.io', '.git.x', '.', '_2', '-1.0', '.py', '.tar.gz'])).map(''.join))
    return st.fixed_dictionaries({
        'host': st.sampled_from(['github.com'] * 6 + ['example.org', 'github.com.example.org']),
        'owner': word,
        'repo': repo,
        'form': st.sampled_from(FORMS),
        'suffix': st.sampled_from(['', '.git', '.git', '/', '.git/']),
        'branch': st.sampled_from(['master', 'main', 'feature/x', 'v1.0', 'x-HEAD']),
        'clones': st.integers(0, 2),
        'asks': st.lists(st.tuples(
            st.sampled_from(PATHS),
            st.sampled_from([None, 'HEAD', 'branch', 'hex', 'commit', 'other', 'origin']),
            st.sampled_from(['abs', 'rel'])), min_size=1, max_size=4),
    })


def run(case, ctx):
    top = ctx.scratch()
    owner, name = case['owner'], case['repo']
    url = case['form'].format(h=case['host'], o=owner, r=name) + case['suffix']
    roots = [os.path.join(top, f'r{i}') for i in range(case['clones'] + 1)]
    gitlib.init(ctx, roots[0])
    first, second = gitlib.fast_import(roots[0], [
        ('one', {'a': ('file', b'1')}), ('two', {'a': ('file', b'2')})])
    for i, root in enumerate(roots):
        if i:
            os.makedirs(root)
            import shutil
            shutil.copytree(os.path.join(roots[0], '.git'), os.path.join(root, '.git'))
            git(root, 'config', 'remote.origin.url', roots[i - 1])
        git(root, 'update-ref', 'refs/heads/other', first)
        git(root, 'update-ref', 'refs/heads/' + case['branch'], second)
        git(root, 'update-ref', 'refs/remotes/origin/upstream', first)
        git(root, 'symbolic-ref', 'HEAD', 'refs/heads/' + case['branch'])
        git(root, 'reset', '-q', '--hard')
    with open(os.path.join(roots[0], '.git', 'config'), 'a') as f:
        f.write(f'[remote "origin"]\n\turl = {url}\n'
                '\tfetch = +refs/heads/*:refs/remotes/origin/*\n')
    root = roots[-1]
    os.chdir(root)
    where = RepoPath(root)

    # where git would clone to
    parent = RepoPath(top)
    equal(str(parent.clone_path(url)), os.path.join(top, name), f'clone path for {url}')

    github = case['host'] == 'github.com'
    if case['form'] != FORMS[0] or '.' in name:
        ctx.nontrivial('clone' if case['clones'] else 'direct')
    if case['clones'] > 0 and github:
        ctx.note(f'{case["clones"]} local clones')
    for path, ask, spelled in case['asks']:
        p = where / path if spelled == 'abs' else RepoPath(path or '.')
        ref, expect = {
            None: (None, case['branch']),
            'HEAD': ('HEAD', case['branch']),
            'branch': (case['branch'], case['branch']),
            'hex': (first, first),
            'other': ('other', 'other'),
            'origin': ('upstream', 'upstream'),
            'commit': (None, second),
        }[ask]
        if ask == 'commit':
            ref = where.repo.head.commit
        if ask == 'origin' and case['branch'] == 'upstream':
            continue
        what = f'{path!r} at {ref} of {url}'
        for call, host, infix in ((p.remote_uri_human, 'https://github.com', '/blob'),
                                  (p.remote_uri_machine,
                                   'https://raw.githubusercontent.com', '')):
            how, got = outcome(call, ref)
            if not github:
                check(how == 'err' and isinstance(got, NotImplementedError),
                      '{} on another host: {!r}', what, got)
                continue
            check(how == 'ok', '{}: {}', what, describe(got) if how == 'err' else '')
            want = f'{host}/{owner}/{name}{infix}/{expect}/{path}'.rstrip('/')
            check(want in (got, unquote(got)), '{}: {} expected {}', what, got, want)
        if github and case['clones'] == 0:
            equal(p.remote_uri_api(), f'https://api.github.com/repos/{owner}/{name}',
                  f'api link of {what}')
            equal(p.remote_uri_api('/pulls'),
                  f'https://api.github.com/repos/{owner}/{name}/pulls',
                  f'api link of {what}')
