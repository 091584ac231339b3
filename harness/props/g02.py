import os
import contextlib
import io
from hypothesis import strategies as st
from framework import Violation, check, equal, outcome
import gitlib
from gitlib import git

from packaging.version import Version
from augpathlib import PackagePath

ID = 'G02'
COUNTS = {'quick': 840, 'thorough': 12000}
RULE = ('random repositories with 1 to 3 packages (at the top, below it, in each '
        'other) with names that are prefixes of each other, a history of up to 6 commits to '
        'them with tags of theirs, of others and unrelated ones, lists of releases on stand-ins '
        'for the two package indexes, asked about from any path in them in any '
        'spelling.  Non-trivial: more than one package and a tag.')
ASSUMPTIONS = ['the network is replaced by a stand-in for requests',
               'tags of a package are its name (if its setup.py is not at the top), a '
               'dash, and a version']

NAMES = ['foo', 'foo-bar', 'foobar', 'bar', 'foo2', 'my.foo']
DIRS = ['', 'foo', 'sub/foo', 'sub/foo-bar', 'sub', 'sub/foo/nested', 'foo bar', 'sub/repo']
VERSIONS = ['0.0.1', '0.0.2', '0.1', '0.0.10', '1.0', '1.0rc1', '2.0.dev0', '10.0', '0.0.1.post1', '1.0-1', '1!0.1']


def strategy(tier):
    package = st.tuples(st.sampled_from(DIRS), st.sampled_from(NAMES), st.sampled_from(VERSIONS))
    tag = st.one_of(
        st.none(),
        st.tuples(st.sampled_from(['{name}-{version}', '{version}', '{name}-{version}',
                                   'v{version}', '{name}', 'x-{name}-{version}']),
                  st.sampled_from(NAMES), st.sampled_from(VERSIONS)))
    return st.fixed_dictionaries({
        'packages': st.lists(package, min_size=1, max_size=3,
                             unique_by=(lambda p: p[0], lambda p: p[1])),
        'history': st.lists(st.tuples(st.integers(-1, 2), tag, tag), max_size=6),
        'pypi': st.one_of(st.none(), st.lists(st.sampled_from(VERSIONS), min_size=1,
                                              max_size=5, unique=True)),
        'github': st.one_of(st.none(), st.lists(tag.filter(bool), max_size=5)),
        # on another branch that is not merged
        'side': st.lists(tag.filter(bool), max_size=2),
        # things that are nearly a setup.py
        'decoy': st.sampled_from([None, None, 'setup.cfg', 'setup.txt', 'xsetup.py', 'setup.py.x',
                                  'pyproject.toml']),
        # the list of packages in setup.py
        'listed': st.sampled_from(['{m} {n}', '{n}', '{n} {n}.sub', '{n}.sub {n}', '{n}x {n}',
                                   '{n}x', '{n}.sub', 'x{n}', '']),
        'manifest': st.booleans(),
        'ask': st.lists(st.tuples(st.integers(0, 2), st.sampled_from(
            ['folder', 'setup', 'inside', 'missing', 'relative', 'dots', 'here'])),
            min_size=1, max_size=2),
    })


def setup(ctx):
    gitlib.setup(ctx)


class Answer:
    def __init__(self, value):
        self.ok = value is not None
        self.status_code = 200 if self.ok else 404
        self.value = value

    def json(self):
        return self.value


class Requests:
    """ what is used of requests """

    def __init__(self, answers):
        self.answers = answers

    headers = {}

    def Session(self):
        return self

    def get(self, url, **how):
        return Answer(self.answers.get(url))


def run(case, ctx):
    top = os.path.join(ctx.scratch(), 'repo')
    gitlib.init(ctx, top)
    packages = case['packages']
    first = {}
    for where, name, version in packages:
        module = name.replace('.', '_')
        base = os.path.join(where, '')
        listed = case['listed'].format(m=module, n=name).split()
        if case['decoy']:
            first[f'{base}{name}/{case["decoy"]}'] = 'file', b'[x]\n'
        first[f'{base}setup.py'] = 'file', (
            f'from setuptools import setup\nsetup(name={name!r}, version={version!r},\n'
            f'      packages={listed!r})\n').encode()
        if case['manifest']:
            first[f'{base}MANIFEST.in'] = 'file', f'recursive-include {name} *.py\n'.encode()
        first[f'{base}{name}/__init__.py'] = 'file', b'#\n'
    first['README'] = 'file', b'r\n'
    commits = [('first', first)]
    for i, (which, *_) in enumerate(case['history']):
        if which == -1:
            path = 'README'
        else:
            where, name, _ = packages[which % len(packages)]
            path = os.path.join(where, name, '__init__.py')
        commits.append((f'change {i}', {path: ('file', b'%d\n' % i)}))
    ids = gitlib.fast_import(top, commits)
    git(top, 'reset', '-q', '--hard')
    git(top, 'remote', 'add', 'origin', 'https://github.com/org/thing.git')
    tags = {}  # commit number: names
    have = set()
    rows = b''
    for i, (_, *two) in enumerate(case['history'], 1):
        for t in two:
            if t is not None:
                tag = t[0].format(name=t[1], version=t[2])
                if tag not in have:
                    have.add(tag)
                    tags.setdefault(i, []).append(tag)
                    rows += f'create refs/tags/{tag} {ids[i]}\n'.encode()
    if case['side']:
        [side] = gitlib.fast_import(top, [('side', {'README': ('file', b'side')})],
                                    branch='side', parent=ids[0])
        for a, b, c in case['side']:
            tag = a.format(name=b, version=c)
            if tag not in have:
                have.add(tag)
                rows += f'create refs/tags/{tag} {side}\n'.encode()
    if rows:
        git(top, 'update-ref', '--stdin', input=rows)
    if len(packages) > 1 and tags:
        ctx.nontrivial()

    def own(tag, name, prefix):
        """ the version if the tag is one of the package """
        if prefix:
            if not tag.startswith(name + '-'):
                return None
            tag = tag[len(name) + 1:]
        return Version(tag) if tag in VERSIONS else None

    for k, how in case['ask']:
        where, name, version = packages[k % len(packages)]
        folder = os.path.join(top, where).rstrip('/')
        deepest = folder
        os.chdir(top)
        if how == 'folder':
            path = folder
        elif how == 'setup':
            path = folder + '/setup.py'
        elif how == 'inside':
            path = f'{folder}/{name}/__init__.py'
        elif how == 'missing':
            path = f'{folder}/{name}/none/no.py'
        elif how == 'relative':
            path = os.path.relpath(f'{folder}/{name}', top)
        elif how == 'dots':
            path = f'{folder}/{name}/../{name}/__init__.py'
        else:
            os.chdir(f'{folder}/{name}')
            path = '.'
        # the package may have another one in its folder
        at = os.path.normpath(os.path.join(os.getcwd(), path))
        inner = [p for p in packages
                 if (at + '/').startswith(os.path.join(top, p[0]).rstrip('/') + '/')]
        where, name, version = max(inner, key=lambda p: len(p[0]))
        folder = os.path.join(top, where).rstrip('/')
        prefix = where != ''
        what = f'{how} of {name} at {where!r}'
        p = PackagePath(path)
        ctx.note(how)
        equal(str(p.folder), folder, f'{what}: folder')
        equal(str(p.setup_file), folder + '/setup.py', f'{what}: setup file')
        equal(p.arg_packagename, name, f'{what}: name')
        if '{n}' in case['listed'].split():
            equal(str(p.module), f'{folder}/{name}', f'{what}: module')
            equal(str(p.module_init_file), f'{folder}/{name}/__init__.py', f'{what}: init file')
        else:
            tag, got = outcome(lambda: p.module)
            check(tag == 'err' and isinstance(got, NotImplementedError),
                  '{}: module when it is not listed: {!r}', what, got)
        equal(p.version_repo, Version(version), f'{what}: version')
        equal(bool(p.tag_prefix), prefix, f'{what}: tag prefix')
        equal(str(p.arg_folder), os.path.join('repo', where).rstrip('/'), f'{what}: arg folder')
        equal((p.arg_org, p.arg_repo), ('org', 'thing'), f'{what}: org and repo')
        last = [i for i in tags if any(own(t, name, prefix) for t in tags[i])]
        if not last:
            equal(p.tag, None, f'{what}: tag of {tags}')
            equal(p.version_tag, None, f'{what}: version of the tag')
            since = range(len(commits))
        else:
            ctx.note('tagged')
            mine = [t for t in tags[max(last)] if own(t, name, prefix)]
            tag = p.tag
            check(tag in mine, '{}: tag {} of {} expected one of {}', what, tag, tags, mine)
            equal(p.version_tag, own(tag, name, prefix), f'{what}: version of the tag')
            since = range(max(last) + 1, len(commits))
        with contextlib.redirect_stdout(io.StringIO()):
            log = p.commits_since_last_release()
        def changing(*start):
            return [commits[i][0] for i in reversed(since)
                    if any(os.path.join(top, f).startswith(start) for f in commits[i][1])]

        got = [e.split(' ', 3)[3] for e in log]
        want = changing(folder + '/')
        if case['manifest']:  # setuptools may find more files than those named there
            surely = changing(f'{folder}/{name}/', f'{folder}/setup.py')
            check(got == [w for w in want if w in got] and set(got) >= set(surely),
                  '{}: commits since the release: {} expected {}', what, got, surely)
            want = got
        equal(got, want, f'{what}: commits since the release')
        equal([e.split(' ', 3)[2] for e in log],
              [ids[[c[0] for c in commits].index(m)][:len(e.split(' ', 3)[2])]
               for m, e in zip(want, log)], f'{what}: ids of the commits')

        pypi = case['pypi']
        github = case['github']
        if github is not None:
            github = [{'tag_name': a.format(name=b, version=c)} for a, b, c in github]
        p._requests = Requests({
            f'https://pypi.org/pypi/{name}/json': pypi and {
                'info': {'version': max(pypi, key=Version)},
                'releases': {v: [] for v in pypi}},
            'https://api.github.com/repos/org/thing/releases': github})
        latest = max(map(Version, pypi)) if pypi else None
        equal(p.version_latest_pypi, latest, f'{what}: latest on the index')
        equal(p.version_latest_released, latest, f'{what}: latest released')
        there = [r['tag_name'] for r in github or () if own(r['tag_name'], name, prefix)]
        equal(p.tag_latest_github, there[0] if there else None,
              f'{what}: latest tag of {github}')
        equal(p.version_latest_github, own(there[0], name, prefix) if there else None,
              f'{what}: version of the latest tag')
        if latest is None:
            equal(p.version_next('micro'), Version(version), f'{what}: next version')
            new = Version(version)
        else:
            tag, new = outcome(p.version_next, 'micro')
            if tag == 'err':
                raise Violation(f'{what}: next after {latest}: {new!r}')
            check(new > latest, '{}: next version {} after {}', what, new, latest)
        equal(p.command('micro'), f'build-release org thing {p.arg_folder} {name} {new}',
              f'{what}: command')
