"""Parent of a check: contain, spawn, merge, confirm, report.

runner.py check  <ID>     (VERIF_SEED, VERIF_TIER)
runner.py replay <file>
runner.py many   <ID...>  development helper, runs several checks

The code under test deletes and overwrites files for a living, so it only
runs in children that gave up root before they import it, whose only writable
places are a scratch directory (and one on another device) made here and
removed here.
"""

import os
import sys
import ast
import json
import time
import shutil
import hashlib
import tempfile
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
HYPOTHESIS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
UID = 61234
NWORKERS = int(os.environ.get('VP_WORKERS', '8'))


class Broken(Exception):
    """ harness error """


class Arena:
    """ the scratch directories, the copy of the code, and the children """

    def __enter__(self):
        self.root = tempfile.mkdtemp(prefix='vpchk-', dir='/tmp')
        os.chmod(self.root, 0o755)
        self.shm = None
        try:
            if os.stat('/dev/shm').st_dev != os.stat('/tmp').st_dev:
                self.shm = tempfile.mkdtemp(prefix='vpchk-', dir='/dev/shm')
                os.chmod(self.shm, 0o755)
        except OSError:
            pass
        self.src = os.path.join(self.root, 'src')
        ig = shutil.ignore_patterns('__pycache__', '*.pyc')
        shutil.copytree(os.path.join(REPO, 'augpathlib'),
                        os.path.join(self.src, 'augpathlib'), ignore=ig)
        self.harness = os.path.join(self.root, 'harness')
        shutil.copytree(os.path.join(VERIF, 'harness'), self.harness, ignore=ig)
        for base in (self.src, self.harness):
            for d, dirs, files in os.walk(base):
                os.chmod(d, 0o755)
                for f in files:
                    os.chmod(os.path.join(d, f), 0o644)
        self.n = 0
        return self

    def __exit__(self, *exc):
        for d in (self.root, self.shm):
            if d:
                shutil.rmtree(d, ignore_errors=True)

    def _own(self, base, name):
        d = os.path.join(base, name)
        os.mkdir(d, 0o700)
        if os.geteuid() == 0:
            os.chown(d, UID, UID)
        return d

    def spawn(self, job):
        self.n += 1
        name = f'w{self.n:03d}'
        home = self._own(self.root, name)
        work = os.path.join(home, 'work')
        os.mkdir(work, 0o700)
        if os.geteuid() == 0:
            os.chown(work, UID, UID)
        job = {'src': self.src, 'harness': self.harness,
               'hypothesis': HYPOTHESIS, 'dir': work,
               'shm': self._own(self.shm, name) if self.shm else None, **job}
        jp = os.path.join(self.root, f'{name}.job')
        with open(jp, 'w') as f:
            json.dump(job, f)
        os.chmod(jp, 0o644)
        rp = os.path.join(home, 'result.json')
        env = {'PATH': '/opt/venv/bin:/usr/local/bin:/usr/bin:/bin',
               'HOME': home, 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8',
               'TMPDIR': home, 'TZ': 'UTC',
               'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
               'PYTHONBREAKPOINT': '0', 'PYTHONNOUSERSITE': '1',
               'GIT_CONFIG_NOSYSTEM': '1', 'GIT_TERMINAL_PROMPT': '0',
               'GIT_AUTHOR_NAME': 'vp', 'GIT_AUTHOR_EMAIL': 'vp@example.com',
               'GIT_COMMITTER_NAME': 'vp', 'GIT_COMMITTER_EMAIL': 'vp@example.com',
               'GIT_PYTHON_REFRESH': 'quiet', 'SKIP_NETWORK': '1'}
        kw = {}
        if os.geteuid() == 0:
            kw = dict(user=UID, group=UID, extra_groups=[])
        err = open(os.path.join(self.root, f'{name}.err'), 'wb')
        p = subprocess.Popen([PYTHON, os.path.join(self.harness, 'worker.py'), jp, rp],
                             cwd=work, env=env, stdin=subprocess.DEVNULL,
                             stdout=err, stderr=err, start_new_session=True, **kw)
        err.close()
        return p, rp, err.name

    def collect(self, handle, timeout=None):
        p, rp, err = handle
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            raise Broken('worker timed out')
        try:
            os.killpg(p.pid, 9)  # anything it left behind
        except (ProcessLookupError, PermissionError):
            pass
        try:
            with open(rp) as f:
                return json.load(f)
        except (OSError, ValueError):
            with open(err, 'rb') as f:
                tail = f.read()[-4000:].decode(errors='replace')
            raise Broken(f'worker died rc={p.returncode}\n{tail}')


def derive(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def prop_info(pid):
    """ COUNTS and friends without importing the code under test """
    path = os.path.join(VERIF, 'harness', 'props', pid.lower() + '.py')
    tree = ast.parse(open(path).read())
    out = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            if node.targets[0].id in ('COUNTS', 'RULE', 'ID', 'ASSUMPTIONS'):
                out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


def known_findings(pid):
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f'known: property={pid} '):
                out.append(line.split(' ', 2)[2])
    return out


def campaign(arena, pid, seed, tier, info):
    total = info['COUNTS'][tier]
    per = -(-total // NWORKERS)
    jobs = [{'mode': 'campaign', 'property': pid, 'tier': tier,
             'index': i, 'nworkers': NWORKERS, 'count': per,
             'seed': derive(pid, seed, i)} for i in range(NWORKERS)]
    handles = [arena.spawn(j) for j in jobs]
    results = []
    errors = []
    for h, j in zip(handles, jobs):
        try:
            r = arena.collect(h, 840 if tier == 'quick' else None)
            results.append((j, r))
        except Broken as e:
            errors.append(str(e))
    return results, errors


def confirm(arena, pid, tier, text):
    h = arena.spawn({'mode': 'replay', 'property': pid, 'tier': tier, 'case': text})
    return arena.collect(h)['violation']


def write_replay(pid, payload):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{pid}.json')
    with open(path, 'w') as f:
        json.dump(payload, f, indent=1)
    return path


def run_check(pid, seed, tier):
    t0 = time.monotonic()
    info = prop_info(pid)
    rc = 0
    violations = 0
    with Arena() as arena:
        results, errors = campaign(arena, pid, seed, tier, info)
        errors += [r['error'] for _, r in results if r['error']]
        failures = sorted((n, text, out, j['index']) for j, r in results
                          for n, text, out in r['failures'])
        payload = None
        for n, text, out, _ in failures[:4]:
            again = confirm(arena, pid, tier, text)
            if again is not None:
                payload = {'property': pid, 'kind': 'case', 'tier': tier,
                           'case': text, 'violation': again}
                break
        if failures and payload is None:
            # only fails after other cases ran in the process, so the worker's
            # whole sequence of cases (a function of its seed) is the replay
            n, text, out, index = failures[0]
            j = next(j for j, r in results if j['index'] == index)
            r = arena.collect(arena.spawn(j))
            if r['failures']:
                payload = {'property': pid, 'kind': 'campaign', 'tier': tier,
                           'job': j, 'case': text, 'violation': r['failures'][0][2]}
            else:
                errors.append(f'a failure did not reproduce: {out}\n{text[:2000]}')
        if payload is not None:
            violations = 1
            path = write_replay(pid, payload)
            print(f'{pid}: {payload["violation"]}')
            print(f'case: {payload["case"][:3000]}')
            print(f'VIOLATION property={pid} replay={path}')
            rc = 1
        elif errors:
            for e in errors[:3]:
                print(f'{pid} HARNESS ERROR: {e}', file=sys.stderr)
            rc = 2

    hashes = set()
    labels = {}
    samples = []
    evaluations = 0
    for _, r in results:
        evaluations += r['evaluations']
        hashes.update(r['hashes'])
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        samples.extend(r['samples'])
    samples = sorted(set(samples), key=lambda s: (len(s), s))
    if len(samples) > 8:
        step = len(samples) / 8
        samples = [samples[int(i * step)] for i in range(8)]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': evaluations,
                       'distinct_nontrivial': len(hashes),
                       'rule': info['RULE'],
                       'samples': samples,
                       'classes': dict(sorted(labels.items())),
                       'workers': NWORKERS},
          'assumptions': info.get('ASSUMPTIONS', []),
          'wall_s': round(time.monotonic() - t0, 2),
          'violations': violations}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if rc == 0:
        for line in known_findings(pid):
            print(f'KNOWN-FINDING: property={pid} {line}')
        print(f'{pid} ok: {evaluations} cases, {len(hashes)} distinct non-trivial, '
              f'{ev["wall_s"]} s')
        if not hashes:
            print(f'{pid} HARNESS ERROR: no non-trivial case', file=sys.stderr)
            rc = 2
    return rc


def run_replay(path):
    payload = json.load(open(path))
    with Arena() as arena:
        if payload['kind'] == 'case':
            out = confirm(arena, payload['property'], payload['tier'], payload['case'])
        else:
            r = arena.collect(arena.spawn(payload['job']))
            out = r['failures'][0][2] if r['failures'] else None
    print(f'case: {payload["case"][:3000]}')
    if out is None:
        print('does not fail')
        return 0
    print(out)
    print(f'VIOLATION property={payload["property"]} replay={path}')
    return 1


def main():
    mode, *args = sys.argv[1:]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if mode == 'check':
        sys.exit(run_check(args[0], seed, tier))
    elif mode == 'replay':
        sys.exit(run_replay(args[0]))
    elif mode == 'many':
        bad = []
        for pid in args:
            rc = run_check(pid, seed, tier)
            if rc:
                bad.append((pid, rc))
            sys.stdout.flush()
        print('bad:', bad)
        sys.exit(bool(bad))


if __name__ == '__main__':
    main()
