"""One worker: run cases of one property in this (unprivileged) process.

worker.py JOB.json RESULT.json
"""

import os
import sys
import ast
import json
import time
import signal
import hashlib
import logging
import warnings
import importlib
import traceback

CASE_SECONDS = 60
REPLAY_SECONDS = 150
SHRINK_SECONDS = {'quick': 60, 'thorough': 180}


def main():
    job = json.load(open(sys.argv[1]))
    result_path = sys.argv[2]
    sys.path[:] = [p for p in sys.path if p not in ('', job['harness'])]
    sys.path.insert(0, job['harness'])
    sys.path.insert(0, job['src'])
    sys.path.append(job['hypothesis'])
    warnings.simplefilter('ignore')
    os.umask(0o022)
    os.chdir(job['dir'])

    import augpathlib
    where = os.path.realpath(augpathlib.__file__)
    assert where.startswith(os.path.realpath(job['src']) + os.sep), where
    logging.disable(logging.CRITICAL)
    for name in list(logging.Logger.manager.loggerDict):
        lg = logging.getLogger(name)
        if name.startswith('augpathlib') or name == 'idlib':
            lg.handlers[:] = [logging.NullHandler()]

    import framework as fw
    sys.breakpointhook = fw.breakpointhook
    prop = importlib.import_module('props.' + job['property'].lower())
    ctx = fw.Ctx(job['dir'], job.get('shm'), job['tier'])
    if hasattr(prop, 'setup'):
        prop.setup(ctx)

    class Stop(BaseException):
        pass

    def on_alarm(sig, frame):
        raise fw.CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)

    def one(case, seconds):
        signal.alarm(seconds)
        try:
            return fw.execute(prop, case, ctx)
        except fw.CaseTimeout:
            return f'did not finish in {seconds} seconds'
        finally:
            signal.alarm(0)

    if job['mode'] == 'replay':
        case = ast.literal_eval(job['case'])
        out = one(case, REPLAY_SECONDS)
        json.dump({'violation': out}, open(result_path, 'w'))
        return

    from hypothesis import given, seed, settings, HealthCheck, Phase
    from hypothesis import configuration
    configuration.set_hypothesis_home_dir(os.path.join(job['dir'], 'hyp'))

    stats = {'evaluations': 0, 'labels': {}, 'samples': [], 'late': []}
    hashes = set()
    failures = []
    first_failure_at = [None]
    shrink_seconds = SHRINK_SECONDS[job['tier']]

    def body(case):
        if first_failure_at[0] is not None:
            if time.monotonic() - first_failure_at[0] > shrink_seconds:
                raise Stop()  # enough shrinking
        text = repr(case)
        out = one(case, CASE_SECONDS)
        if out is not None:
            if first_failure_at[0] is None:
                first_failure_at[0] = time.monotonic()
            failures.append((len(text), text, out))
            if out.startswith('did not finish'):
                raise Stop()  # do not shrink what does not end
            raise AssertionError('violation')  # for hypothesis, so it shrinks
        if first_failure_at[0] is not None:
            return
        stats['evaluations'] += 1
        for lb in ctx.labels:
            stats['labels'][lb] = stats['labels'].get(lb, 0) + 1
        if not ctx.trivial:
            h = int.from_bytes(hashlib.blake2b(text.encode('utf-8', 'surrogatepass'),
                                               digest_size=8).digest(), 'big')
            if h not in hashes:
                hashes.add(h)
                if len(text) < 1500:
                    k = len(hashes)
                    if k & (k - 1) == 0:  # 1st 2nd 4th 8th ...
                        stats['samples'].append(text)

    n = job['count']
    test = seed(job['seed'])(
        settings(max_examples=n, database=None, deadline=None,
                 print_blob=False, report_multiple_bugs=False,
                 phases=(Phase.generate, Phase.shrink),
                 suppress_health_check=list(HealthCheck),
                 )(given(prop.strategy(job['tier']))(body)))
    error = None
    try:
        # explicit cases every worker shares go first, dealt out in turn
        for i, case in enumerate(getattr(prop, 'EXAMPLES', ())):
            if i % job['nworkers'] == job['index']:
                body(case)
        test()
    except Stop:
        pass
    except (Exception, BaseExceptionGroup) as e:
        if not failures:
            error = ''.join(traceback.format_exception(e))[-6000:]
    res = {'error': error,
           'failures': sorted(failures)[:5],
           'hashes': sorted(hashes), **stats}
    with open(result_path, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    main()
