"""Bounded replay search: runs the real code of /repo on generated inputs against independent oracles.

It never decides that a property holds: it produces the failing input that goes with a failed obligation
(and reports one whenever it finds it). Labelled bounded in the evidence.

  /opt/venv/bin/python refute/run.py C18 --time 10 --seed 1 --out FILE   |   --replay FILE
"""
import argparse
import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('NLC_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


def short(x, n=1500):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--time', type=float, default=10)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--start', type=int, default=0, help='skip the fixed cases unless 0')
    a = ap.parse_args()
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    scratch = tempfile.mkdtemp(prefix='nlcref')
    inner = os.path.join(scratch, 'a', 'b', 'work')
    os.makedirs(inner)
    out = open(a.out, 'w') if a.out else sys.stdout
    if os.getuid() == 0:
        try:        # an unprivileged user: destructive effects of broken code stay in the scratch directory
            for d in (scratch, os.path.join(scratch, 'a'), os.path.join(scratch, 'a', 'b'), inner):
                os.chown(d, 65534, 65534)
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        except OSError:
            pass
    os.environ['HOME'] = inner
    os.environ['TMPDIR'] = inner
    tempfile.tempdir = inner
    os.chdir(inner)
    # the code under test logs and draws progress bars
    devnull = os.open(os.devnull, os.O_WRONLY)
    err = os.dup(2)
    if not os.environ.get('REFUTE_DEBUG'):
        os.dup2(devnull, 2)
    st = time.time()
    res = dict(evaluations=0, nontrivial=0, failure=None, samples=[], error=None)
    distinct = set()

    def alarm(*_):
        raise Hang()
    signal.signal(signal.SIGALRM, alarm)
    try:
        try:
            import logging
            logging.disable(logging.CRITICAL)
            m = importlib.import_module(a.prop.lower())
            load_error = None
        except Exception as x:      # the module under test can not even be imported
            res['failure'] = dict(case=None, error=f'import: {x!r}', trace=traceback.format_exc()[-2000:])
            m = None
        if m is not None:
            rng = random.Random(a.seed)
            gen = [json.load(open(a.replay))['case']] if a.replay else m.cases(rng, a.start == 0)
            for case in gen:
                if not a.replay and time.time() - st > a.time:
                    break
                case = json.loads(json.dumps(case))
                res['evaluations'] += 1
                signal.alarm(getattr(m, 'CASE_SECONDS', 60))
                try:
                    nt = m.check(case)
                    signal.alarm(0)
                except Hang:
                    res['failure'] = dict(case=case, error='no result within the time limit of one case')
                    break
                except Exception as x:      # noqa
                    signal.alarm(0)
                    res['failure'] = dict(case=case, error=f'{type(x).__name__}: {x}', trace=traceback.format_exc()[-3000:])
                    break
                finally:
                    signal.alarm(0)
                key = json.dumps(case, sort_keys=True)
                if nt is not False and hash(key) not in distinct:
                    distinct.add(hash(key))
                    if len(res['samples']) < 3 and len(key) < 600:
                        res['samples'].append(case)
        res['nontrivial'] = len(distinct)
        res['rule'] = getattr(m, 'RULE', '') if m else ''
        res['wall'] = time.time() - st
    finally:
        out.write(json.dumps(res, ensure_ascii=True) + '\n')
        out.flush()
        os.chdir('/')
        shutil.rmtree(os.path.join(scratch, 'a'), ignore_errors=True)
    if a.replay and res['failure']:
        sys.stdout.write(f"replayed: {res['failure']['error']}\n")
    sys.exit(1 if res['failure'] else 0)


if __name__ == '__main__':
    main()
