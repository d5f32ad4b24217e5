"""Concrete execution of harnesses against the unmodified /repo code.

    /opt/venv/bin/python symx/replay.py FILE.json    replay a violation
    ... --batch      (jobs as JSON on stdin, results as JSON on stdout)
"""
import importlib
import json
import os
import signal
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)


class Timeout(BaseException):
    pass


def _alarm(sig, frame):
    raise Timeout()


def norm(x):
    if isinstance(x, dict):
        return {str(norm(k)): norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((norm(v) for v in x), key=repr)
    if isinstance(x, bytes):
        return x.decode('latin')
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        return float(x)
    return repr(type(x))


def run_one(job, limit=20):
    from symx.ctx import ConcCtx, CheckFailed, Skip
    for n in [m for m in sys.modules if m == 'pdfme' or m.startswith('pdfme.')]:
        del sys.modules[n]
    import pdfme
    assert os.path.realpath(pdfme.__file__).startswith(os.path.realpath(REPO)), pdfme.__file__
    mod = importlib.import_module(job['module'])
    cx = ConcCtx(job['inputs'], pdfme)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    out = {'status': 'ok'}
    try:
        getattr(mod, job['harness'])(cx, **job['cfg'])
    except CheckFailed as ex:
        out = {'status': 'fail', 'msg': str(ex), 'detail': cx.detail}
    except Skip:
        out = {'status': 'skip'}
    except Timeout:
        out = {'status': 'timeout'}
    except Exception as ex:
        out = {'status': 'exception', 'msg': '%s: %s' % (type(ex).__name__, ex),
               'detail': traceback.format_exc()[-1500:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    out['obs'] = norm(cx.obs)
    out['nchecks'] = cx.nchecks
    return out


def main():
    if sys.argv[1:2] == ['--batch']:
        jobs = json.load(sys.stdin)
        real = sys.stdout
        sys.stdout = sys.stderr
        res = [run_one(j, j.get('limit', 20)) for j in jobs]
        json.dump(res, real)
        return 0
    with open(sys.argv[1]) as f:
        job = json.load(f)
    r = run_one(job)
    print(json.dumps({k: r.get(k) for k in ('status', 'msg', 'detail')}, indent=1))
    return 1 if r['status'] in ('fail', 'exception', 'timeout') else 0


if __name__ == '__main__':
    sys.exit(main())
