"""Runs slices of the symbolic exploration of one harness configuration."""
import importlib
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_state = {}


class PathTimeout(BaseException):
    pass


def _alarm(sig, frame):
    raise PathTimeout()


def setup():
    if _state:
        return
    import z3
    from . import core, rewrite, ctx
    sys.setrecursionlimit(20000)
    sys.dont_write_bytecode = True
    rewrite.install(VERIF)
    signal.signal(signal.SIGALRM, _alarm)
    _state.update(core=core, rewrite=rewrite, ctx=ctx, mods={})


def run_slice(task):
    setup()
    core, rewrite, ctx = _state['core'], _state['rewrite'], _state['ctx']
    modname, fname, cfg = task['module'], task['harness'], task['cfg']
    if task.get('reload'):
        _state['mods'].pop(modname, None)
    e = core.Engine(seed=task['seed'], query_timeout_ms=task.get('qt', 8000))
    e.max_violations = task.get('max_violations', 3)
    rnd = random.Random(repr((task['seed'], modname, fname, sorted(cfg.items(), key=repr), task['slice'])))
    quota = [task.get('witness_quota', 3)]

    def sampler(n):
        if quota[0] <= 0:
            return False
        if n <= 1 or rnd.random() < 0.15:
            quota[0] -= 1
            return True
        return False

    ptime = task.get('path_timeout', 60)

    def body():
        pdfme = rewrite.fresh_pdfme()
        mod = _state['mods'].get(modname)
        if mod is None:
            mod = _state['mods'][modname] = importlib.import_module(modname)
        cx = ctx.SymCtx(e, pdfme)
        signal.setitimer(signal.ITIMER_REAL, ptime)
        try:
            getattr(mod, fname)(cx, **cfg)
        except PathTimeout:
            signal.setitimer(signal.ITIMER_REAL, 0)
            e.stats.note('path abandoned after %d s' % ptime)
            try:
                m = e.get_model()
            except BaseException:
                raise core.PathEnd()
            e.violations.append({'msg': 'does not terminate', 'inputs': [e.model_inputs(m)],
                                 'kind': 'timeout', 'incomplete': True, 'detail': None})
            raise core.PathEnd()
        except Exception as ex:
            signal.setitimer(signal.ITIMER_REAL, 0)
            tb = traceback.extract_tb(ex.__traceback__)
            where = ''
            for f in tb:
                if '/symx/' not in f.filename:
                    where = '%s:%d' % (os.path.basename(f.filename), f.lineno)
            last = tb[-1]
            msg = '%s at %s' % (type(ex).__name__, where)
            try:
                m = e.get_model()
            except BaseException:
                raise core.PathEnd()
            cands = [e.model_inputs(m)]
            mm = e.snapped(None, 8)
            if mm is not None:
                cands.append(e.model_inputs(mm))
            e.stats.errors += 1
            e.violations.append({
                'msg': 'unexpected ' + type(ex).__name__, 'kind': 'exception',
                'inputs': cands, 'incomplete': e.concretised or e.approx,
                'detail': '%s: %s (raised in %s:%d)\n%s' % (
                    msg, _safe(ex), os.path.basename(last.filename), last.lineno,
                    ''.join(traceback.format_list(tb[-6:])))})
            raise core.PathEnd()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    t0 = time.time()
    left = e.explore(body, task['prefixes'], deadline=t0 + task['slice_s'],
                     max_paths=task.get('max_paths'), sampler=sampler)
    return {'task': task['id'], 'left': left, 'violations': e.violations,
            'witnesses': e.witnesses, 'stats': e.stats.dump(), 't': time.time() - t0}


def _safe(ex):
    try:
        return repr([a if isinstance(a, (str, int)) and type(a) in (str, int) else '?' for a in ex.args])
    except BaseException:
        return '?'
