"""check runner: python -m symx.run <PROPERTY> [quick|thorough]"""
import glob
import hashlib
import importlib.util
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/bin/python'
NPROC = int(os.environ.get('VERIF_JOBS', '8'))


def load_plain(modname):
    """The harness module, imported natively for its configuration only."""
    sys.path.insert(0, VERIF)
    return importlib.import_module(modname)


def replay(jobs, limit=20):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    out = []
    for i in range(0, len(jobs), 20):
        part = [dict(j, limit=limit) for j in jobs[i:i + 20]]
        p = subprocess.run([VENV, os.path.join(VERIF, 'symx', 'replay.py'), '--batch'],
                           input=json.dumps(part), capture_output=True, text=True,
                           env=env, timeout=60 + limit * len(part))
        if p.returncode != 0:
            raise RuntimeError('replay failed: ' + p.stderr[-2000:])
        out += json.loads(p.stdout)
    return out


def close(a, b, tol=0.02):
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= tol + 1e-6 * max(abs(a), abs(b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k], tol) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    return a == b


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                d = {}
                body = line[len('finding:'):]
                head, _, text = body.partition(' :: ')
                for w in head.split():
                    if '=' in w:
                        k, v = w.split('=', 1)
                        d[k] = v
                d['text'] = text
                out.append(d)
    return out


def match_known(kf, prop, v):
    slug = slugify(v['msg'])
    for d in kf:
        if d.get('property') == prop and d.get('check') == slug and \
                d.get('harness', v['harness']) == v['harness'] and \
                d.get('cfg', v['cfgkey']) == v['cfgkey']:
            return d
    return None


def slugify(s):
    return ''.join(c if c.isalnum() else '-' for c in s.lower()).strip('-')[:80]


def cfgkey(cfg):
    return ','.join('%s=%s' % (k, cfg[k]) for k in sorted(cfg)).replace(' ', '')


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    only = argv[2] if len(argv) > 2 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    modname = 'verif_h.' + prop.lower()
    mod = load_plain(modname)
    budget = float(os.environ.get('VERIF_BUDGET') or mod.BUDGET[tier])
    deadline = t0 + budget
    configs = mod.configs(tier)
    if only:
        configs = [c for c in configs if c[0] == only or only in cfgkey(c[1])]
    for n in [m for m in sys.modules if m.startswith('verif_')]:
        del sys.modules[n]

    kf = known_findings()
    state = {}
    queue = []
    for i, (fname, cfg) in enumerate(configs):
        state[i] = {'harness': fname, 'cfg': cfg, 'pending': 0, 'left': [], 'paths': 0, 'done': False,
                    'discharged': 0, 'checks': 0, 'slices': 0, 'witnesses': [], 't': 0.0}
        queue.append((i, [[]]))
    tot = {}
    functions = set()
    notes = {}
    confirmed = None
    known_hits = {}
    unconfirmed = []
    limits = []
    internal = []
    ctxm = mp.get_context('fork')
    pool = ctxm.Pool(NPROC, maxtasksperchild=None)
    running = []
    per_cfg_quota = max(2, int((60 if tier == 'quick' else 300) / max(1, len(configs))))
    seen_viol = set()

    def submit(i, prefixes):
        st = state[i]
        st['pending'] += 1
        st['slices'] += 1
        task = {'id': i, 'module': modname, 'harness': st['harness'], 'cfg': st['cfg'],
                'prefixes': prefixes, 'seed': seed, 'slice': st['slices'],
                'slice_s': min(max(0.5, deadline - time.time()), 1.5 if st['slices'] < 4 else 6.0),
                'path_timeout': getattr(mod, 'PATH_TIMEOUT', 60),
                'witness_quota': 2 if len(st['witnesses']) < per_cfg_quota else 0,
                'qt': getattr(mod, 'QUERY_TIMEOUT', 8000)}
        running.append((i, pool.apply_async(run_slice, (task,))))

    try:
        while (queue or running) and confirmed is None:
            now = time.time()
            while queue and len(running) < NPROC and now < deadline:
                i, pre = queue.pop(0)
                submit(i, pre)
            if now >= deadline and not running:
                break
            progressed = False
            for item in list(running):
                i, r = item
                if not r.ready():
                    if now > deadline + getattr(mod, 'PATH_TIMEOUT', 60) + 30:
                        running.remove(item)
                        notes['slice lost at the deadline'] = notes.get('slice lost at the deadline', 0) + 1
                    continue
                running.remove(item)
                progressed = True
                st = state[i]
                try:
                    res = r.get()
                except Exception as ex:
                    st['pending'] -= 1
                    internal.append('%s %s: %r' % (st['harness'], st['cfg'], ex))
                    continue
                st['pending'] -= 1
                s = res['stats']
                for k, v in s.items():
                    if k == 'functions':
                        functions.update(v)
                    elif k == 'notes':
                        for n, c in v.items():
                            notes[n] = notes.get(n, 0) + c
                    else:
                        tot[k] = tot.get(k, 0) + v
                st['paths'] += s['paths']
                st['t'] += res['t']
                st['checks'] += s['discharged'] + s['folded']
                st['discharged'] += s['discharged']
                st['witnesses'] += res['witnesses']
                left = res['left']
                # replay what the solver found
                for v in res['violations']:
                    v['harness'] = st['harness']
                    v['cfgkey'] = cfgkey(st['cfg'])
                    sig = (v['harness'], v['cfgkey'], v['msg'])
                    if sig in seen_viol:
                        continue
                    jobs = [{'module': modname, 'harness': st['harness'], 'cfg': st['cfg'], 'inputs': inp}
                            for inp in v['inputs']]
                    rs = replay(jobs)
                    hit = None
                    for j, rr in zip(jobs, rs):
                        if rr['status'] in ('fail', 'exception', 'timeout'):
                            hit = (j, rr)
                            break
                    if hit is None:
                        if v.get('kind') in ('exception', 'timeout') or v.get('incomplete'):
                            limits.append({'harness': st['harness'], 'cfg': st['cfg'], 'msg': v['msg'], 'detail': v['detail']})
                        else:
                            unconfirmed.append({'harness': st['harness'], 'cfg': st['cfg'], 'msg': v['msg'],
                                                'detail': v['detail'], 'inputs': v['inputs'][:1]})
                        continue
                    j, rr = hit
                    vv = dict(v, msg=rr.get('msg') or rr['status'])
                    d = match_known(kf, prop, vv)
                    if d is not None:
                        known_hits[d['check'] + d.get('cfg', '')] = d
                        seen_viol.add(sig)
                        continue
                    confirmed = (j, rr, v)
                    break
                if confirmed:
                    break
                if left:
                    # split what is left over the idle workers
                    free = max(1, NPROC - len(running) - len(queue))
                    n = max(1, min(len(left), free))
                    for k in range(n):
                        queue.append((i, left[k::n]))
            if not progressed:
                time.sleep(0.01)
    finally:
        if confirmed or time.time() > deadline + 5:
            pool.terminate()
        else:
            pool.close()
            pool.terminate()
        pool.join()

    pending = sum(len(p) for _, p in queue) + len(running)

    # witnesses of explored paths, run against the real code
    validated = mismatch = 0
    rnd = random.Random(seed)
    wit = []
    for i, st in state.items():
        for w in st['witnesses']:
            wit.append((i, w))
    rnd.shuffle(wit)
    maxw = getattr(mod, 'WITNESSES', {}).get(tier, 80 if tier == 'quick' else 600)
    samples = []
    if confirmed is None and wit:
        wit = wit[:maxw]
        jobs = [{'module': modname, 'harness': state[i]['harness'], 'cfg': state[i]['cfg'], 'inputs': w['inputs']} for i, w in wit]
        nb = 1 if len(jobs) < 16 else 4
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(nb) as ex:
            parts = list(ex.map(lambda k: replay(jobs[k::nb]), range(nb)))
        results = [None] * len(jobs)
        for k in range(nb):
            results[k::nb] = parts[k]
        for (i, w), j, rr in zip(wit, jobs, results):
            if rr['status'] in ('fail', 'exception', 'timeout'):
                vv = {'msg': rr.get('msg') or rr['status'], 'harness': j['harness'], 'cfgkey': cfgkey(j['cfg'])}
                d = match_known(kf, prop, vv)
                if d is not None:
                    known_hits[d['check'] + d.get('cfg', '')] = d
                    continue
                if confirmed is None:
                    confirmed = (j, rr, {'msg': rr.get('msg') or rr['status'], 'detail': 'found while replaying a path witness'})
                continue
            if rr['status'] == 'skip':
                mismatch += 1
                continue
            if close(w['obs'], rr['obs']):
                validated += 1
                if len(samples) < 5:
                    samples.append({'harness': j['harness'], 'cfg': j['cfg'], 'inputs': w['inputs'],
                                    'observed': json.loads(json.dumps(rr['obs']))if len(json.dumps(rr['obs'])) < 3000 else 'long'})
            elif w['robust']:
                mismatch += 1
                if os.environ.get('VERIF_DEBUG'):
                    print('MISMATCH', j, '\n sym ', w['obs'], '\n real', rr['obs'])
    vacuous = []
    if confirmed is None and pending == 0:
        for i, st in state.items():
            if st['checks'] == 0 and st['paths'] > 0 or st['paths'] == 0:
                vacuous.append('%s(%s)' % (st['harness'], cfgkey(st['cfg'])))

    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot.get('states', 0) + tot.get('paths', 0),
            'transitions': tot.get('transitions', 0),
            'traces_validated_against_impl': validated,
            'samples': samples or ['no witness sampled'],
            'exhaustive': bool(pending == 0 and not tot.get('unknown') and not tot.get('incomplete') and not limits),
            'paths': tot.get('paths', 0),
            'paths_infeasible': tot.get('infeasible', 0),
            'paths_unexplored_prefixes': pending,
            'paths_with_fixed_values': tot.get('incomplete', 0),
            'queries': tot.get('queries', 0),
            'queries_unknown': tot.get('unknown', 0),
            'checks_discharged_by_solver': tot.get('discharged', 0),
            'checks_decided_by_folding': tot.get('folded', 0),
            'solver_s': round(tot.get('solver_s', 0.0), 2),
            'witness_mismatches': mismatch,
            'functions_encoded': sorted(functions),
            'bounds': mod.BOUNDS,
            'configurations': [{'harness': st['harness'], 'cfg': st['cfg'], 'paths': st['paths'],
                                'checks': st['checks'], 'cpu_s': round(st['t'], 1)} for st in state.values()],
            'notes': notes,
            'engine_limits': limits[:5],
            'unconfirmed': unconfirmed[:5],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + GENERAL_ASSUMPTIONS,
        'wall_s': round(wall, 2),
        'violations': 1 if confirmed else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d paths, %d states, %d queries (%.1fs solver), %d checks by solver + %d folded, '
          '%d witnesses validated, %d mismatches, %d prefixes unexplored, %.1fs' % (
              prop, tier, tot.get('paths', 0), tot.get('states', 0), tot.get('queries', 0),
              tot.get('solver_s', 0), tot.get('discharged', 0), tot.get('folded', 0), validated,
              mismatch, pending, wall))
    for n, c in sorted(notes.items()):
        print('NOTE: %s (%d)' % (n, c))
    for x in limits[:3]:
        print('NOTE: engine limit in %s %s: %s %s' % (x['harness'], x['cfg'], x['msg'], (x['detail'] or '')[:600]))
    for d in kf:
        if d.get('property') == prop:
            if d['check'] + d.get('cfg', '') in known_hits:
                print('KNOWN-FINDING: property=%s %s' % (prop, d['text']))
    if confirmed:
        j, rr, v = confirmed
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        h = hashlib.sha1(json.dumps(j, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, h))
        with open(path, 'w') as f:
            json.dump(dict(j, property=prop, msg=rr.get('msg') or rr['status'], detail=rr.get('detail'),
                           replay_with='%s %s/symx/replay.py %s' % (VENV, VERIF, path)), f, indent=1)
        print('FAILED: %s' % (rr.get('msg') or rr['status']))
        print('  harness %s %s' % (j['harness'], j['cfg']))
        print('  inputs %s' % json.dumps(j['inputs'])[:1500])
        if rr.get('detail'):
            print('  detail %s' % str(rr['detail'])[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if internal:
        print('ERROR: the executor failed: %s' % internal[0][:1500])
        return 2
    for x in unconfirmed[:3]:
        print('NOTE: counterexample that the real code does not reproduce, discarded: %s' % json.dumps(x, default=str)[:1500])
    if unconfirmed and os.environ.get('VERIF_STRICT'):
        print('ERROR: counterexample that the real code does not reproduce: %s' % json.dumps(unconfirmed[0], default=str)[:2000])
        return 2
    if vacuous:
        print('ERROR: no check reached in %s' % ', '.join(vacuous[:5]))
        return 2
    return 0


GENERAL_ASSUMPTIONS = [
    'Python floats are treated as exact reals; geometric assertions carry a tolerance larger than the rounding of the output',
    'round(x, n) is any real within half a unit of the n-th decimal of x',
    'the symbolic executor (AST rewriting, models of builtins and of the re/json/struct/zlib functions used) is trusted; it is validated on every run by replaying path witnesses on the unmodified code',
    'zlib.compress/decompress are inverse to each other; uuid4 returns distinct values',
]


from symx.worker import run_slice   # noqa: E402

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
