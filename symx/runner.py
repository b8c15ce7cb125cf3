"""Drives the exploration of one property over all cores, replays
counterexamples on the real code, writes the evidence file."""
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from collections import deque

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
VENV = '/opt/venv/bin/python'
SITE = '/opt/venv/lib/python3.12/site-packages'


def log(*a):
    print(*a, flush=True)


def worker(conn, harness_name, seed):
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(6000)
    harness = importlib.import_module('props.' + harness_name)
    from symx import explore as X, values as V
    import resource
    soft = 3 * 1024 ** 3
    try:
        resource.setrlimit(resource.RLIMIT_AS, (soft * 2, soft * 2))
    except (ValueError, OSError):
        pass
    while True:
        task = conn.recv()
        if task is None:
            return
        tid, case, prefix, slice_s, rate = task
        try:
            out = X.explore(harness, case, prefix, slice_s, lambda n: rate if n > 1 else max(rate, 0.5), seed)
        except BaseException as e:
            import traceback
            out = {'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc(limit=-12)}
        out['tid'] = tid
        try:
            conn.send(out)
        except Exception as e:
            conn.send({'error': 'send: %s' % e, 'tb': '', 'tid': tid})
        if len(V._pins) > 400000:
            for d in (V._eq_memo, V._and_memo, V._or_memo, V._rng_memo):
                d.clear()
            del V._pins[:]


class Result(object):
    pass


def build_cfog(mem=False):
    """Fresh build of the Cython extension from /repo's current sources, in a
    scratch directory (replays run the real compiled code)."""
    d = tempfile.mkdtemp(prefix='symx-cfog-')
    shutil.copytree(os.path.join(REPO, 'cfog'), os.path.join(d, 'cfog'),
                    ignore=shutil.ignore_patterns('*.so', '*.c', '__pycache__', 'build'))
    pyx = [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith('.pyx')]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    inc = subprocess.run([VENV, '-c', 'import sysconfig;print(sysconfig.get_path("include"));'
                          'print(sysconfig.get_config_var("EXT_SUFFIX"))'],
                         capture_output=True, text=True).stdout.split('\n')
    for p in pyx:
        r = subprocess.run([VENV, '-m', 'cython', p], capture_output=True, text=True, env=env, cwd=d)
        if r.returncode:
            return d, 'cython failed: ' + r.stderr[-800:]
        c = p[:-4] + '.c'
        extra = ['-g', '-fsanitize=address', '-include', os.path.join(VERIF, 'symx', 'memshim.h')] if mem else []
        r = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w'] + extra +
                           ['-I' + inc[0].strip(), c, '-o', p[:-4] + inc[1].strip()],
                           capture_output=True, text=True)
        if r.returncode:
            return d, 'gcc failed: ' + r.stderr[-800:]
    return d, None


def replay(harness_name, jobs, cfog=None, timeout=10, total=None, mem=False):
    """Run concrete jobs on the real code; list of results (None: no result)."""
    results = []
    jobs = list(jobs)
    start = time.time()
    while len(results) < len(jobs):
        rest = jobs[len(results):]
        fd, path = tempfile.mkstemp(prefix='symx-replay-', suffix='.json')
        with os.fdopen(fd, 'w') as f:
            json.dump({'harness': harness_name, 'repo': REPO, 'cfog': cfog, 'jobs': rest, 'timeout': timeout}, f)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MALLOC_PERTURB_='85')
        if mem:
            asan = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
            env.update(LD_PRELOAD=asan, PYTHONMALLOC='malloc', ASAN_OPTIONS='detect_leaks=0')
            env.pop('MALLOC_PERTURB_')
        limit = (total or 60) + timeout + 5
        try:
            p = subprocess.run([VENV, '-m', 'symx.replay_child', path], cwd=VERIF, env=env,
                               capture_output=True, text=True, timeout=limit)
            so, code, se = p.stdout, p.returncode, p.stderr
        except subprocess.TimeoutExpired as e:
            so = e.stdout or b''
            so = so.decode() if isinstance(so, bytes) else so
            code, se = None, ''
        finally:
            os.unlink(path)
        got = [json.loads(l[2:]) for l in so.split('\n') if l.startswith('@@')]
        results.extend(got)
        if len(got) < len(rest):
            # the job after the last answer crashed or hung the process
            if code is None:
                results.append({'status': 'violation', 'msg': 'replay process hung', 'observed': [], 'checks': 0})
            elif 'AddressSanitizer' in (se or ''):
                i = se.index('AddressSanitizer')
                results.append({'status': 'violation', 'msg': se[i:i + 200], 'observed': [], 'checks': 0})
            elif code < 0:
                results.append({'status': 'violation', 'msg': 'replay process killed by signal %d' % -code,
                                'observed': [], 'checks': 0})
            else:
                results.append({'status': 'error', 'msg': (se or '')[-1500:], 'observed': [], 'checks': 0})
                if not got:
                    # import failure: same for all
                    results.extend([results[-1]] * (len(jobs) - len(results)))
        if time.time() - start > 4 * limit:
            break
    return results[:len(jobs)]


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as f:
            return [k for k in json.load(f).get('findings', []) if k['property'] == prop]
    except FileNotFoundError:
        return []


def match_known(known, v):
    for k in known:
        ok = all(v['values'].get(n) == x for n, x in k.get('values', {}).items()) and \
            all(v['case'].get(n) == x for n, x in k.get('case', {}).items())
        if ok and (not k.get('msg') or k['msg'] in v['msg']):
            return k
    return None


def histories(cases, per_case, bad, n, seed, big, skip):
    """Pairs of explored cases to run one after the other on one path: state
    that one call leaves behind must not change what the next one does."""
    rng = random.Random('history/%s' % seed)
    bad = bad | set(i for i in per_case if skip(cases[i]))
    size = {i: p for i, (p, a) in per_case.items() if a and 0 < p <= 60 and i not in bad}
    idx = sorted(size)
    if not idx:
        return []

    def near(i, limit):
        """cases most alike i, other than i"""
        best, k = [], -1
        a = cases[i]
        for j in rng.sample(idx, min(len(idx), 60)):
            if j == i or size[i] * size[j] > limit:
                continue
            s = sum(1 for x in a if x in cases[j] and cases[j][x] == a[x])
            if s > k:
                best, k = [j], s
            elif s == k:
                best.append(j)
        return rng.choice(best) if best else None
    out, seen = [], set()
    for t in range(8 * n):
        if len(out) >= n:
            break
        mode, limit = (('data', 900), ('other', 250))[t % 2]
        i = rng.choice(idx)
        j = i if t % 6 < 2 else near(i, limit)
        if j is None or size[i] * size[j] > limit or (i, j, mode) in seen:
            continue
        seen.add((i, j, mode))
        out.append({'history': [cases[i], cases[j]], 'mode': mode})
    many = sorted(i for i, (p, a) in per_case.items() if a and min(8, big // 4) < p <= big and i not in bad) or idx
    for k, i in enumerate(rng.sample(many, min(len(many), n // 2))):
        out.append({'history': [cases[i]], 'mode': ('suspended', 'nested')[k % 2]})
    return out


def main(prop, tier, seed, budget=None, jobs=None, verbose=False, only=None):
    t0 = time.time()
    harness_name = prop.lower()
    sys.path.insert(0, VERIF)
    os.environ['PYTHONHASHSEED'] = '0'
    from symx import instrument
    instrument.install(REPO, SITE)
    evidence = os.path.join(VERIF, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    try:
        harness = importlib.import_module('props.' + harness_name)
        if hasattr(harness, 'preload'):
            harness.preload()
    except Exception as e:
        import traceback
        traceback.print_exc()
        log('warning: the code under test could not be imported: %s' % e)
        harness = importlib.import_module('props.' + harness_name)
    cases = list(harness.cases(tier))
    if only:
        cases = [c for c in cases if all(str(c.get(k)).replace(' ', '') == v for k, v in (o.split('=', 1) for o in only))]
    budget = budget or getattr(harness, 'BUDGET', {}).get(tier) or (420 if tier == 'quick' else 3300)
    known = load_known(prop)
    njobs = jobs or min(8, os.cpu_count() or 2)
    mpc = mp.get_context('fork')
    procs = []
    for _ in range(njobs):
        a, b = mpc.Pipe()
        p = mpc.Process(target=worker, args=(b, harness_name, seed), daemon=True)
        p.start()
        b.close()
        procs.append([p, a, None])
    cfog_dir = cfog_err = None
    cfog_proc = None
    mem = getattr(harness, 'MEM', False)
    if getattr(harness, 'NEEDS_CFOG', False):
        cfog_dir, cfog_err = build_cfog(mem)
        if cfog_err:
            log('warning:', cfog_err)
    order = list(range(len(cases)))
    tasks = deque((i, []) for i in order)
    rng = random.Random(seed)
    tot = {}
    functions = set()
    cuts = {}
    samples = []
    per_case = {}
    secs = {}
    errors = []
    violation = None
    unreproduced = []
    known_hit = {}
    replays = 0
    stop = False
    tid = 0
    rate = getattr(harness, 'SAMPLE', 0.05)
    ntasks = 0
    want = getattr(harness, 'VALIDATE', 120)
    seen_unrep = {}
    bad = set()
    t_main = None

    def absorb(out, case_i):
        nonlocal violation, stop, replays
        if 'error' in out:
            errors.append((cases[case_i], out['error'], out.get('tb')))
            bad.add(case_i)
            return
        st = out['stats']
        for k, v in st.items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
        functions.update(st['functions'])
        for k, v in st['cuts'].items():
            cuts[k] = cuts.get(k, 0) + v
        pc = per_case.setdefault(case_i, [0, 0])
        secs[case_i] = secs.get(case_i, 0) + out.get('secs', 0)
        pc[0] += st['paths'] - st['pruned']
        pc[1] += st['asserts']
        for s in out['samples']:
            if len(samples) < want * 6:
                samples.append(s)
            else:
                samples[rng.randrange(len(samples))] = s
        for v in out['violations']:
            if violation is not None:
                return
            bad.add(case_i)
            sig = (v['msg'].split('(')[0][:60], case_i)
            if seen_unrep.get(sig, 0) >= 4:
                tot['unsupported'] = tot.get('unsupported', 0) + 1
                continue
            r = replay(harness_name, [{'case': v['case'], 'values': v['values']}], cfog_dir,
                       timeout=getattr(harness, 'REPLAY_TIMEOUT', 10), mem=mem)
            replays += 1
            r = r[0] if r else {'status': 'error', 'msg': 'no answer'}
            if r['status'] == 'violation':
                v['real'] = r
                k = match_known(known, v)
                if k:
                    known_hit[k['id']] = k
                    continue
                violation = v
                stop = True
            else:
                seen_unrep[sig] = seen_unrep.get(sig, 0) + 1
                v['real'] = r
                unreproduced.append(v)

    active = 0
    nhist = 0
    phase = 0 if only or not getattr(harness, 'HISTORY', True) else 1
    deadline = t0 + budget
    timed_out = False
    first_tb = None
    while tasks or active or phase:
        if phase and not (tasks or active):
            phase = 0
            hs = histories(cases, per_case, bad, 36 if tier == 'quick' else 200, seed,
                           getattr(harness, 'INTERLEAVED', 500), getattr(harness, 'NO_HISTORY', lambda c: False))
            nhist = len(hs)
            tasks.extend((len(cases) + k, []) for k in range(nhist))
            cases.extend(hs)
            t_main = time.time()
            continue
        now = time.time()
        if now > deadline:
            timed_out = bool(tasks or active)
            break
        if stop:
            break
        for pr in procs:
            if pr[2] is None and tasks and pr[0].is_alive():
                ci, prefix = tasks.popleft()
                sl = 0.6 if len(tasks) < njobs * 4 else 4.0
                pr[1].send((tid, cases[ci], prefix, sl, rate))
                pr[2] = (ci, prefix)
                tid += 1
                active += 1
        ready = mp.connection.wait([pr[1] for pr in procs if pr[2] is not None], timeout=1.0)
        for pr in procs:
            if pr[1] in ready:
                ci, prefix = pr[2]
                try:
                    out = pr[1].recv()
                except (EOFError, OSError):
                    out = {'error': 'worker died', 'tb': ''}
                    a, b = mpc.Pipe()
                    p = mpc.Process(target=worker, args=(b, harness_name, seed), daemon=True)
                    p.start()
                    b.close()
                    pr[0], pr[1] = p, a
                pr[2] = None
                active -= 1
                ntasks += 1
                for lp in out.get('leftover', []):
                    tasks.appendleft((ci, lp)) if len(tasks) > 200 else tasks.append((ci, lp))
                absorb(out, ci)
                if stop:
                    break
    remaining = len(tasks) + active
    for pr in procs:
        pr[0].kill()
    # -- validation of sampled paths against the real code
    validated = 0
    mismatches = []
    val_violation = None
    if violation is None and samples:
        rng.shuffle(samples)
        pick = samples[:want]
        res = replay(harness_name, pick, cfog_dir, timeout=getattr(harness, 'REPLAY_TIMEOUT', 10), mem=mem)
        from symx.ctx import same_obs
        for s, r in zip(pick, res):
            if r['status'] == 'violation':
                s['msg'] = 'on a sampled path: ' + r.get('msg', '')
                s['real'] = r
                if match_known(known, s):
                    continue
                val_violation = val_violation or s
            elif r['status'] == 'ok' and (not s['observed'] or same_obs(s['observed'], r['observed'])):
                validated += 1
            else:
                mismatches.append((s, r))
    if violation is None and val_violation is not None:
        violation = val_violation
    if cfog_dir:
        shutil.rmtree(cfog_dir, ignore_errors=True)
    wall = time.time() - t0
    vacuous = [cases[i] for i, (a, b) in per_case.items() if b == 0]
    exhaustive = not (timed_out or errors or unreproduced or cuts.get('solver unknown') or
                      tot.get('unknown') or any('concretised' in c for c in cuts) or tot.get('unsupported'))
    if violation is not None:
        exhaustive = False
    cov = {
        'states': int(tot.get('paths', 0)),
        'transitions': int(tot.get('decisions', 0)),
        'traces_validated_against_impl': validated,
        'samples': [{'case': s['case'], 'inputs': s['values'], 'observed': s.get('observed')} for s in samples[:5]],
        'exhaustive': bool(exhaustive),
        'cases': len(cases) - nhist,
        'two_call_histories': nhist,
        'paths_infeasible': int(tot.get('pruned', 0)),
        'forks': int(tot.get('forks', 0)),
        'branches_decided_one_way': int(tot.get('forced', 0)),
        'solver_queries': int(tot.get('queries', 0)),
        'solver_seconds': round(tot.get('solver_s', 0.0), 2),
        'solver_unknown': int(tot.get('unknown', 0)),
        'assertions_evaluated': int(tot.get('asserts', 0)),
        'assertions_discharged_by_solver': int(tot.get('asserts_solver', 0)),
        'values_concretised': int(tot.get('concretised', 0)),
        'paths_outside_bounds': cuts,
        'counterexamples_replayed': replays,
        'counterexamples_not_reproduced': len(unreproduced),
        'engine_errors': len(errors),
        'sample_mismatches': len(mismatches),
        'tasks_left_at_deadline': remaining if timed_out else 0,
        'functions_encoded': sorted(f for f in functions),
        'bounds': harness.BOUNDS if isinstance(harness.BOUNDS, str) else harness.BOUNDS[tier],
        'method': 'symbolic execution of the instrumented current sources of /repo; every branch and every '
                  'assertion decided by z3 over all inputs within the bounds; counterexamples replayed on the real code',
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': list(getattr(harness, 'ASSUMPTIONS', [])), 'wall_s': round(wall, 2),
          'violations': 1 if violation else 0}
    with open(evidence, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    log('%s %s: %d cases, %d paths, %d decisions, %d queries, solver %.1fs, wall %.1fs, exhaustive=%s, validated=%d'
        % (prop, tier, len(cases) - nhist, cov['states'], cov['transitions'], cov['solver_queries'],
           cov['solver_seconds'], wall, exhaustive, validated))
    if t_main:
        log('%d histories of two calls, in %.1fs' % (nhist, t0 + wall - t_main))
    if verbose:
        for i in sorted(secs, key=lambda i: -secs[i])[:15]:
            log('  %.1fs %d paths %s' % (secs[i], per_case[i][0], cases[i]))
    if cuts:
        log('outside bounds:', cuts)
    if timed_out:
        log('warning: time budget reached with %d subtrees unexplored' % remaining)
    for c, e, tb in errors[:3]:
        log('warning: engine error on %s: %s' % (c, e))
        log(tb or '')
    for v in unreproduced[:2]:
        log('warning: not reproduced on the real code (inconclusive path): %s on %s %s -> %s' %
            (v['msg'], v['case'], v['values'], v['real']))
        if v.get('tb'):
            log(v['tb'][-1200:])
    for s, r in mismatches[:3]:
        log('warning: sampled path disagrees with the real code: %s vs %s' % (s, r))
    if vacuous and violation is None:
        log('warning: no assertion reached in cases', vacuous[:3])
    for k in known_hit.values():
        log('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if violation is not None:
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, prop + '.json')
        with open(path, 'w') as f:
            json.dump({'harness': harness_name, 'property': prop, 'case': violation['case'],
                       'values': violation['values'], 'message': violation['msg'],
                       'real': violation.get('real'),
                       'how': 'cd /verif && python3-vt check.py --replay %s' % path}, f, indent=1)
        log('counterexample: %s' % violation['msg'])
        log('  case %s inputs %s' % (violation['case'], violation['values']))
        log('  real code: %s' % violation['real'].get('msg'))
        log('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0
