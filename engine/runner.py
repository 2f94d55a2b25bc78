"""Runs the jobs of one property: symbolic exploration with solver-decided obligations, native
replay of counterexamples, native validation of the encoding on solver-chosen inputs, evidence."""
import hashlib, importlib.util, json, multiprocessing as mp, os, random, subprocess, sys, time, traceback
import z3
from . import core, rt, loader, strs, coll, dt, sched
from .core import (SymInt, SymBool, SymRat, Control, PathPruned, PathStop, Incomplete, EngineError, Explorer)
from .strs import SymStr, SymBytes, SBytearray
from .loader import World, CheckFailed

VERIF = loader.VERIF
PY = sys.executable


# ---------------------------------------------------------------- canonical values
def canon(v, model=None):
    """JSON-able canonical form of a value (evaluated under the model when symbolic)"""
    if isinstance(v, SymBool):
        return bool(z3.is_true(model.eval(v.e, model_completion=True)))
    if isinstance(v, SymInt):
        return model.eval(v.e, model_completion=True).as_signed_long()
    if isinstance(v, SymRat):
        n = canon(v.n, model)
        return float(n) / v.d
    if isinstance(v, SymStr):
        return 's:' + ''.join('%x.' % canon(c, model) for c in v.c)
    if isinstance(v, str):
        return 's:' + ''.join('%x.' % ord(c) for c in v)
    if isinstance(v, (SymBytes, SBytearray)):
        return 'b:' + ''.join('%02x' % canon(c, model) for c in v.b)
    if isinstance(v, (bytes, bytearray)):
        return 'b:' + ''.join('%02x' % c for c in v)
    if v is None or isinstance(v, (bool, int)):
        return v
    if isinstance(v, float):
        return v
    if isinstance(v, (list, tuple)):
        return [canon(x, model) for x in v]
    if isinstance(v, coll.SDict):
        r = [[canon(k, model), canon(x, model)] for k, x in v.items()]
        return ['dict'] + sorted(r, key=repr)
    if isinstance(v, dict):
        return ['dict'] + sorted([[canon(k, model), canon(x, model)] for k, x in v.items()], key=repr)
    if isinstance(v, dt.datetime) or type(v).__name__ == 'datetime':
        return ['datetime'] + [canon(getattr(v, f), model) for f in ('year', 'month', 'day', 'hour', 'minute', 'second')]
    if isinstance(v, dt.timedelta) or type(v).__name__ == 'timedelta':
        return ['timedelta', canon(v.days, model), canon(v.seconds, model), canon(v.microseconds, model)]
    if isinstance(v, BaseException):
        return 'exc:' + type(v).__name__
    return 'obj:' + type(v).__name__


def norm_num(x):
    if isinstance(x, float) and x.is_integer():
        return int(x)
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, list):
        return [norm_num(y) for y in x]
    return x


# ---------------------------------------------------------------- native execution
def native_run(modname, func, params, values):
    """Runs the job on the unmodified code; returns (status, detail, observed, checks)"""
    w = World(False, values)
    w.shims['vlib'].params = params
    status, detail = 'ok', ''
    try:
        m = w.load(modname)
        getattr(m, func)(dict(params))
    except CheckFailed as e:
        status, detail = 'failed', str(e)
    except PathPruned:
        status = 'pruned'
    except PathStop:
        pass
    except sched.Deadlock as e:
        status, detail = 'failed', 'deadlock: %s' % e
    except Exception as e:
        status, detail = 'failed', 'uncaught %s' % _exc_name(e)
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    finally:
        try:
            w.sched.kill_all()
        except Exception:
            pass
    return status, detail, [(n, canon(v)) for n, v in w.observed], w.checks


def _exc_name(e):
    return type(e).__name__


# ---------------------------------------------------------------- symbolic job
def run_job(modname, func, params, opts):
    """Explores one job.  Returns a plain dict."""
    seed = opts.get('seed', 1)
    z3.set_param('smt.random_seed', 0)
    ex = Explorer(max_seconds=opts.get('seconds', 1e9), solver_timeout_ms=opts.get('solver_ms', 60000),
                  stop_after=opts.get('stop_after', 3))
    ex.engine_error = False
    rng = random.Random(seed * 7919 + 13)
    funcs = set()
    cur = {}
    res = {'job': func, 'params': params, 'validated': 0, 'mismatch': [], 'samples': [], 'native_fail': []}
    vmax = opts.get('validate', 40)
    seen = [0]

    def one():
        rt.TICKS = 0
        rt.FUNCS = funcs_path = set()
        w = World(True)
        cur['w'] = w
        w.shims['vlib'].params = params
        try:
            m = w.load(modname)
            getattr(m, func)(dict(params))
        except sched.Deadlock as e:
            ex.report_here('deadlock: %s' % e, 'uncaught')
        except rt.NonTermination as e:
            ex.report_here('non-termination: %s' % e, 'nonterm')
        finally:
            funcs.update(funcs_path)
            ex_dead = ex.dead
            ex.dead = True
            try:
                w.sched.kill_all()
            finally:
                ex.dead = ex_dead

    def report_here(msg, kind):
        ex._guard()
        if ex.pos < len(ex.trail):
            raise EngineError('non-deterministic re-execution (report)')
        ex.report(ex.model, msg, kind)
    ex.report_here = report_here

    def on_end(e):
        seen[0] += 1
        # reservoir style: always the first few, then a thinning sample
        if res['validated'] < vmax and (seen[0] <= vmax // 2 or rng.random() < 0.05):
            inp = e.inputs(e.model)
            obs = [(n, canon(v, e.model)) for n, v in cur['w'].observed]
            st, det, nobs, checks = native_run(modname, func, params, inp)
            res['validated'] += 1
            if st == 'failed':
                if not any(v['msg'] == det for v in e.violations):
                    res['native_fail'].append({'msg': det, 'inputs': inp, 'kind': 'native'})
            elif [[n, norm_num(v)] for n, v in obs] != [[n, norm_num(v)] for n, v in nobs]:
                res['mismatch'].append({'inputs': inp, 'sym': obs, 'native': nobs, 'status': st})
            if len(res['samples']) < 2:
                res['samples'].append({'inputs': inp, 'observed': nobs[:12]})

    def on_exception(e, exc):
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exception(exc)
        if e.violations and e.violations[-1].get('pathid') == e.paths:
            return
        e.report(e.model, 'uncaught %s' % _exc_name(exc), 'uncaught')

    t = time.time()
    try:
        complete = ex.run(one, on_end, on_exception)
    except Exception as e:
        complete = False
        ex.engine_error = True
        ex.incomplete_reason = 'engine crash: %s' % ''.join(traceback.format_exception(e))[-3000:]
    stopped = bool(ex.incomplete_reason and ex.incomplete_reason.startswith('stopped after'))
    res.update(complete=bool(complete), reason=ex.incomplete_reason, engine_error=ex.engine_error,
               paths=ex.paths, pruned=ex.pruned, branches=ex.branches, forced=ex.forced, queries=ex.queries,
               solver_s=round(ex.solver_s, 3), obligations=ex.obligations, trivial=ex.trivial,
               violations=ex.violations, known=ex.known, reached=ex.reached, functions=sorted(funcs),
               stopped=stopped, wall=round(time.time() - t, 3))
    return res


def _job_main(conn, modname, func, params, opts):
    try:
        import resource
        lim = opts.get('mem', 6 << 30)
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    try:
        r = run_job(modname, func, params, opts)
    except BaseException as e:
        r = {'job': func, 'params': params, 'crash': ''.join(traceback.format_exception(e))[-3000:]}
    try:
        conn.send(r)
        conn.close()
    except Exception as e:
        os._exit(3)
    os._exit(0)


# ---------------------------------------------------------------- orchestration
def load_harness(prop):
    w = World(False)
    name = 'harness.' + prop.lower()
    m = w.load(name)
    return name, m


def run_pool(tasks, workers, deadline):
    """tasks: list of (idx, modname, func, params, opts).  Each in its own process."""
    out = {}
    pending = list(tasks)
    running = []
    ctx = mp.get_context('fork')
    while pending or running:
        while pending and len(running) < workers:
            left = deadline - time.time()
            idx, modname, func, params, opts = pending.pop(0)
            if left <= 1:
                out[idx] = {'job': func, 'params': params, 'notrun': True}
                continue
            opts = dict(opts)
            opts['seconds'] = min(opts.get('seconds', 1e9), left)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_job_main, args=(b, modname, func, params, opts))
            p.start()
            b.close()
            running.append((idx, p, a, func, params, time.time(), opts))
        if not running:
            continue
        ready = mp.connection.wait([r[2] for r in running], timeout=1.0)
        nr = []
        for r in running:
            idx, p, a, func, params, t0, opts = r
            if a in ready:
                try:
                    out[idx] = a.recv()
                except EOFError:
                    out[idx] = {'job': func, 'params': params, 'crash': 'worker died'}
                a.close()
                p.join(10)
                if p.is_alive():
                    p.kill()
            elif time.time() - t0 > opts['seconds'] + 45:
                p.kill()
                out[idx] = {'job': func, 'params': params, 'killed': True}
            else:
                nr.append(r)
        running = nr
    return [out[t[0]] for t in tasks]


def replay_native(path, timeout=90):
    """replay of a counterexample in a fresh interpreter"""
    env = dict(os.environ, PYTHONHASHSEED='0')
    try:
        p = subprocess.run([PY, os.path.join(VERIF, 'check.py'), '--replay', path], env=env, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def main_check(prop, tier, seed, only=None, workers=8, verbose=False, seconds=None):
    t0 = time.time()
    modname, m = load_harness(prop)
    jobs = m.jobs(tier)
    if only:
        jobs = [j for j in jobs if only in j[0]]
    budget = seconds or (getattr(m, 'BUDGET', {}).get(tier) or (420 if tier == 'quick' else 3000))
    tasks = []
    for i, j in enumerate(jobs):
        name, func, params = j[0], j[1], j[2]
        opts = {'seed': seed, 'seconds': budget}
        opts.update(j[3] if len(j) > 3 else {})
        tasks.append((i, modname, func, params, opts))
    results = run_pool(tasks, workers, t0 + budget)
    known_entries = [k for k in load_known() if k.get('property') == prop and k.get('status') == 'known']
    known_ids = {k['id'] for k in known_entries}

    violations, errors, known_hits, inconclusive = [], [], {}, []
    tot = dict(paths=0, pruned=0, branches=0, forced=0, queries=0, obligations=0, trivial=0, validated=0)
    solver_s = 0.0
    functions = set()
    samples = []
    reached = {}
    jobsum = []
    for (i, _, func, params, opts), r, j in zip(tasks, results, jobs):
        name = j[0]
        if 'crash' in r:
            errors.append('%s: %s' % (name, r['crash']))
            continue
        if r.get('notrun') or r.get('killed'):
            inconclusive.append('%s: %s' % (name, 'not run' if r.get('notrun') else 'killed after its time budget'))
            continue
        for k in tot:
            tot[k] += r[k]
        solver_s += r['solver_s']
        functions.update(r['functions'])
        for k, v in r['reached'].items():
            reached[k] = reached.get(k, 0) + v
        if r['engine_error']:
            errors.append('%s: %s' % (name, r['reason']))
        elif not r['complete'] and not r['stopped']:
            inconclusive.append('%s: %s' % (name, r['reason']))
        if r['mismatch']:
            errors.append('%s: encoding disagrees with the real code: %s' % (name, json.dumps(r['mismatch'][0])[:1500]))
        for v in r['violations'] + r['native_fail']:
            violations.append((name, func, params, v))
        for kid, msg, inp in r['known']:
            if kid in known_ids:
                known_hits.setdefault(kid, (name, func, params, msg, inp))
            else:
                violations.append((name, func, params, {'msg': msg, 'inputs': inp, 'kind': 'check'}))
        if r['complete'] and not [k for k in r['reached'] if not k.startswith('reach:')]:
            errors.append('%s: vacuous (no assertion reached)' % name)
        for s in r['samples'][:1]:
            if len(samples) < 8:
                samples.append(dict(job=name, **s))
        jobsum.append({'job': name, 'paths': r['paths'], 'queries': r['queries'], 'solver_s': r['solver_s'],
                       'obligations': r['obligations'], 'complete': r['complete'], 'wall_s': r['wall']})
        if verbose:
            print('  %-40s paths=%d pruned=%d queries=%d oblig=%d solver=%.1fs wall=%.1fs complete=%s val=%d viol=%d %s'
                  % (name, r['paths'], r['pruned'], r['queries'], r['obligations'], r['solver_s'], r['wall'],
                     r['complete'], r['validated'], len(r['violations']), r['reason'] or ''))
    expect = getattr(m, 'EXPECT', ())
    if not only and not violations:
        for e in expect:
            if not reached.get('reach:' + e):
                errors.append('reachability witness %r was not reached' % e)
    # ------------------------------------------------ replay of counterexamples
    confirmed = []
    unconfirmed = []
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    seen = set()
    for name, func, params, v in violations:
        key = (name, v['msg'])
        if key in seen or len(confirmed) >= 5:
            continue
        seen.add(key)
        data = {'property': prop, 'job': name, 'module': modname, 'func': func, 'params': params, 'msg': v['msg'],
                'kind': v['kind'], 'inputs': v['inputs']}
        h = hashlib.sha1(json.dumps(data, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, 'replays', '%s_%s.json' % (prop, h))
        with open(path, 'w') as f:
            json.dump(data, f, indent=1, sort_keys=True)
        rc, outp = replay_native(path)
        if rc == 1 or (rc == 'timeout' and v['kind'] == 'nonterm'):
            confirmed.append((path, name, v, outp))
        else:
            unconfirmed.append((path, name, v, rc, outp))
    # ------------------------------------------------ known findings
    for kid, (name, func, params, msg, inp) in sorted(known_hits.items()):
        e = [k for k in known_entries if k['id'] == kid][0]
        print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    # ------------------------------------------------ evidence
    complete = not inconclusive and not errors and not confirmed and not unconfirmed
    cov = {
        'states': tot['paths'], 'transitions': tot['branches'] + tot['forced'],
        'traces_validated_against_impl': tot['validated'], 'samples': samples or [{'note': 'no sample'}],
        'obligations': tot['obligations'], 'discharged': tot['obligations'] - len(violations) - len(known_hits),
        'queries': tot['queries'], 'solver_s': round(solver_s, 2),
        'paths_pruned_by_assumption': tot['pruned'],
        'functions_encoded': sorted(f for f in functions if not f.startswith('harness')),
        'bounds': getattr(m, 'BOUNDS', {}).get(tier) if isinstance(getattr(m, 'BOUNDS', None), dict) else getattr(m, 'BOUNDS', ''),
        'outside': getattr(m, 'OUTSIDE', ''),
        'jobs': jobsum, 'assertions_reached': {k: v for k, v in sorted(reached.items())},
        'exhaustive_within_bounds': complete, 'inconclusive': inconclusive, 'errors': errors[:5],
        'explanation': 'states = feasible symbolic paths, each covering every input value of its path condition; '
                       'transitions = symbolic branch decisions settled by the solver; traces_validated = solver-chosen '
                       'inputs executed on the unmodified code whose observations equalled the encoding\'s',
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': list(getattr(m, 'ASSUMPTIONS', [])), 'wall_s': round(time.time() - t0, 2),
          'violations': len(confirmed)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(VERIF, 'evidence', '%s.json' % prop), 'w') as f:
            json.dump(ev, f, indent=1)
    # ------------------------------------------------ verdict
    print('%s tier=%s jobs=%d paths=%d queries=%d obligations=%d solver=%.1fs wall=%.1fs validated=%d complete=%s'
          % (prop, tier, len(jobs), tot['paths'], tot['queries'], tot['obligations'], solver_s, time.time() - t0,
             tot['validated'], complete))
    for s in inconclusive:
        print('INCONCLUSIVE: %s' % s)
    if confirmed:
        for path, name, v, outp in confirmed:
            print('counterexample in job %s: %s inputs=%s' % (name, v['msg'], json.dumps(v['inputs'])[:600]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    for path, name, v, rc, outp in unconfirmed:
        print('NOT REPRODUCED on the real code (rc=%s): job %s: %s replay=%s\n%s' % (rc, name, v['msg'], path, outp[-500:]))
    for e in errors:
        print('ERROR: %s' % e)
    if unconfirmed or errors:
        return 3
    return 0


def main_replay(path):
    with open(path) as f:
        d = json.load(f)
    sys.setrecursionlimit(20000)
    st, det, obs, checks = native_run(d['module'], d['func'], d['params'], d['inputs'])
    print('replay of %s on the real code: %s %s' % (d['property'], st, det))
    for n, v in obs[-10:]:
        print('   %s = %s' % (n, str(v)[:300]))
    return 1 if st == 'failed' else 0
