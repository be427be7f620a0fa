"""Explores harnesses, confirms counterexamples natively, writes evidence."""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup_paths():
    if VT not in sys.path:
        sys.path.append(VT)
    from . import loader
    loader.native_path()
    if HERE not in sys.path:
        sys.path.insert(0, HERE)


class Task:
    def __init__(self, fn, params=None, name=None, tier='both', budget=None, **opts):
        self.fn = fn
        self.params = params or {}
        self.name = name or fn.__name__
        self.tier = tier
        self.budget = budget
        self.opts = opts

    def key(self):
        return self.name + ('' if not self.params else json.dumps(self.params, sort_keys=True))


_COMBINE = None


def explore(task, budget, known=(), max_viol=1, verbose=False):
    import z3
    from . import engine as _e, loader, harness
    from .engine import Engine, Unsupported, PathAbort, Diverged
    opts = dict(task.opts)
    wit_max = opts.pop('witnesses', 400)
    kwin = opts.pop('kwin', None)
    ieee = opts.pop('ieee', False)
    exp2 = opts.pop('exp2_window', (-3, 4))
    eopts = {k: opts[k] for k in ('max_paths', 'branch_ms', 'check_ms', 'log10_window') if k in opts}
    t0 = time.time()
    eng = Engine(deadline=t0 + budget, **eopts)
    res = dict(task=task.key(), violations=[], known=[], inconclusive=[], samples=[], functions=set(),
               witness_ok=0, witness_skipped=0, checked_paths=0, complete=False, unconfirmed=[])
    wit_time = 0.0
    fallback = 0

    def concretely(inputs, expect=None):
        warnings.simplefilter('ignore')
        return harness.run_concrete(task.fn, inputs, task.params, expect)

    def report(msg, inputs, how, expect=None):
        for k in known:
            if k['harness'] == task.name and k['message'] in msg and \
                    eval(k.get('where', 'True'), {}, {'inputs': inputs, 'params': task.params}):
                if k['id'] not in res['known']:
                    res['known'].append(k['id'])
                return False
        res['violations'].append(dict(msg=msg, inputs=inputs, params=task.params, how=how, expect=expect))
        return True

    def confirm_strict(E, msg, neg, model, na, nb):
        """Small numbers with a large relative difference: (inputs, text, expected values)."""
        for extra in [None, [neg] + harness.nice(eng, E.reals, 1), [neg]]:
            old, eng.deadline = eng.deadline, None
            try:
                mdl = model if extra is None else eng.path_model(extra)
            finally:
                eng.deadline = old
            if mdl is None:
                continue
            inputs = harness.model_inputs(eng, mdl)
            expect = [msg, harness.real_value(mdl, na), harness.real_value(mdl, nb)]
            st, txt = concretely(inputs, expect)
            if st in ('fail', 'exc'):
                return inputs, txt, expect
        return None, None, None

    def confirm(E, msg, neg, model, margin):
        tried = 0
        seen = []
        stages = []
        for lvl in (0, 1):
            if margin is not None:
                stages.append([margin] + harness.nice(eng, E.reals, lvl, task.params))
            stages.append([neg] + harness.nice(eng, E.reals, lvl, task.params))
        if margin is not None:
            stages.append([margin])
        stages.append([neg])
        for extra in [None] + stages:
            if extra is None:
                if model is None:
                    continue
                mdl = model
            else:
                old = eng.deadline
                eng.deadline = None
                try:
                    mdl = eng.path_model(extra)
                finally:
                    eng.deadline = old
            if mdl is None:
                continue
            inputs = harness.model_inputs(eng, mdl)
            if inputs in seen:
                continue
            seen.append(inputs)
            st, txt = concretely(inputs)
            if st in ('fail', 'exc'):
                return inputs, txt
        return None, seen[:2]

    first = True
    while True:
        eng.begin()
        eng.kwin = kwin
        eng.ieee = ieee
        eng.exp2_window = exp2
        sh = loader.Shadow()
        E = harness.SymE(eng, task.params)
        status = 'ok'
        err = None
        _e.CURRENT = eng
        prof = None
        try:
            with sh.active(), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if first:
                    seen = res['functions']

                    def prof(frame, event, arg):
                        if event == 'call':
                            c = frame.f_code
                            if c.co_filename.startswith(loader.REPO + '/'):
                                seen.add(c.co_filename[len(loader.REPO) + 1:] + ':' + c.co_qualname)
                    sys.setprofile(prof)
                try:
                    task.fn(E)
                finally:
                    if first:
                        sys.setprofile(None)
        except PathAbort as x:
            status = 'abort'
            err = str(x)
        except Unsupported as x:
            status = 'unsupported'
            err = 'Unsupported: %s' % x
            if verbose:
                traceback.print_exc()
        except Diverged as x:
            status = 'unsupported'
            err = 'Diverged: %s' % x
        except z3.Z3Exception as x:
            status = 'unsupported'
            err = 'z3: %s' % x
        except RecursionError as x:
            status = 'exception'
            err = 'RecursionError'
        except Exception as x:
            status = 'exception'
            tb = traceback.extract_tb(x.__traceback__)
            err = '%s: %s (%s:%s)' % (type(x).__name__, x, tb[-1].filename.split('/')[-1], tb[-1].lineno)
            if verbose:
                traceback.print_exc()
        finally:
            sys.setprofile(None)
            _e.CURRENT = None
        first = False if E.checks or status != 'abort' else first
        eng.stats.paths += 1
        if status == 'abort' and not E.cands:
            eng.stats.aborted += 1
        if eng.nchecks_path:
            res['checked_paths'] += 1
        stop = False
        for (msg, neg, model, margin) in E.cands:
            inputs, txt = confirm(E, msg, neg, model, margin)
            if inputs is not None:
                if report(txt, inputs, 'solver counterexample: ' + msg):
                    stop = len(res['violations']) >= max_viol
            else:
                res['inconclusive'].append('counterexample to %r not reproduced natively: %r' % (msg, txt))
        for c in E.strict:
            inputs, txt, expect = confirm_strict(E, *c)
            if inputs is not None and report(txt, inputs, 'solver counterexample (small numbers): ' + c[0], expect):
                stop = len(res['violations']) >= max_viol
        if status == 'exception':
            inputs, txt = confirm(E, err, z3.BoolVal(True), None, None)
            if inputs is not None:
                if report(txt, inputs, 'path ends in ' + err):
                    stop = len(res['violations']) >= max_viol
            else:
                res['inconclusive'].append('exception not reproduced natively: %s %r' % (err, txt))
        elif status == 'unsupported':
            res['inconclusive'].append(err)
            if 'time budget' not in err and fallback < 20:
                fallback += 1
                inputs, txt = confirm(E, err, z3.BoolVal(True), None, None)
                if inputs is not None and report(txt, inputs, 'witness of an unencodable path'):
                    stop = len(res['violations']) >= max_viol
        res['inconclusive'].extend(eng.inconclusive)
        eng.inconclusive = []
        if status == 'ok':
            tw = time.time()
            if wit_max > 0 and wit_time < 0.4 * budget:
                wit_max -= 1
                try:
                    eng.deadline = None
                    eng.solver.set('timeout', 1500)
                    mdl = None
                    for lvl in (0, 1):
                        eng.solver.push()
                        eng.solver.add(*harness.nice(eng, E.reals, lvl, task.params))
                        eng.stats.queries += 1
                        if eng.solver.check() == z3.sat:
                            mdl = eng.solver.model()
                        eng.solver.pop()
                        if mdl is not None:
                            break
                finally:
                    eng.deadline = t0 + budget
                if mdl is not None:
                    inputs = harness.model_inputs(eng, mdl)
                    st, txt = concretely(inputs)
                    if st == 'ok':
                        res['witness_ok'] += 1
                        if len(res['samples']) < 3:
                            res['samples'].append(dict(task=task.key(), inputs=inputs, native_assertions=txt))
                    elif st == 'assume':
                        res['witness_skipped'] += 1
                    else:
                        if report(txt, inputs, 'native run of a path witness'):
                            stop = len(res['violations']) >= max_viol
                else:
                    res['witness_skipped'] += 1
            wit_time += time.time() - tw
        if stop:
            break
        if eng.stats.paths >= eng.max_paths:
            res['inconclusive'].append('path limit')
            break
        if time.time() > eng.deadline:
            if eng.backtrack():
                res['inconclusive'].append('time budget exhausted')
            else:
                res['complete'] = True
            break
        if not eng.backtrack():
            res['complete'] = True
            break
    res['functions'] = sorted(res['functions'])
    res['stats'] = eng.stats.as_dict()
    res['wall_s'] = time.time() - t0
    return res


def _worker(conn, modname, idx, budget, known, tier):
    try:
        mod = importlib.import_module(modname)
        task = mod.tasks(tier)[idx]
        r = explore(task, budget, known)
    except BaseException as x:
        r = dict(task='#%d' % idx, error='%s: %s\n%s' % (type(x).__name__, x, traceback.format_exc()))
    conn.send(r)
    conn.close()


def run_tasks(modname, tier, known, jobs, budget):
    mod = importlib.import_module(modname)
    tasks = mod.tasks(tier)
    pending = list(range(len(tasks)))
    # long tasks first when annotated
    pending.sort(key=lambda i: -(tasks[i].opts.get('weight', 1)))
    for t in tasks:
        t.opts.pop('weight', None)
    running = {}
    results = [None] * len(tasks)
    retried = set()
    stop = time.time() + (float(os.environ.get('VERIF_DEADLINE', '0')) or (540 if tier == 'quick' else 6 * 3600))
    found = 0
    while pending or running:
        if pending and (time.time() > stop or found >= 20):
            for i in pending:
                results[i] = dict(task=tasks[i].key(), error=None, skipped='not explored: ' + (
                    'enough violations found' if found >= 20 else 'time limit of the whole check'))
            pending = []
        while pending and len(running) < jobs:
            i = pending.pop(0)
            b = tasks[i].budget or budget
            a, c = mp.Pipe(False)
            p = mp.Process(target=_worker, args=(c, modname, i, b, known, tier))
            p.start()
            c.close()
            running[i] = (p, a, time.time() + 2.0 * b + 60)
        for i, (p, a, limit) in list(running.items()):
            done = False
            if a.poll(0.0):         # an answer, or the end of the worker
                try:
                    results[i] = a.recv()
                    done = True
                    found += bool(results[i].get('violations'))
                except EOFError:
                    p.join(5)
                    done = True
                    results[i] = dict(task=tasks[i].key(), error='worker died (exit %s)' % p.exitcode)
                if (results[i].get('error') or '').startswith('worker died') and i not in retried:
                    retried.add(i)
                    pending.append(i)
            elif not p.is_alive() and not a.poll(0.0):      # (it may just have answered)
                results[i] = dict(task=tasks[i].key(), error='worker died (exit %s)' % p.exitcode)
                done = True
            elif time.time() > min(limit, stop + 100):
                p.kill()
                results[i] = dict(task=tasks[i].key(), error=None, skipped='worker exceeded its time limit')
                done = True
            if done:
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
                del running[i]
        time.sleep(0.01)
    return tasks, results


def replay_subprocess(path):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([sys.executable, os.path.join(HERE, 'replay.py'), path], env=env,
                       capture_output=True, text=True, timeout=120)
    return r.returncode, r.stdout + r.stderr


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def main(pid, modname, level='model_checking', assumptions=(), bounds='', jobs=None, budget=None):
    setup_paths()
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '8'))
    budget = budget or (60 if tier == 'quick' else 1200)
    known_all = [k for k in load_known() if k['property'] == pid and k.get('status') != 'fixed']
    # symbols imported once in the parent, so that workers fork warm
    import z3                                              # noqa
    from . import loader, engine, harness, values, shims, strings   # noqa
    mod = importlib.import_module(modname)
    tasks, results = run_tasks(modname, tier, known_all, jobs, budget)
    agg = {}
    viol, inconc, errors, known_hit, samples, funcs = [], [], [], set(), [], set()
    wit = skipped = cpaths = complete = 0
    for t, r in zip(tasks, results):
        if r.get('error'):
            errors.append((t.key(), r['error']))
            continue
        if r.get('skipped'):
            inconc.append((t.key(), r['skipped']))
            continue
        for k, v in r['stats'].items():
            agg[k] = agg.get(k, 0) + v
        for v in r['violations']:
            v = dict(v, harness=t.name, task=t.key())
            viol.append((t, v))
        inconc += [(t.key(), x) for x in r['inconclusive']]
        known_hit.update(r['known'])
        samples += r['samples'][:1]
        funcs.update(r['functions'])
        wit += r['witness_ok']
        skipped += r['witness_skipped']
        cpaths += r['checked_paths']
        complete += bool(r['complete'])
        if r['checked_paths'] == 0 and not r['violations'] and not r['known']:
            inconc.append((t.key(), 'vacuous: no path reached an assertion'))
    os.makedirs(os.path.join(HERE, 'out'), exist_ok=True)
    confirmed = []
    for n, (t, v) in enumerate(viol):
        path = os.path.join('out', '%s-%d.json' % (pid, n))
        with open(os.path.join(HERE, path), 'w') as f:
            json.dump(dict(property=pid, module=modname, harness=t.name, params=t.params,
                           inputs={k: (repr(x) if isinstance(x, float) else x)
                                   for k, x in v['inputs'].items()},
                           floats=[k for k, x in v['inputs'].items() if isinstance(x, float)],
                           message=v['msg'], how=v['how'], expect=v.get('expect')), f, indent=1)
        code, out = replay_subprocess(os.path.join(HERE, path))
        if code == 1:
            confirmed.append((path, v, out))
            if len(confirmed) >= 5:
                break
        else:
            inconc.append((t.key(), 'violation not reproduced in a clean process: %s' % v['msg']))
    cov = dict(
        states=agg.get('paths', 0), transitions=agg.get('decisions', 0),
        traces_validated_against_impl=wit,
        samples=samples[:12] or [dict(note='no witness')],
        paths_with_assertions=cpaths, paths_outside_bounds_or_infeasible=agg.get('aborted', 0),
        tasks=len(tasks), tasks_completed=complete,
        solver_queries=agg.get('queries', 0), assertions_decided=agg.get('checks', 0),
        assertions_proved=agg.get('unsat', 0), solver_time_s=round(agg.get('solver_s', 0), 2),
        witnesses_skipped=skipped, functions_encoded=sorted(funcs),
        sources={os.path.relpath(p, loader.REPO): True for p in loader.sources} or None,
        bounds=bounds or getattr(mod, 'BOUNDS', ''),
        inconclusive=len(inconc), inconclusive_reasons=sorted({'%s: %s' % x for x in inconc})[:20],
        worker_errors=['%s: %s' % x for x in errors][:5],
        exhaustive_within_bounds=complete == len(tasks) and not inconc and not errors)
    cov.pop('sources')
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + list(assumptions),
              wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s tier=%s tasks=%d/%d paths=%d assertions=%d (proved %d) queries=%d solver=%.1fs '
          'witnesses=%d wall=%.1fs' % (
              pid, tier, complete, len(tasks), agg.get('paths', 0), agg.get('checks', 0),
              agg.get('unsat', 0), agg.get('queries', 0), agg.get('solver_s', 0), wit, time.time() - t0))
    if os.environ.get('VERIF_VERBOSE'):
        for r in sorted((r for r in results if 'wall_s' in r), key=lambda r: -r['wall_s'])[:15]:
            print('  %6.1fs paths=%d aborted=%d checks=%d solver=%.1f wit=%d/%d %s' % (
                r['wall_s'], r['stats']['paths'], r['stats']['aborted'], r['stats']['checks'],
                r['stats']['solver_s'], r['witness_ok'], r['witness_skipped'], r['task']))
    for k in known_all:
        if k['id'] in known_hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for key, e in errors:
        print('ERROR %s: %s' % (key, e))
    for x in sorted(set(inconc))[:10]:
        print('INCONCLUSIVE %s: %s' % x)
    if confirmed:
        for path, v, out in confirmed:
            print('  %s %s: %s\n    inputs=%s (%s)' % (v['harness'], v['params'], v['msg'], v['inputs'], v['how']))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if cpaths == 0 or len(errors) == len(tasks):
        print('no assertion was decided: no verdict')
        return 2
    return 0
