"""Runs a property check: explores all paths of its harness in parallel, replays, writes evidence."""
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY_PY = '/opt/venv/bin/python'
NPROC = int(os.environ.get('SYMX_PROCS', '8'))

_w = {}


# -- worker ----------------------------------------------------------------------------------------

def _init_worker(modname, opt):
    sys.path.insert(0, HERE)
    from . import core, shims, symh
    sys.setrecursionlimit(20000)
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    mod = importlib.import_module(modname)
    shims.load(*getattr(mod, 'MODULES', ()))
    if hasattr(mod, 'setup'):
        mod.setup(True)
    _w.update(mod=mod, core=core, shims=shims, symh=symh, opt=opt)
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    _w['dir'] = tempfile.mkdtemp(prefix='symx_w_%d_' % os.getppid(), dir=base)
    funcs = set()
    _w['funcs'] = funcs
    src = shims.SRC
    mon = sys.monitoring
    tid = 4
    try:
        mon.use_tool_id(tid, 'symx')

        def start(code, off):
            if code.co_filename.startswith(src):
                funcs.add('%s:%s' % (os.path.relpath(code.co_filename, src), code.co_qualname))
            return mon.DISABLE
        mon.register_callback(tid, mon.events.PY_START, start)
        mon.set_events(tid, mon.events.PY_START)
    except ValueError:
        pass


def _explore(task):
    """Explore the subtree under a prefix for a slice of time."""
    case, params, prefix, slice_s, seed_sample = task
    core, shims, symh, mod = _w['core'], _w['shims'], _w['symh'], _w['mod']
    stats = core.Stats()
    out = dict(case=case, paths=0, infeasible=0, failures=[], unknown=[], inconclusive=[], labels={},
               samples=[], probes=[], pending=[], exc=[])
    stack = [prefix]
    t0 = time.time()
    first = True
    while stack and (first or time.time() - t0 < slice_s):
        first = False
        pf = stack.pop()
        d = os.path.join(_w['dir'], 'p')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        E = core.Engine(pf, stats, _w['opt'], deadline=_w.get('deadline'))
        core.ENG = E
        h = symh.SymH(E, d)
        shims.Rand.source = h.random if getattr(mod, 'RANDOM', False) else None
        status = 'done'
        cwd = os.getcwd()
        watch = _Watch(E, core, params)
        try:
            os.chdir(d)
            watch.start()
            mod.run(h, **params)
            watch.stop()
            out['paths'] += 1
        except core.Hang as e:
            watch.stop()
            # whether the real code ends on the inputs of this path is asked in the replay
            status = 'inconclusive'
            try:
                if E.model is None:
                    E.feasible()
                v = watch.values or (E.models([], E.model)[0] if E.model is not None else None)
                if v is not None:
                    E.failures.append(dict(label='hang', kf=None, models=[v]))
            except core.Steer:
                pass
            if not E.failures:
                out['inconclusive'].append('no progress')
        except core.Infeasible:
            status = 'infeasible'
            out['infeasible'] += 1
        except core.Unsupported as e:
            status = 'inconclusive'
            out['inconclusive'].append('unsupported: %s' % e)
            out['exc'].append(traceback.format_exc()[-800:])
        except core.Diverged as e:
            status = 'inconclusive'
            out['inconclusive'].append('diverged: %s' % e)
        except core.OutOfTime:
            status = 'inconclusive'
            out['inconclusive'].append('out of time')
        except RecursionError as e:
            status = 'inconclusive'
            out['inconclusive'].append('recursion')
        except Exception as e:
            status = 'exception'
            tb = traceback.format_exc()[-1500:]
            try:
                if len(E.trail) >= len(E.prefix) and E.feasible():
                    m = E.model
                    if m is None:
                        out['inconclusive'].append('exception on a path of unknown feasibility')
                    else:
                        E.failures.append(dict(label='exception', kf=None, models=E.models([], m),
                                               exc='%s: %s' % (type(e).__name__, e), tb=tb))
                    E.labels.setdefault('exception', [0, 0, 0])[1] += 1
                out['paths'] += 1
            except core.Steer as e2:
                out['inconclusive'].append('%s in exception' % type(e2).__name__)
        finally:
            watch.stop()
            os.chdir(cwd)
            shims.Rand.source = None
        # a witness of the path
        try:
            if status == 'inconclusive' and len(out['probes']) < 3 and E.feasible() and E.model is not None:
                out['probes'] += E.models([], E.model)[:2]
            if status == 'done' and len(out['samples']) < 2 and (out['paths'] % 3 == 1):
                if E.feasible() and E.model is not None:
                    ms = E.models([], E.model) if seed_sample and not out['samples'] else [E.values(E.model)]
                    out['samples'].append(ms[0])
        except core.Steer:
            pass
        core.ENG = None
        for l, v in E.labels.items():
            a = out['labels'].setdefault(l, [0, 0, 0])
            for i in range(3):
                a[i] += v[i]
        out['failures'] += E.failures
        out['unknown'] += E.unknown_checks
        stack += E.pending
        if out['failures'] and len(out['failures']) > 30:
            break
    out['pending'] = stack
    out['stats'] = stats.dump()
    out['funcs'] = sorted(_w['funcs'])
    return out


class _Watch:
    """Raises Hang where the code runs for long without a query, or where a long path does not end on the real code either."""
    QUIET, LONG = 60.0, 150.0

    def __init__(self, E, core, params):
        self.E, self.core, self.params = E, core, params
        self.values, self.asked, self.on = None, False, False
        E.alive = self.alive

    def start(self):
        signal.signal(signal.SIGVTALRM, self.ring)
        self.t0, self.on = time.time(), True
        self.alive()

    def stop(self):
        self.on = False
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)

    def ring(self, *a):
        if self.on:
            raise self.core.Hang()

    def alive(self):
        if not self.on:
            return
        signal.setitimer(signal.ITIMER_VIRTUAL, self.QUIET, 5.0)
        if not self.asked and time.time() - self.t0 > self.LONG and self.E.model is not None:
            self.asked = True
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            v = self.E.values(self.E.model)
            res, err = replay(_w['mod'].__name__, '', [dict(params=self.params, values=v)])
            if res is not None and ['hang', None] in res[0]['failed']:
                self.values = v
                raise self.core.Hang()
            signal.setitimer(signal.ITIMER_VIRTUAL, self.QUIET, 5.0)


def _cleanup_worker():
    d = _w.get('dir')
    if d:
        shutil.rmtree(d, ignore_errors=True)


# -- replay ----------------------------------------------------------------------------------------

def replay(modname, prop, runs, timeout=120, keep=None):
    job = dict(module=modname, property=prop, runs=runs)
    fd, path = tempfile.mkstemp(prefix='symx_replay_', suffix='.json')
    with os.fdopen(fd, 'w') as f:
        json.dump(job, f)
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LC_ALL', 'SYMX_REPO', 'TMPDIR')}
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    try:
        p = subprocess.run([REPLAY_PY, os.path.join(HERE, 'symx', 'replay.py'), path], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        lines = [l for l in p.stdout.decode(errors='replace').split('\n') if l.startswith('[')]
        if not lines:
            return None, p.stderr.decode(errors='replace')[-1500:]
        return json.loads(lines[-1]), None
    except subprocess.TimeoutExpired:
        return None, 'replay timed out'
    finally:
        os.unlink(path)


# -- known findings --------------------------------------------------------------------------------

def known_findings(prop):
    """id -> text, from /verif/KNOWN_FINDINGS.txt; lines 'known: property=P05 id=K1 text'."""
    out = {}
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' id=', 1)[1]
                kid, text = rest.split(' ', 1)
                out[kid] = text.strip()
    return out


def _stop(ex):
    for p in list((getattr(ex, '_processes', None) or {}).values()):
        p.kill()
    ex.shutdown(wait=False, cancel_futures=True)


# -- main ------------------------------------------------------------------------------------------

def main(modname, tier, budget=None):
    sys.path.insert(0, HERE)
    mod = importlib.import_module(modname)
    if hasattr(mod, 'main'):
        return mod.main(tier)
    prop = mod.PROPERTY
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    budget = budget or (getattr(mod, 'BUDGET', {}).get(tier) or (600 if tier == 'quick' else 780))
    opt = dict(getattr(mod, 'OPT', {}))
    if tier == 'thorough':
        opt.update(getattr(mod, 'OPT_THOROUGH', {}))
    cases = list(mod.cases(tier))
    kfs = known_findings(prop)
    ev_path = os.path.join(HERE, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    rep_dir = os.path.join(HERE, 'evidence', 'replay')

    tot = dict(paths=0, infeasible=0)
    labels, funcs, stats, samples = {}, set(), {}, []
    percase = {}
    inconclusive, unknown, excs = [], [], []
    probes = []
    unrepro, confirmed_known, violation = [], {}, None
    seen_fail = {}
    ctx = mp.get_context('fork')
    slice_s = 4.0
    def pool():
        return cf.ProcessPoolExecutor(NPROC, mp_context=ctx, initializer=_init_worker, initargs=(modname, opt))

    ex = pool()
    restarts = 0
    pend = {}
    queue = []
    for c in reversed(cases):
        queue.append((c[0], c[1], [], slice_s, True))
    dead = False
    exhausted = None
    try:
        while (queue or pend) and violation is None:
            if time.time() - t0 > budget:
                exhausted = 'time budget of %d s exhausted with %d subtrees left' % (budget, len(queue) + len(pend))
                break
            broken = None
            try:
                while queue and len(pend) < NPROC + 2:
                    t = queue[-1]
                    pend[ex.submit(_explore, t)] = t
                    queue.pop()
            except cf.process.BrokenProcessPool as e:
                broken = e
            done, _ = cf.wait(list(pend), timeout=2.0, return_when=cf.FIRST_COMPLETED)
            for f in done:
                if isinstance(f.exception(), cf.process.BrokenProcessPool):
                    broken = f.exception()
                    continue
                t = pend.pop(f)
                r = f.result()
                tot['paths'] += r['paths']
                tot['infeasible'] += r['infeasible']
                pc = percase.setdefault(r['case'], 0)
                percase[r['case']] = pc + r['paths']
                for l, v in r['labels'].items():
                    a = labels.setdefault(l, [0, 0, 0])
                    for i in range(3):
                        a[i] += v[i]
                for k, v in r['stats'].items():
                    stats[k] = stats.get(k, 0) + v
                funcs.update(r['funcs'])
                inconclusive += r['inconclusive']
                excs += r['exc'][:2]
                unknown += r['unknown']
                probes += [(t[1], s, r['case']) for s in r['probes'] if len(probes) < 40]
                for s in r['samples']:
                    samples.append((t[1], s, r['case']))
                for p in r['pending']:
                    queue.append((t[0], t[1], p, slice_s, False))
                for fl in r['failures']:
                    key = (r['case'], fl['label'], fl['kf'])
                    n = seen_fail.get(key, 0)
                    if n >= 6 or (fl['kf'] and fl['kf'] in confirmed_known):
                        continue
                    seen_fail[key] = n + 1
                    runs = [dict(params=t[1], values=v) for v in fl['models']]
                    res, err = replay(modname, prop, runs)
                    hit = None
                    if res is not None:
                        for run, rr in zip(runs, res):
                            if rr['failed'] and not rr.get('assume_failed'):
                                kf = None if any(k is None for _, k in rr['failed']) else rr['failed'][0][1]
                                hit = (run, rr, kf)
                                if kf is None:
                                    break
                    if hit is None:
                        unrepro.append(dict(case=r['case'], label=fl['label'], exc=fl.get('exc'), tb=fl.get('tb'),
                                            values=fl['models'][0], err=err,
                                            replay=res and [{k: v for k, v in x.items() if k != 'reached'} for x in res]))
                        continue
                    run, rr, kf = hit
                    if kf is not None and kf in kfs:
                        confirmed_known.setdefault(kf, run)
                        continue
                    violation = dict(property=prop, module=modname, case=r['case'], label=fl['label'], runs=[run],
                                     outcome={k: v for k, v in rr.items() if k != 'reached'})
                    break
                if violation is not None:
                    break
            if broken is not None and violation is None:
                # a worker died (the solver is native code): its subtrees are explored again in a new pool
                restarts += 1
                if restarts > 3:
                    raise broken
                cf.wait(list(pend), timeout=20.0)
                left = [(f, t) for f, t in pend.items() if not f.done() or f.exception() is not None]
                for f, t in left:
                    del pend[f]
                    queue.append(t)
                _stop(ex)
                ex = pool()
    except cf.process.BrokenProcessPool as e:
        inconclusive.append('worker process ended: %s' % e)
        dead = True
    finally:
        for f in pend:
            f.cancel()
        _stop(ex)
        for base in ('/dev/shm', tempfile.gettempdir()):
            try:
                for n in os.listdir(base):
                    if n.startswith('symx_w_%d_' % os.getpid()):
                        shutil.rmtree(os.path.join(base, n), ignore_errors=True)
            except OSError:
                pass

    # witnesses of explored paths, run on the unpatched code: the encoding against the implementation
    wit_n, wit_bad = 0, []
    if violation is None and (samples or probes):
        step = max(1, len(samples) // (24 if tier == 'quick' else 80))
        pick = samples[::step][:(24 if tier == 'quick' else 80)] + probes
        res, err = replay(modname, prop, [dict(params=p, values=v) for p, v, _ in pick], timeout=200)
        if res is None:
            inconclusive.append('witness replay failed: %s' % err)
        else:
            for (p, v, c), rr in zip(pick, res):
                if rr.get('assume_failed'):
                    continue
                wit_n += 1
                bad = [x for x in rr['failed'] if not (x[1] and x[1] in kfs)]
                if bad:
                    wit_bad.append(dict(case=c, values=v, failed=rr['failed'], exception=rr.get('exception')))
                    if (inconclusive or unknown or unrepro) and violation is None:
                        # where the encoding gave no answer, inputs chosen by the solver on the explored part of
                        # the code still show a failure of the real code
                        violation = dict(property=prop, module=modname, case=c, label=bad[0][0],
                                         runs=[dict(params=p, values=v)],
                                         outcome={k: x for k, x in rr.items() if k != 'reached'})

    missing = [l for l in (mod.labels(tier) if hasattr(mod, 'labels') else []) if l not in labels]
    for l in getattr(mod, 'LABELS', ()):
        if l not in labels:
            missing.append(l)
    wall = time.time() - t0
    discharged = sum(v[0] for v in labels.values())
    failed = sum(v[1] for v in labels.values())
    level = getattr(mod, 'LEVEL', 'model_checking')
    cov = dict(
        explanation='Symbolic execution of the real functions listed in functions_encoded (compiled from the current '
                    'source on this run); every assertion was decided by Z3 under the path condition of each feasible path.',
        states=tot['paths'],
        transitions=stats.get('decisions', 0),
        traces_validated_against_impl=wit_n + len(confirmed_known) + (1 if violation else 0),
        samples=[dict(case=c, inputs=_short(v)) for _, v, c in samples[:3]],
        paths=tot['paths'], infeasible_prefixes=tot['infeasible'], forks=stats.get('forks', 0),
        solver_queries=stats.get('queries', 0), solver_seconds=round(stats.get('solver_s', 0.0), 3),
        sat=stats.get('sat', 0), unsat=stats.get('unsat', 0), unknown=stats.get('unknown', 0),
        assertions_discharged=discharged, assertions_failed=failed,
        assertions_by_label={k: dict(discharged=v[0], failed=v[1], unknown=v[2]) for k, v in sorted(labels.items())},
        cases=len(cases), paths_by_case=percase,
        functions_encoded=sorted(funcs), bounds=getattr(mod, 'BOUNDS', ''),
        outside_the_claim=getattr(mod, 'OUTSIDE', ''), stubs=getattr(mod, 'STUBS', []),
        witness_disagreements=wit_bad[:3], known_findings_seen=sorted(confirmed_known),
        inconclusive=inconclusive[:10], unreproduced=[{k: v for k, v in u.items() if k in ('case', 'label', 'exc')} for u in unrepro[:5]],
        exhaustive=not (inconclusive or unknown or unrepro or violation or exhausted), time_budget=exhausted,
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 2), violations=1 if violation else 0)
    with open(ev_path, 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    print('%s [%s]: %d cases, %d paths, %d decisions, %d queries, %.1f s solver, %.1f s wall; %d assertions discharged; '
          '%d witnesses replayed' % (prop, tier, len(cases), tot['paths'], stats.get('decisions', 0),
                                     stats.get('queries', 0), stats.get('solver_s', 0.0), wall, discharged, wit_n))
    for k in sorted(confirmed_known):
        print('KNOWN-FINDING: property=%s %s' % (prop, kfs[k]))
    if violation is not None:
        os.makedirs(rep_dir, exist_ok=True)
        path = os.path.join(rep_dir, '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump(violation, f, indent=1, default=str)
        print('failed assertion: case=%s label=%s outcome=%s' % (violation['case'], violation['label'],
                                                                json.dumps(violation['outcome'])[:600]))
        print('inputs: %s' % json.dumps(violation['runs'][0]['values'])[:800])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    rc = 0
    for u in unrepro[:3]:
        print('UNREPRODUCED counterexample (encoding disagrees with the code): %s' % json.dumps(u, default=str)[:2500])
        rc = 2
    if unknown:
        print('INCONCLUSIVE: solver unknown on %d assertions: %s' % (len(unknown), sorted(set(unknown))[:8]))
        rc = 2
    if inconclusive:
        print('INCONCLUSIVE: %s' % sorted(set(inconclusive))[:6])
        for e in excs[:2]:
            print(e)
        rc = 2
    if exhausted:
        print('NOTE: not exhaustive: %s' % exhausted)
    if missing and not exhausted:
        print('VACUOUS: assertions never reached: %s' % missing)
        rc = 2
    if wit_bad:
        print('note: %d path witnesses disagree on floats: %s' % (len(wit_bad), json.dumps(wit_bad[:2], default=str)[:1200]))
    return rc


def _short(v):
    out = {}
    for k, x in list(v.items())[:40]:
        if isinstance(x, list):
            n, d = x
            out[k] = n if d == '1' else ('%s/%s' % (n, d) if len(n) + len(d) < 24 else repr(int(n) / int(d)))
        else:
            out[k] = x
    return out
