#!/opt/venv/bin/python
"""
check.py <property id> [--tier quick|thorough] [--jobs N] [--config NAME] [--replay FILE]

Decides one property by symbolic execution of the package's current source and SMT queries.
Exit 0: held on everything explored.  Exit 1: VIOLATION line(s), each replayed on the real code.
"""
import argparse
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('XLA_FLAGS', '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
REPO = os.environ.get('VSM_REPO', '/repo')
OUT = os.environ.get('VSM_OUT', VERIF)        # where evidence/ and replay/ go


def worker(modname, fname, cfg, name, deadline, seed, opts, q):
    import resource
    import warnings
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(20000)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    try:
        import importlib
        from vsym import explore
        h = getattr(importlib.import_module(modname), fname)
        # trace which functions of the package are executed symbolically
        seen = set()

        def tr(frame, event, arg):
            f = frame.f_code
            if f.co_filename.startswith(REPO):
                seen.add(os.path.basename(f.co_filename)[:-3] + '.' + f.co_qualname)
            return None
        ex = explore.Explorer(h, cfg, name, REPO, deadline, seed, opts)
        sys.setprofile(tr) if opts is None or not opts.get('noprofile') else None
        rep = ex.run()
        sys.setprofile(None)
        rep.functions = sorted(s for s in seen if '<module>' not in s)
    except BaseException as e:
        from vsym.explore import Report
        sys.setprofile(None)
        rep = Report(name)
        rep.complete = False
        rep.error = f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-1500:]
    q.put(rep)


def run_all(modname, configs, jobs, deadline, seed, verbose):
    """configs: list of (name, fname, cfg, opts)"""
    pend = list(configs)
    live = []
    reps = []
    mpc = mp.get_context('fork')
    while pend or live:
        while pend and len(live) < jobs:
            name, fname, cfg, opts = pend.pop(0)
            q = mpc.Queue()
            p = mpc.Process(target=worker, args=(modname, fname, cfg, name, deadline, seed, opts, q), daemon=True)
            p.start()
            live.append((name, p, q, time.time()))
        nxt = []
        for name, p, q, t0 in live:
            got = None
            try:
                got = q.get_nowait()
            except Exception:
                pass
            if got is not None:
                p.join(2)
                if p.is_alive():
                    p.kill()
                reps.append(got)
                if verbose:
                    show(got)
                continue
            if not p.is_alive():
                try:
                    got = q.get(timeout=1)
                except Exception:
                    from vsym.explore import Report
                    got = Report(name)
                    got.complete = False
                    got.error = f'worker ended with code {p.exitcode}'
                reps.append(got)
                if verbose:
                    show(got)
                continue
            if time.time() > deadline + 45:
                p.kill()
                from vsym.explore import Report
                got = Report(name)
                got.complete = False
                got.error = 'hard deadline'
                reps.append(got)
                if verbose:
                    show(got)
                continue
            nxt.append((name, p, q, t0))
        live = nxt
        time.sleep(0.02)
    return reps


def show(r):
    print(f'  [{r.name}] paths {r.paths} (+{r.infeasible} infeasible) {"complete" if r.complete else "INCOMPLETE"} '
          f'{r.time:.1f}s stats {r.stats} replays {r.replays} (ties {r.replay_ties}) witnessed {r.witnessed}')
    for n, c in r.checks.items():
        print(f'      {n}: {c}')
    for k in ('unsupported', 'modelonly', 'mismatch', 'cuts', 'lemmas', 'notes', 'error'):
        v = getattr(r, k)
        if v:
            print(f'      {k}: {v}' if k != 'error' else f'      ERROR {v}')
    for v in r.violations:
        print('      VIOL', v['check'], v['kind'], v['info'], json.dumps(v['values'])[:600], v['choices'])
    sys.stdout.flush()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VSM_JOBS', '8')))
    ap.add_argument('--config')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.prop
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import importlib
    modname = f'harness.{pid.lower()}'
    mod = importlib.import_module(modname)
    if a.replay:
        return replay(modname, mod, a.replay)
    t0 = time.time()
    configs = mod.configs(a.tier)
    if a.config:
        configs = [c for c in configs if a.config in c[0]]
    budget = getattr(mod, 'BUDGET', {}).get(a.tier, 100 if a.tier == 'quick' else 600)
    deadline = t0 + budget
    try:                                     # imported once, inherited by the workers
        import warnings
        warnings.simplefilter('ignore')
        from vsym import explore, world       # noqa: F401
        world.real_package(REPO)
    except Exception:
        pass
    reps = run_all(modname, configs, a.jobs, deadline, seed, a.v)
    return finish(pid, mod, reps, a.tier, time.time() - t0, seed)


def finish(pid, mod, reps, tier, wall, seed):
    from vsym import findings
    known = findings.load(os.path.join(VERIF, 'known_findings.txt'), pid)
    viol = []
    knownhit = {}
    for r in reps:
        for v in r.violations:
            k = findings.match(known, v)
            if k:
                knownhit[k['text']] = k
            else:
                viol.append(v)
    agg = dict(proved=0, unknown=0, violated=0, unconfirmed=0)
    checks = {}
    for r in reps:
        for n, c in r.checks.items():
            d = checks.setdefault(n, dict(proved=0, unknown=0, violated=0, unconfirmed=0))
            for k in d:
                d[k] += c[k]
                agg[k] += c[k]
    st = dict(queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, by_normal_form=0)
    for r in reps:
        for k in st:
            st[k] += r.stats.get(k, 0)
    st['solver_s'] = round(st['solver_s'], 2)
    funcs = sorted({f for r in reps for f in r.functions})
    cuts = {}
    for r in reps:
        for k, v in r.cuts.items():
            cuts[k] = cuts.get(k, 0) + v
    complete = all(r.complete for r in reps)
    incon = [r.name for r in reps if not r.complete or r.unsupported or r.error or r.modelonly or r.mismatch
             or not r.paths]
    status = 'violated' if viol else ('held' if complete and not incon and not agg['unknown'] and not agg['unconfirmed']
                                     else 'held on everything decided; part inconclusive')
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    samples = [dict(config=v['config'], check=v['check'], input=v['values']) for v in viol][:3]
    for r in reps:
        if r.sample and len(samples) < 4:
            samples.append(r.sample)
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2), violations=len(viol),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'numbers are exact reals in the encoding (floating-point rounding is outside it, except where the package '
            'stores float32, and at inverse-trig boundaries, which are re-run on the real code)',
            'numpy/astropy/jax behave as their stand-ins in vsym/ do; every explored path is cross-checked against the '
            'real libraries on a concrete input'],
        coverage=dict(
            states=sum(r.paths for r in reps), transitions=sum(r.decisions for r in reps),
            traces_validated_against_impl=sum(r.witnessed for r in reps), samples=samples,
            explanation='states = complete symbolic paths through the real source; transitions = branch decisions taken '
                        'on them; each check on each path is one obligation decided by normal form or by z3',
            outcome=status, obligations=agg['proved'] + agg['unknown'] + agg['violated'] + agg['unconfirmed'],
            discharged=agg['proved'],
            functions_encoded=funcs,
            bounds=getattr(mod, 'BOUNDS', ''),
            stubs=getattr(mod, 'STUBS', ''),
            outside_bounds=cuts, exhaustive=False,
            configurations=[dict(name=r.name, paths=r.paths, infeasible=r.infeasible, complete=r.complete,
                                 paths_replayed_on_real_code=r.witnessed, real_runs=r.replays, ties=r.replay_ties,
                                 concrete_runs_without_symbolic_verdict=r.fallback,
                                 unsupported=r.unsupported, model_only_exceptions=r.modelonly,
                                 encoding_mismatches=r.mismatch, lemmas=r.lemmas, error=r.error,
                                 time_s=round(r.time, 2), solver=r.stats) for r in reps],
            checks=checks, queries=st['queries'], solver=st,
            complete=complete, inconclusive_configurations=incon,
            known_findings=list(knownhit)))
    from vsym import evidence
    evidence.write(os.path.join(OUT, 'evidence', pid + '.json'), ev)
    for k in knownhit.values():
        print(f'KNOWN-FINDING: property={pid} {k["text"]}')
    print(f'{pid}: {status}; {ev["coverage"]["states"]} paths, {agg["proved"]} checks proved '
          f'({st["by_normal_form"]} by normal form), {agg["unknown"]} unknown, {agg["unconfirmed"]} unconfirmed, '
          f'{st["queries"]} queries, solver {st["solver_s"]} s, wall {wall:.1f} s'
          + (f'; inconclusive: {incon}' if incon else ''))
    if viol:
        os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
        for i, v in enumerate(viol):
            path = os.path.join(OUT, 'replay', f'{pid}-{i}.json')
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            print(f'  {v["config"]}: check "{v["check"]}" fails ({v["kind"]}) {v["info"] or ""}')
            print(f'VIOLATION property={pid} replay={path}')
        return 1
    return 0


def replay(modname, mod, path):
    """run the recorded input against the real code only"""
    v = json.load(open(path))
    for tier in ('quick', 'thorough'):
        for name, fname, cfg, opts in mod.configs(tier):
            if name == v['config']:
                from vsym import explore
                ex = explore.Explorer(getattr(mod, fname), cfg, name, REPO, None, 1, opts)
                w = ex.real_run(v['values'], v['choices'])
                for n, ok, info in w.results:
                    print(('ok   ' if ok else 'FAIL ') + n, info if not ok else '')
                print('status', w.status, repr(w.exc) if w.exc else '')
                return 1 if w.status == 'raise' or any(not ok for _, ok, _ in w.results) else 0
    print('configuration not found')
    return 2


if __name__ == '__main__':
    sys.exit(main())
