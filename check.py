#!/usr/bin/env python3-vt
"""Decides one property:  python3-vt check.py <property> [quick|thorough]

Every job of the property is explored symbolically over /repo's current sources, in
parallel.  Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken
(the solver's counterexample was replayed on the real code).  Exit 2: no answer."""
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.chdir(HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('GCS_REPO', '/repo')
WORKERS = int(os.environ.get('SX_WORKERS', '0')) or min(8, os.cpu_count() or 1)
# total seconds after which unfinished jobs count as undecided
LIMIT = {'quick': 780.0, 'thorough': 7200.0}


def findings(prop):
    """{site: text} of the property's recorded, unrepaired defects."""
    out = {}
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for line in f:
            if line.startswith('finding: property=%s ' % prop):
                _, _, site, text = line.strip().split(' ', 3)
                out[site.split('=', 1)[1]] = text
    return out


def worker(job, known, budget, seed, conn):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        from sx.run import run_symbolic
        r = run_symbolic(job['module'], job['function'], job['params'], known=known,
                         budget=budget, seed=seed, validate=job.get('validate', 8),
                         options=job.get('options'))
    except BaseException as e:          # an engine defect: no verdict from this job
        r = dict(paths=0, reached=0, violation=None, findings={}, spurious=None, samples=[],
                 limit='engine failed: %s: %s' % (type(e).__name__, e))
    conn.send(r)
    conn.close()


def run_jobs(jobs, known, deadline, seed):
    """Yields (job, result) as jobs finish."""
    ctx = mp.get_context('fork')
    todo, running = list(enumerate(jobs)), {}
    try:
        while todo or running:
            while todo and len(running) < WORKERS:
                n, job = todo.pop(0)
                left = deadline - time.monotonic()
                if left < 2:
                    yield job, dict(paths=0, reached=0, violation=None, findings={}, samples=[],
                                    spurious=None, limit='not started: time budget exhausted')
                    continue
                a, b = ctx.Pipe(False)
                p = ctx.Process(target=worker, args=(job, known, left, seed, b), daemon=True)
                p.start()
                b.close()
                running[a] = (p, job)
            # a solver call can overrun the worker's own deadline
            ready = mp.connection.wait(list(running), timeout=5)
            if not ready and time.monotonic() > deadline + 40:
                ready = list(running)
                for p, _ in running.values():
                    p.kill()
            for a in ready:
                p, job = running.pop(a)
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(paths=0, reached=0, violation=None, findings={}, samples=[],
                             spurious=None, limit='worker ended without a result')
                p.join()
                yield job, r
    finally:
        for p, _ in running.values():
            p.kill()


def describe(job):
    return '%s.%s%s' % (job['module'], job['function'],
                        json.dumps(job['params'], sort_keys=True, default=str))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.monotonic()
    import jobs as J
    spec = J.PROPERTIES[prop]
    jobs = spec['jobs'](tier) + J.large(prop, tier) + J.layouts(prop)
    known = findings(prop)
    import z3                                      # noqa: F401  (loaded once, before forking)
    import sx.loader                               # noqa: F401
    total = dict(states=0, transitions=0, queries=0, assertions=0, solver_s=0.0, validated=0,
                 skipped=0)
    functions, samples, undecided, seen, walls = set(), [], [], {}, []
    violation = None
    undecided_findings = []
    gen = run_jobs(jobs, tuple(known), t0 + LIMIT[tier], seed)
    for job, r in gen:
        total['states'] += r.get('paths', 0)
        total['transitions'] += r.get('decisions', 0)
        total['queries'] += r.get('queries', 0)
        total['assertions'] += r.get('checks', 0)
        total['solver_s'] += r.get('solver_s', 0.0)
        total['validated'] += r.get('validated', 0)
        total['skipped'] += r.get('skipped', 0)
        functions.update(r.get('functions', ()))
        walls.append((round(r.get('wall', 0), 1), describe(job), r.get('paths', 0)))
        for s in r['samples'][:1]:
            if len(samples) < 12:
                samples.append(dict(job=describe(job), **s))
        for site, f in r['findings'].items():
            seen.setdefault(site, f)
        if r['violation']:
            path = os.path.join(HERE, 'evidence', prop + '-counterexample.json')
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w') as f:
                json.dump(dict(property=prop, module=job['module'], function=job['function'],
                               params=job['params'], inputs=r['violation']['inputs'],
                               known=sorted(known), message=r['violation']['msg'],
                               symbolic_message=r['violation'].get('symbolic_msg'),
                               replay='python3 -m sx.replay ' + path), f, indent=1)
            # replayed once more, in a fresh plain interpreter on the real code
            p = subprocess.run(['python3', '-m', 'sx.replay', path], cwd=HERE,
                               capture_output=True, text=True, timeout=120)
            if p.returncode == 1:
                violation = dict(r['violation'], job=describe(job), path=path)
                gen.close()
                break
            undecided.append((job, 'counterexample does not reproduce in a fresh process: '
                              + (p.stdout + p.stderr)[-300:]))
        elif r['spurious']:
            undecided.append((job, 'counterexample does not reproduce on the real code: %s'
                              % (r['spurious'],)))
        elif r['limit']:
            undecided.append((job, r['limit']))
        elif not r['reached']:
            undecided.append((job, 'vacuous: no path reaches an assertion'))
    wall = time.monotonic() - t0
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2),
        violations=int(violation is not None),
        assumptions=spec.get('assumptions', []) + J.COMMON_ASSUMPTIONS,
        coverage=dict(
            states=total['states'], transitions=total['transitions'],
            traces_validated_against_impl=total['validated'], samples=samples or ['none'],
            explanation='Path-exhaustive symbolic execution of the functions listed, over '
            'symbolic inputs; states = feasible paths explored to their end, transitions = '
            'solver-decided branch decisions, traces_validated = path models replayed on the '
            'real code with equal results.',
            functions_encoded=sorted(functions), bounds=spec['bounds'],
            jobs=len(jobs), jobs_decided=len(jobs) - len(undecided) if violation is None else None,
            queries=total['queries'], assertions=total['assertions'],
            solver_s=round(total['solver_s'], 2), infeasible_prefixes=total['skipped'],
            undecided=[dict(job=describe(j), reason=m) for j, m in undecided],
            known_findings_reproduced=sorted(seen),
            slowest_jobs=sorted(walls, reverse=True)[:5]))
    if violation:
        evidence['coverage']['violation'] = {k: violation[k] for k in ('msg', 'inputs', 'job')}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write('\n')
    print('%s %s: %d jobs, %d paths, %d assertions, %d queries, solver %.1f s, wall %.1f s' % (
        prop, tier, len(jobs), total['states'], total['assertions'], total['queries'],
        total['solver_s'], wall))
    for site in sorted(known):
        if site in seen:
            print('KNOWN-FINDING: property=%s %s (e.g. inputs %s)' % (
                prop, known[site], json.dumps(seen[site]['inputs'], sort_keys=True)[:200]))
    for j, m in undecided:
        print('INCONCLUSIVE: %s: %s' % (describe(j), m))
    if violation:
        print('%s: %s\n  job %s\n  inputs %s' % (prop, violation['msg'], violation['job'],
                                                json.dumps(violation['inputs'], sort_keys=True)))
        print('VIOLATION property=%s replay=%s' % (prop, violation['path']))
        return 1
    # undecided jobs are excluded from the claim (listed above and in the evidence); when
    # they are more than a quarter, there is no answer
    return 2 if 4 * len(undecided) > len(jobs) else 0


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.execvpe(sys.executable, [sys.executable] + sys.argv,
                   dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1'))
    code = main()
    sys.stdout.flush()
    os._exit(code)
