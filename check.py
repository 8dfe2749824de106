#!/opt/venv/bin/python
"""Decides one property: check.py <ID> [--tier quick|thorough] [--case NAME]
Exit 0: held on everything explored; 1: violation (VIOLATION line); 2: no answer."""
import json
import logging
import multiprocessing as mp
import os
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)

if '--replay-worker' not in sys.argv and '--replay' not in sys.argv:
    os.environ['NUMBA_DISABLE_JIT'] = '1'

from symx import run

logging.disable(logging.CRITICAL)


def known_findings(prop):
    """(tag text, case substring, label substring) of the recorded, unrepaired findings of a property"""
    out = []
    fn = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('status') == 'known' and d['property'] == prop:
                    out.append(d)
    return out


def _worker(cs, deadline, tier, seed, conn):
    try:
        import resource
        lim = 12 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    try:
        r = run.explore(cs, deadline, tier, seed)
    except BaseException as e:
        import traceback
        r = dict(case = cs.name, status = 'error', message = f'{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}')
    conn.send(r)
    conn.close()


def run_cases(cases, budget, tier, seed, jobs):
    ctx = mp.get_context('fork')
    end = time.time() + budget
    pend = sorted(cases, key = lambda c: -c.opts.get('cost', 1))
    live = {}
    results = {}
    while pend or live:
        while pend and len(live) < jobs:
            cs = pend.pop(0)
            rd, wr = ctx.Pipe(False)
            pr = ctx.Process(target = _worker, args = (cs, end, tier, seed, wr))
            pr.start()
            wr.close()
            live[cs.name] = (pr, rd, cs)
        for n, (pr, rd, cs) in list(live.items()):
            got = None
            if rd.poll(0.01):
                try:
                    got = rd.recv()
                except EOFError:
                    got = dict(case = n, status = 'error', message = f'worker ended (exit code {pr.exitcode})')
            elif not pr.is_alive():
                got = dict(case = n, status = 'error', message = f'worker ended (exit code {pr.exitcode})')
            elif time.time() > end + 30:
                pr.kill()
                got = dict(case = n, status = 'inconclusive', message = 'time limit')
            if got is not None:
                results[n] = got
                pr.join(5)
                if pr.is_alive():
                    pr.kill()
                del live[n]
        time.sleep(0.005)
    return [results[c.name] for c in cases]


def main(argv):
    if '--replay-worker' in argv:
        run.replay_worker()
        return 0
    if '--replay' in argv:
        return replay_file(argv[argv.index('--replay') + 1])
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    only = argv[argv.index('--case') + 1] if '--case' in argv else None
    verbose = '-v' in argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from symx import shim, core
    core.z3.set_param('smt.random_seed', seed)
    failed_imports = shim.load_all()
    run.import_checks(prop)
    cases = [c for c in run.CASES if c.prop == prop and (tier == 'thorough' or c.tiers == 'quick')]
    if only:
        cases = [c for c in cases if only in c.name]
    if not cases:
        print(f'no cases for {prop}')
        return 2
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), 'duplicate case names'
    budget = float(os.environ.get('VERIF_BUDGET', 600 if tier == 'quick' else 820))
    results = run_cases(cases, budget, tier, seed, int(os.environ.get('VERIF_JOBS', '8')))

    # replay candidates and sampled models on the real code
    jobs, tags = [], []
    for r in results:
        for ci, cand in enumerate(r.get('candidates', [])):
            for inp in [cand['inputs']] + cand.get('alternates', []):
                jobs.append(dict(prop = prop, case = r['case'], inputs = inp, tier = tier))
                tags.append(('cand', r['case'], ci))
        for mi, m in enumerate(r.get('models', [])):
            jobs.append(dict(prop = prop, case = r['case'], inputs = m['inputs'], tier = tier))
            tags.append(('model', r['case'], mi))
    replays = run.run_replay(prop, jobs)
    byname = {r['case']: r for r in results}
    problems, violations, known_hits = [], [], []
    validated = 0
    findings = known_findings(prop)

    def finding_for(case, text):
        for f in findings:
            if f['case'] in case and any(s in text for s in f['match']):
                return f
        return None

    if replays is None and jobs:
        problems.append('replay process failed')
        replays = []
    confirmed = {}
    for (kind, cname, i), job, rep in zip(tags, jobs, replays):
        r = byname[cname]
        if kind == 'cand':
            if confirmed.get((cname, i)):
                continue
            bad = list(rep['failures'])
            if rep['exception']:
                bad.append('raised ' + rep['exception'])
            if bad and not rep['assumption_failed']:
                confirmed[(cname, i)] = dict(case = cname,
                                             label = r['candidates'][i]['label'],
                                             inputs = job['inputs'],
                                             failures = bad,
                                             traceback = rep.get('traceback'))
            else:
                confirmed.setdefault((cname, i), None)
        else:
            if rep['assumption_failed']:
                # rounding of a model value to floating point can leave the assumed region
                continue
            if rep['exception'] or rep['failures']:
                bad = list(rep['failures']) + ([rep['exception']] if rep['exception'] else [])
                confirmed[(cname, 'm%d' % i)] = dict(case = cname,
                                                     label = 'failure of the real code on a model of a path',
                                                     inputs = job['inputs'],
                                                     failures = bad,
                                                     traceback = rep.get('traceback'))
                continue
            if r['models'][i]['obs'] is None:
                continue
            d = run.obs_differ(r['models'][i]['obs'], rep['obs'])
            if d is None:
                validated += 1
            elif not r.get('rounded') and not r.get('idealised'):
                problems.append(f'{cname}: encoding disagrees with the real code: {d} for {job["inputs"]}')
            else:
                r.setdefault('loose', []).append(d)
    for (cname, i), v in confirmed.items():
        if v is None:
            cand = byname[cname]['candidates'][i]
            problems.append(f'{cname}: counterexample to "{cand["label"]}" did not reproduce on the real code: '
                            f'{json.dumps(cand["inputs"])[:1500]}')
            continue
        text = v['label'] + ' | ' + ' | '.join(v['failures'])
        f = finding_for(cname, text)
        if f is not None:
            known_hits.append((f, v))
        else:
            violations.append(v)
    for r in results:
        if r['status'] in ('inconclusive', 'error'):
            problems.append(f'{r["case"]}: {r["status"]}: {r.get("message")}')

    tot = {}
    for r in results:
        for k, v in r.get('stats', {}).items():
            tot[k] = round(tot.get(k, 0) + v, 3)
    funcs = sorted({f for r in results for f in r.get('functions', [])})
    ev = dict(property = prop,
              tier = tier,
              seed = seed,
              level = 'model_checking',
              coverage = dict(states = int(tot.get('paths', 0)),
                              transitions = int(tot.get('decisions', 0)),
                              traces_validated_against_impl = validated,
                              samples = [
                                  dict(case = r['case'], inputs = r['models'][0]['inputs'])
                                  for r in results
                                  if r.get('models')
                              ][:6],
                              rule = 'states: symbolic paths of the real code explored to the end, each a set of inputs '
                              'decided by the solver; transitions: branch decisions taken on symbolic conditions; '
                              'traces_validated: solver models of explored paths re-run on the unpatched code with '
                              'equal observations and every obligation holding',
                              solver = 'z3 ' + core.z3.get_version_string(),
                              solver_queries = int(tot.get('queries', 0)),
                              solver_seconds = round(tot.get('solver_s', 0.0), 2),
                              solver_unknown = int(tot.get('unknown', 0)),
                              obligations_evaluated = int(tot.get('obligations', 0)),
                              obligations_settled_by_simplifier = int(tot.get('simplified', 0)),
                              infeasible_paths = int(tot.get('infeasible_paths', 0)),
                              functions_encoded = funcs,
                              cases = [
                                  dict(case = r['case'],
                                       bounds = r.get('bounds', ''),
                                       status = r['status'],
                                       paths = r.get('stats', {}).get('paths'),
                                       reached_end = r.get('reached'),
                                       obligations = r.get('labels'),
                                       arithmetic = 'reals (idealised floating point)' if r.get('idealised') else
                                       'exact',
                                       wall_s = r.get('wall_s')) for r in results
                              ],
                              modules_not_imported = failed_imports,
                              problems = problems,
                              known_findings = [f['id'] for f, _ in known_hits]),
              assumptions = [
                  'numpy, math and builtin numerics are modelled by /verif/symx (validated by replaying solver models '
                  'on the real code)',
                  'cases marked reals treat floating point arithmetic as real arithmetic',
                  'numba compiled functions are decided through their python source',
              ],
              wall_s = round(time.time() - t0, 2),
              violations = len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok = True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as fp:
        json.dump(ev, fp, indent = 1)
    if verbose:
        for r in results:
            print(f'  {r["case"]}: {r["status"]} paths={r.get("stats", {}).get("paths")} reached={r.get("reached")} '
                  f'queries={r.get("stats", {}).get("queries")} wall={r.get("wall_s")} models={len(r.get("models", []))} '
                  f'{"IDEAL" if r.get("idealised") else ""} loose={len(r.get("loose", []))} {r.get("message", "")}')
    print(f'{prop}: {len(results)} cases, {int(tot.get("paths", 0))} paths, {int(tot.get("queries", 0))} queries, '
          f'{int(tot.get("obligations", 0))} obligations, {validated} traces validated, {ev["wall_s"]} s')
    done = set()
    for f, v in known_hits:
        if f['id'] not in done:
            done.add(f['id'])
            print(f'KNOWN-FINDING: property={prop} {f["what"]}')
    if violations:
        for n, v in enumerate(violations[:5]):
            path = os.path.join(VERIF, 'evidence', f'replay-{prop}-{n}.json')
            with open(path, 'w') as fp:
                json.dump(dict(property = prop, tier = tier, **v), fp, indent = 1)
            print(f'  {v["case"]}: {v["label"]}')
            for b in v['failures'][:4]:
                print(f'    real code: {b}')
            print(f'    inputs: {json.dumps(v["inputs"])[:800]}')
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    if problems:
        for p in problems[:20]:
            print(f'NO-ANSWER property={prop} {p}')
        bad = {r['case'] for r in results if any(p.startswith(r['case'] + ':') for p in problems)}
        if not bad or 3 * len(bad) > len(results):
            return 2
        # the property held on everything explored; what was not decided is listed above and in the evidence
    return 0


def replay_file(path):
    d = json.load(open(path))
    rep = run.run_replay(d['property'],
                         [dict(prop = d['property'], case = d['case'], inputs = d['inputs'], tier = d['tier'])])
    print(json.dumps(rep, indent = 1))
    bad = rep is None or rep[0]['failures'] or rep[0]['exception']
    return 1 if bad else 0


if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
