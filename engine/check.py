"""check <property> [quick|thorough]: decide one property of /repo's current tree."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import driver
import plan

ROOT = driver.ROOT


def known_findings():
    """{property: [substring identifying the finding]} of recorded, unrepaired defects"""
    out = {}
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property='):
                pid, rest = l[len('known: property='):].split(' ', 1)
                key, what = rest.split(' :: ', 1)
                out.setdefault(pid, []).append((key.strip(), what.strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ev = os.path.join(ROOT, 'evidence')
    rep = os.path.join(ev, 'replay')
    os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rep, f))
    if prop == 'C32':
        import tscheck
        sys.exit(tscheck.run(prop, tier, seed, known_findings().get(prop, [])))
    P = plan.PLAN[prop]
    num = int(prop[1:])
    tb = driver.build()
    specs = P[tier]
    jobs = []
    for i, (h, ps) in enumerate(specs):
        jobs.append((i, h, [num] + list(ps)))
    budget = P.get(tier + '_s', 200 if tier == 'quick' else 1500)
    cfg = dict(seed=seed, samples=4, max_samples=40, qtimeout=20000 if tier == 'quick' else 60000,
               exact_timeout=40 if tier == 'quick' else 180, step_limit=P.get('steps', 400000))
    te = time.time()
    r = driver.explore(jobs, cfg, te + budget)
    if 'paths' not in r or r['crashes']:
        print('CHECK ERROR: %s' % '; '.join(r.get('crashes', [])[:2]))
        sys.exit(2)
    te = time.time() - te

    known = known_findings().get(prop, [])
    viol, kn = [], []
    for v in r['violations']:
        hit = [w for k, w in known if k in v['what'] or k in v.get('out', '')]
        (kn if hit else viol).append((v, hit))
    for w in sorted({h[0] for _, h in kn}):
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    lines = []
    for i, (v, _) in enumerate(viol[:5]):
        f = os.path.join(rep, '%s-%d.txt' % (prop, i + 1))
        with open(f, 'w') as o:
            o.write(driver.values_text(v['harness'], v['params'], v['values']))
        lines.append('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(f, ROOT)))
        print('%s %s: %s; the real code on the solver\'s values: %s' % (v['harness'], v['params'][1:], v['what'], v['out'] or v['native']))
    dropped = r['dropped']
    unsup = sum(r['unsupported'].values())
    complete = not dropped and not unsup and not r['undecided']
    for k, n in sorted(r['unsupported'].items())[:4]:
        print('NOT ENCODED (%d paths): %s' % (n, k[:300]))
    for u in r['undecided'][:5]:
        print('UNDECIDED: %s' % u)
    if dropped and not viol:
        print('INCOMPLETE: %d pending branches left when the time budget ran out' % dropped)
    for m in r['mismatch'][:4]:
        print('MISMATCH: %s' % json.dumps(m)[:600])
    s = r['solver']
    fns = sorted(r['fns'].items(), key=lambda x: -x[1]) if isinstance(r['fns'], dict) else list(r['fns'])
    fnames = [x[0] if isinstance(x, tuple) else x for x in fns]
    own = [n for n in fnames if plan.is_repo_fn(n)]
    cov = {'%s/%s' % (specs[j][0], c): n for (j, c), n in sorted(r['covers'].items())}
    coverage = dict(
        states=r['paths'], transitions=r['forks'] + r['paths'], traces_validated_against_impl=r['native_ok'],
        samples=sorted(r['samples'], key=lambda x: -x['decisions'])[:5] or [dict(note='no sampled path')],
        exhaustive=bool(complete and not viol),
        bounds=[dict(harness=h, params=list(ps), meaning=plan.meaning(h, ps), paths=r['jobs'].get(i, {}).get('paths', 0),
                     instructions=r['jobs'].get(i, {}).get('instrs', 0)) for i, (h, ps) in enumerate(specs)],
        outside=P.get('outside', plan.OUTSIDE),
        states_are='paths of the real code executed symbolically, each covering every value of its symbolic inputs; transitions: path extensions',
        assertions=r['checks'], assertions_closed_by_path_facts=r['trivial'], paths_ended_by_tolerated_panic=r['panic_ok'],
        infeasible_paths=r['infeasible'], spurious_counterexamples_refuted=r['spurious'],
        queries=s['queries'], queries_sat=s['sat'], queries_unsat=s['unsat'], queries_unknown=s['unknown'],
        exact_queries=s['exact_queries'], solver_time_s=round(s['time'], 1), longest_query_s=round(s['max_query'], 2),
        functions_encoded=own, functions_encoded_total=len(fnames), externs=r['externs'], instructions=r['instrs'],
        reached=cov, undecided=r['undecided'][:20], undecided_count=len(r['undecided']), not_encoded=r['unsupported'],
        pending_branches=dropped, mismatches=len(r['mismatch']))
    d = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=coverage, assumptions=plan.ASSUMPTIONS + P.get('assume', []),
             wall_s=round(time.time() - t0, 1), violations=len(viol))
    with open(os.path.join(ev, prop + '.json'), 'w') as o:
        json.dump(d, o, indent=1, default=str)
    print('%s %s: %d paths, %d assertions, %d queries (%.1f s solver), %d native replays agree, build %.1f s, explore %.1f s%s' % (
        prop, tier, r['paths'], r['checks'], s['queries'], s['time'], r['native_ok'], tb, te, '' if complete else ' [not exhaustive]'))
    for l in lines:
        print(l)
    if lines:
        sys.exit(1)
    if r['mismatch']:
        print('CHECK ERROR: the encoding and the real code disagree')
        sys.exit(2)
    if r['paths'] == 0:
        print('CHECK ERROR: nothing explored')
        sys.exit(2)
    sys.exit(0)


main()
