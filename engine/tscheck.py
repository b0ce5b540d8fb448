"""C32: the TypeScript client, decided by ts/ (symbolic execution of the transpiled source)."""
import json
import os
import subprocess
import time

import driver

ROOT = driver.ROOT
ASSUME = [
    'bn.js, borsh and @solana/web3.js are not installed here; they are replaced by stand-ins (ts/models.js) written from their documented behaviour, also in the native replays',
    'integers are 136-bit vectors: a BN beyond 2^135 is outside',
    'JavaScript numbers are taken as integers; operations that would leave the integers on symbolic values are reported as not encoded',
]


def run(prop, tier, seed, known):
    t0 = time.time()
    tb = driver.build()
    exe = os.path.join(ROOT, '.build', 'target', 'debug', 'dump')
    d = subprocess.run([exe], capture_output=True, text=True, timeout=60)
    dump = d.stdout if d.returncode == 0 else '[]'
    budget = 300 if tier == 'quick' else 2400
    te = time.time()
    p = subprocess.run(['node', os.path.join(ROOT, 'ts', 'check.js'), prop, tier, str(seed), str(budget)], input=dump, capture_output=True, text=True)
    te = time.time() - te
    try:
        r = json.loads(p.stdout)
    except ValueError:
        print('CHECK ERROR: %s' % (p.stderr or p.stdout)[-1500:])
        return 2
    if r['crash']:
        print('CHECK ERROR: %s' % '; '.join(r['crash'][:2])[:1500])
        return 2
    ev = os.path.join(ROOT, 'evidence')
    rep = os.path.join(ev, 'replay')
    viol, kn, lines = [], set(), []
    found = [(dict(kind=v['kind'], params=v['params'], values=v['values']), '%s %s: %s; the real code on the solver\'s values: %s' % (v['kind'], v['params'], v['what'], v['native'])) for v in r['violations']]
    if r['linked']['bad']:
        found.append((dict(dump=json.loads(dump)), 'an account written by the program is read wrongly: %s' % r['linked']['bad'][0]))
    for data, text in found:
        hit = [w for k, w in known if k in text]
        if hit:
            kn.add(hit[0])
        else:
            viol.append((data, text))
    for w in sorted(kn):
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    seen = set()
    for data, text in viol:
        key = text.split(';')[0].split(':', 1)[1]
        if key in seen or len(lines) >= 5:
            continue
        seen.add(key)
        f = os.path.join(rep, '%s-%d.json' % (prop, len(lines) + 1))
        with open(f, 'w') as o:
            json.dump(data, o)
        print(text[:400])
        lines.append('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(f, ROOT)))
    complete = not r['left'] and not r['unfinished'] and not r['unsupported'] and not r['undecided']
    for k, n in sorted(r['unsupported'].items())[:4]:
        print('NOT ENCODED (%d paths): %s' % (n, k[:300]))
    for u in r['undecided'][:4]:
        print('UNDECIDED: %s' % u)
    for m in r['mismatch'][:4]:
        print('MISMATCH: %s' % json.dumps(m)[:500])
    s = r['stats']
    coverage = dict(
        states=r['paths'], transitions=r['forks'] + r['paths'], traces_validated_against_impl=r['nativeOk'] + r['linked']['n'],
        samples=r['samples'] or [dict(note='no sampled path')], exhaustive=bool(complete and not viol),
        bounds=r['jobs'], meaning='walk, find: orders, tree shape, slots, callback length, order of slots, extra callback infos; depth: the same and levels; queue: slots, callback length, extra bytes, what is read (0 slots, 1 peek, 2 all fills, 3.. fills up to a limit)',
        outside='books of more orders, queues of more slots than listed; accounts the program does not accept; loading over the network, the instruction builders',
        states_are='paths of the client code executed symbolically, each covering every value of its symbolic inputs; transitions: path extensions',
        assertions=r['checks'], assertions_closed_without_solver=r['closed'], infeasible_paths=r['infeasible'],
        queries=s['queries'], queries_sat=s['sat'], queries_unsat=s['unsat'], queries_unknown=s['unknown'], solver_time_s=round(s['time'], 1), longest_query_s=round(s['max'], 2),
        functions_encoded=['slab.ts: Slab (constructor, deserialize, computeAllocationSize, getNodeByKey, getNode, items, iterator, getMinMaxNodes, getL2DepthJS, getCallBackInfo), LeafNode.getPrice',
                           'event_queue.ts: EventQueue (parse, parseEvent, peekAt, parseFill, computeAllocationSize)', 'market_state.ts: MarketState.deserialize', 'utils.ts: getPriceFromKey'],
        accounts_written_by_the_program_read=r['linked']['n'], not_encoded=r['unsupported'], undecided=r['undecided'][:20], pending_branches=r['left'], mismatches=len(r['mismatch']))
    e = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=coverage, assumptions=ASSUME, wall_s=round(time.time() - t0, 1), violations=len(viol))
    with open(os.path.join(ev, prop + '.json'), 'w') as o:
        json.dump(e, o, indent=1)
    print('%s %s: %d paths, %d assertions, %d queries (%.1f s solver), %d native replays agree, %d accounts of the program read, build %.1f s, explore %.1f s%s' % (
        prop, tier, r['paths'], r['checks'], s['queries'], s['time'], r['nativeOk'], r['linked']['n'], tb, te, '' if complete else ' [not exhaustive]'))
    for l in lines:
        print(l)
    if lines:
        return 1
    if r['mismatch']:
        print('CHECK ERROR: the encoding and the real code disagree')
        return 2
    if r['paths'] == 0:
        print('CHECK ERROR: nothing explored')
        return 2
    return 0
