import json,sys
sys.path.insert(0,'/verif/engine')
import plan, jsonschema
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
NOTE='Within the bounds in evidence (book size, slots, steps) every value of every symbolic input is covered by the solver verdicts; undecided or unreached paths are listed and make the run non-exhaustive. Trusts: the IR-to-SMT executor in engine/ (each run cross-checks sampled paths against the native build), z3, rustc. Counterexamples are replayed on the real code before being reported.'
NOTE32='Within the bounds in evidence (orders, tree shapes, slots, callback length) every value of every symbolic input is covered by the solver verdicts; undecided or not encoded paths are listed and make the run non-exhaustive. Trusts: the operator rewriting and stand-ins for bn.js, borsh and web3.js in ts/ (checked each run by replaying sampled paths on the untouched source, and by reading accounts the program wrote), the solvers.'
for d in props:
    i=d['id']
    if i in plan.PLAN or i == 'C32':
        checks.append(dict(property=i,quick_cmd='./check %s quick'%i,thorough_cmd='./check %s thorough'%i,evidence_file='evidence/%s.json'%i,
          technique='symbolic execution of the transpiled TypeScript source, assertions decided by SMT (z3, cvc5), counterexamples replayed on the untouched source' if i == 'C32' else 'symbolic execution of the LLVM IR of the real code, assertions decided by SMT (z3), counterexamples replayed natively',level='model_checking',level_note=NOTE32 if i == 'C32' else NOTE))
    else:
        na.append(dict(property=i,reason='harness not built yet'))
m=dict(version=1,setup_cmd='bash engine/build.sh',checks=checks,not_applicable=na,notes='No hooks in /repo are needed: the harness crate uses the public API of the crate (feature utils).')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks),[x['property'] for x in na])
