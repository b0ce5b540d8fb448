import sys, time, json
import driver
harness=sys.argv[1]; params=[int(x) for x in sys.argv[2].split(',')]; nproc=int(sys.argv[3]) if len(sys.argv)>3 else 1
t=time.time()
r=driver.explore([(0,harness,params)], dict(seed=1,debug=nproc==1), t+float(sys.argv[4] if len(sys.argv)>4 else 120), nproc)
if 'paths' not in r: print(r); sys.exit()
print('paths',r['paths'],'done',r['done'],'inf',r['infeasible'],'panic_ok',r['panic_ok'],'checks',r['checks'],'triv',r['trivial'],'instr',r['instrs'],'forks',r['forks'],'dropped',r['dropped'],'wall %.1f'%(time.time()-t))
print('solver',r['solver']); print('covers',r['covers'],'native',r['native_ok'])
print('unsup',r['unsupported']); print('undec',r['undecided'][:5],len(r['undecided']),'spur',r['spurious'])
for v in r['violations'][:4]: print('VIOL',v)
for v in r['mismatch'][:3]: print('MISM',v)
print('crashes',r['crashes'])
