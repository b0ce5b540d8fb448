"""Explores every path of a set of harness runs in parallel, decides the checks on each path with the solver, replays
counterexamples and sampled paths natively."""
import glob
import hashlib
import json
import multiprocessing as mp
import os
import queue
import random
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

BUILD = os.path.join(ROOT, '.build')
DEPS = os.path.join(BUILD, 'target/debug/deps')
REPLAY = os.path.join(BUILD, 'target/debug/replay')


def build(log=True):
    t = time.time()
    p = subprocess.run(['bash', os.path.join(HERE, 'build.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-6000:])
        print('BUILD FAILED')
        sys.exit(2)
    return time.time() - t


def lls():
    out = []
    for pat in ('aobv-*.ll', 'asset_agnostic_orderbook*.ll', 'bonfida_utils-*.ll', 'dex_wasm*.ll', 'borsh-*.ll'):
        fs = sorted(glob.glob(os.path.join(DEPS, pat)), key=os.path.getmtime)
        if pat.startswith('borsh'):
            out += fs
        else:
            out.append(fs[-1])
    return out


def lazy_lls():
    fs = sorted(glob.glob(os.path.join(DEPS, 'solana_program-*.ll')), key=os.path.getmtime)
    return fs[-1:]


def native(harness, params, values, timeout=20):
    """(exit code, stdout) of the real code on concrete values"""
    os.makedirs(os.path.join(BUILD, 'tmp'), exist_ok=True)
    txt = values_text(harness, params, values)
    f = os.path.join(BUILD, 'tmp', 'v%d_%s.txt' % (os.getpid(), hashlib.md5(txt.encode()).hexdigest()[:10]))
    with open(f, 'w') as h:
        h.write(txt)
    try:
        p = subprocess.run([REPLAY, f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout,
                           env=dict(os.environ, RUST_LOG='off'))
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    finally:
        os.unlink(f)


def values_text(harness, params, values):
    return harness + '\n' + ' '.join(map(str, params)) + '\n' + '\n'.join(map(str, values)) + '\n'


class Worker:
    def __init__(self, files, cfg):
        import execir
        import smt
        self.smt = smt
        self.X = execir
        self.cfg = cfg
        self.cfg_steps = cfg.get('step_limit', 400000)
        self.eng = execir.Engine(files, smt.SolverStack(cfg.get('qtimeout', 20000)), cfg.get('step_limit', 400000), lazy_lls())
        self.res = dict(paths=0, done=0, infeasible=0, panic_ok=0, checks=0, trivial=0, samples=[], covers={}, native_ok=0, undecided=[],
                        unsupported={}, violations=[], spurious=0, maxdepth=0, traces=0, mismatch=[], jobs={}, decisions=0)
        self.rng = random.Random(cfg.get('seed', 1))
        self.share = None   # (violations seen by all workers, queue they are sent to, stop flag, deadline)

    def give_up(self):
        """seconds a counterexample may take; 0 once the run is being wound up"""
        t = self.cfg.get('exact_timeout', 60)
        if self.share:
            nviol, _, stop, deadline = self.share
            if stop.value == 2:
                return 0
            t = min(t, max(4, deadline + 45 - time.time()), 10 if nviol.value else t)
        return t

    def values(self, st, model):
        import terms as T
        memo = {}
        return [T.ev(t, model, memo, True) for w, t in st.anys]

    # ---------------------------------------------------------------- one path
    def finish(self, st, kind, msg, job):
        import terms as T
        r = self.res
        eng = self.eng
        jid, harness, params = job
        J = r['jobs'].setdefault(jid, dict(paths=0, instrs=0))
        if kind == 'infeasible':
            r['infeasible'] += 1
            return
        # is the path itself possible? (assumptions are added lazily)
        pc = st.pc
        checks = [c for c in st.checks if not (type(c[0]) is int and c[0]) and st.known(c[0]) is not True]
        neg = 0
        for c in checks:
            neg = T.Or(neg, T.Not(c[0]))
        r['paths'] += 1
        J['paths'] += 1
        J['instrs'] += st.steps
        r['checks'] += len(st.checks)
        r['trivial'] += len(st.checks) - len(checks)
        r['maxdepth'] = max(r['maxdepth'], len(st.log))
        bad = []
        if kind == 'checkfail':
            bad.append(('check', self.where(st, st.checks[-1]), 1))
            checks = checks[:-1]
            neg = 0
            for c in checks:
                neg = T.Or(neg, T.Not(c[0]))
        elif kind in ('panic', 'ub', 'limit'):
            if kind == 'panic' and st.panic_ok:
                r['panic_ok'] += 1
            else:
                bad.append((kind, msg, 1))
        if type(neg) is not int:
            q, m = eng.solver.check(pc, neg)
            if q != 'unsat':
                for c in checks:
                    n = T.Not(c[0])
                    q1, m1 = eng.solver.check(pc, n)
                    if q1 != 'unsat':
                        bad.append(('check', self.where(st, c), n))
        done = kind == 'done'
        if done:
            r['done'] += 1
        for b in bad[:4]:
            self.candidate(st, b, job)
        if not bad and (done or kind == 'panic'):
            self.sample(st, job, kind)

    def where(self, st, c):
        import externs
        return '%s:%s' % (os.path.basename(externs.read_str(self.eng, st, c[2], c[3])) if type(c[2]) is int else '?', c[1])

    def candidate(self, st, b, job):
        kind, what, extra = b
        jid, harness, params = job
        key = (kind, what)
        r = self.res
        if sum(1 for v in r['violations'] if v['what'] == what) >= 2:
            return
        limit = self.give_up()
        if not limit:
            r['undecided'].append('%s %s: %s %s (run stopped)' % (harness, params, kind, what))
            return
        conds = st.pc.tolist() if st.pc else []
        ex = None
        if type(extra) is not int:
            conds = conds + [extra]
            ex = extra
        q, m = self.eng.solver.pins(st.pc, ex)
        if q != 'sat':
            q, m = self.smt.exact_check(conds, limit, self.eng.solver.stats)
        if q == 'unsat':
            r['spurious'] += 1
            return
        if q == 'unknown':
            r['undecided'].append('%s %s: %s %s' % (harness, params, kind, what))
            return
        vals = self.values(st, m)
        rc, out = native(harness, params, vals)
        rep = (rc == 1 and kind == 'check') or (rc == 1) or (rc == 2) or (rc == 'timeout' and kind == 'limit') or (isinstance(rc, int) and rc < 0) or \
            (kind == 'ub' and rc not in (0, 3))
        if rep:
            v = dict(kind=kind, what=what, harness=harness, params=params, values=vals, native=rc, out=out.strip().split('\n')[-1][:300])
            r['violations'].append(v)
            if self.share:
                nviol, vq, stop, _ = self.share
                vq.put(v)
                with nviol.get_lock():
                    nviol.value += 1
                    if nviol.value >= self.cfg.get('max_violations', 3):
                        stop.value = 2
        elif kind == 'limit':
            r['undecided'].append('%s %s: %s' % (harness, params, what))
        else:
            r['mismatch'].append(dict(harness=harness, params=params, what='%s %s not reproduced natively (rc %s)' % (kind, what, rc), values=vals))

    def sample(self, st, job, kind):
        """native replay of a concrete instance of this path: translation check and reachability evidence"""
        import terms as T
        r = self.res
        jid, harness, params = job
        cov = sorted(st.covers)
        new = [c for c in cov if (jid, c) not in r['covers'] or not r['covers'][(jid, c)]]
        n = r['native_ok']
        want = new or self.rng.random() < (1.0 if n < self.cfg.get('samples', 6) else 0.01)
        if not want or n > self.cfg.get('max_samples', 60):
            for c in cov:
                r['covers'].setdefault((jid, c), 0)
            return
        m = st.model
        if m is None:
            m = eng_model(self.eng, st)
        if m is not None and -1 in m:
            q = 'sat'
        elif new:
            q, m = self.smt.exact_check(st.pc.tolist() if st.pc else [], self.cfg.get('sample_timeout', 3), None, short=True)
        else:
            q = 'unknown'
        if q != 'sat':
            for c in cov:
                r['covers'].setdefault((jid, c), 0)
            return
        vals = self.values(st, m)
        rc, out = native(harness, params, vals)
        memo = {}
        tr = [T.ev(x, m, memo, True) for x in st.notes]
        ntr = [int(l.split()[1]) for l in out.split('\n') if l.startswith('TRACE ')]
        ncov = sorted({int(l.split()[1]) for l in out.split('\n') if l.startswith('COVER ')})
        good = rc == 0 and tr == ntr and ncov == cov
        if good:
            r['native_ok'] += 1
            for c in cov:
                r['covers'][(jid, c)] = r['covers'].get((jid, c), 0) + 1
            if len(r['samples']) < 8:
                r['samples'].append(dict(harness=harness, params=params, values=vals[:30], observed=ntr[:12], decisions=len(st.log)))
        else:
            r['mismatch'].append(dict(harness=harness, params=params, what='path differs natively: rc %s, traces %s vs %s, covers %s vs %s' % (
                rc, tr[:12], ntr[:12], cov, ncov), values=vals))

    def run_task(self, job, script, offload):
        eng = self.eng
        jid, harness, params = job
        eng.params = params
        eng.step_limit = self.cfg_steps * (10 if harness.endswith('_deep') else 1)
        st = eng.initial(harness)
        st.script = list(script)
        eng.stack = [st]
        while eng.stack:
            st = eng.stack.pop()
            try:
                eng.run(st)
                kind, msg = 'done', ''
            except self.X.PathEnd as e:
                kind, msg = e.kind, e.msg
            except self.X.Unsupported as e:
                u = self.res['unsupported']
                k = str(e)
                u[k] = u.get(k, 0) + 1
                if self.cfg.get('debug'):
                    traceback.print_exc()
                continue
            self.finish(st, kind, msg, job)
            if offload(eng.stack, job):
                return


def eng_model(eng, st):
    q, m = eng.solver.pins(st.pc, None)
    return m if q == 'sat' else None


def worker_main(wid, files, cfg, q, outstanding, waiting, deadline, out, stop, nviol, vq):
    try:
        W = Worker(files, cfg)
        W.rng.seed(cfg.get('seed', 1) * 1000 + wid)
        W.share = nviol, vq, stop, deadline
        dropped = 0

        def offload(stack, job):
            nonlocal dropped
            if stop.value:
                dropped += len(stack)
                return True
            if time.time() > deadline:
                dropped += len(stack)
                stop.value = max(stop.value, 1)
                return True
            while len(stack) > 1 and waiting.value > 0 and q.qsize() < waiting.value:
                s = stack.pop(0)
                with outstanding.get_lock():
                    outstanding.value += 1
                q.put((job, s.log))
            return False
        idle = False
        while True:
            try:
                job, script = q.get(timeout=0.02)
            except queue.Empty:
                if not idle:
                    idle = True
                    with waiting.get_lock():
                        waiting.value += 1
                if outstanding.value <= 0:
                    break
                continue
            if idle:
                idle = False
                with waiting.get_lock():
                    waiting.value -= 1
            if stop.value:
                dropped += 1
            else:
                try:
                    W.run_task(job, script, offload)
                except Exception:
                    W.res['unsupported']['internal: ' + traceback.format_exc()[-1500:]] = 1
            with outstanding.get_lock():
                outstanding.value -= 1
        r = W.res
        r['instrs'] = W.eng.instr_count
        r['forks'] = W.eng.forks
        r['solver'] = W.eng.solver.stats.asdict()
        r['fns'] = W.eng.used
        r['externs'] = sorted(W.eng.extern_used)
        r['dropped'] = dropped
        if cfg.get('debug'):
            print('how', {k: (v[0], round(v[1], 2), round(v[2], 2)) for k, v in W.eng.solver.how.items()})
        out.put(r)
    except Exception:
        out.put({'crash': traceback.format_exc()})


def W0(files, cfg):
    """an empty result"""
    W = Worker(files, cfg)
    r = W.res
    r.update(instrs=0, forks=0, solver=W.eng.solver.stats.asdict(), fns=W.eng.used, externs=[], dropped=0)
    return r


def explore(jobs, cfg, deadline, nproc=None):
    """jobs: [(id, harness, params)]"""
    files = lls()
    nproc = nproc or cfg.get('nproc') or min(8, os.cpu_count() or 1)
    ctx = mp.get_context('fork')
    q, out = ctx.Queue(), ctx.Queue()
    outstanding, waiting, stop = ctx.Value('i', len(jobs)), ctx.Value('i', 0), ctx.Value('i', 0)
    nviol, vq = ctx.Value('i', 0), ctx.Queue()
    for j in jobs:
        q.put((j, []))
    ps = [ctx.Process(target=worker_main, args=(i, files, cfg, q, outstanding, waiting, deadline, out, stop, nviol, vq)) for i in range(nproc)]
    for p in ps:
        p.start()
    total = None
    crashes = []
    got = 0
    viol = []
    stopped = None
    while got < len(ps):
        try:
            while True:
                viol.append(vq.get_nowait())
        except queue.Empty:
            pass
        if stop.value == 2 and stopped is None:
            stopped = time.time()
        if time.time() > deadline + 90 or (stopped and time.time() > stopped + 10 and len(viol) >= nviol.value):
            # enough is known, or time is up: what the remaining workers were at stays undecided
            for p in ps:
                p.kill()
            if total is None:
                total = W0(files, cfg)
            total['dropped'] += len(ps) - got
            total['undecided'].append('%d workers stopped while deciding a path' % (len(ps) - got))
            have = [(v['what'], v['values']) for v in total['violations']]
            total['violations'] += [v for v in viol if (v['what'], v['values']) not in have]
            break
        try:
            r = out.get(timeout=2)
        except queue.Empty:
            dead = [p for p in ps if not p.is_alive()]
            if len(dead) + 0 > got and all(not p.is_alive() for p in ps):
                try:
                    r = out.get(timeout=2)
                except queue.Empty:
                    crashes.append('worker died')
                    break
            else:
                if any(p.exitcode not in (None, 0) for p in ps):
                    crashes.append('worker killed')
                    stop.value = 1
                    for p in ps:
                        p.terminate()
                    break
                continue
        got += 1
        if 'crash' in r:
            crashes.append(r['crash'])
            stop.value = 1
            outstanding.value = 0
            continue
        if total is None:
            total = r
        else:
            merge(total, r)
    for p in ps:
        p.join(5)
    if total is None:
        total = dict(crash=crashes)
    total['crashes'] = crashes
    return total


def merge(a, b):
    import smt
    for k, v in b.items():
        if k == 'maxdepth':
            a[k] = max(a[k], v)
        elif k == 'solver':
            s = smt.Stats()
            s.add(a[k])
            s.add(v)
            a[k] = s.asdict()
        elif k == 'jobs':
            for j, d in v.items():
                e = a[k].setdefault(j, dict(paths=0, instrs=0))
                for x in d:
                    e[x] += d[x]
        elif k == 'externs':
            a[k] = sorted(set(a[k]) | set(v))
        elif isinstance(v, int):
            a[k] += v
        elif isinstance(v, list):
            a[k] += v
        elif isinstance(v, dict):
            for x, y in v.items():
                a[k][x] = a[k].get(x, 0) + y
