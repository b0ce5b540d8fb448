// check.js <property> <tier> <seed>: decides C32 for the current tree; driven by engine/check.py
'use strict';
const fs = require('fs'), path = require('path'), os = require('os');
const { fork, spawnSync } = require('child_process');
const T = require('./sym.js');
const { S } = T;
const { $, Buf, BN } = require('./models.js');
const { JOBS, plan } = require('./jobs.js');
const { load } = require('./load.js');
const ROOT = path.resolve(__dirname, '..');
const SRC = process.env.AOB_JS || '/repo/js/src';

function engineGap(e) {
  return e instanceof T.Unsupported || e instanceof SyntaxError || e instanceof RangeError && /call stack/.test(e.message) ||
    e instanceof TypeError && /is not a function|is not a constructor|is not iterable|BigInt|Cannot convert/.test(e.message) || e instanceof ReferenceError;
}
/** runs one job on concrete inputs; returns the failed check, or null */
function native(client, kind, params, inputs) {
  let i = 0;
  const env = {
    u: (w) => T.cst(inputs[i++], w), assume: (c) => { if (T.bnode(c) !== T.TRUE) throw new Error('not a path of this build'); },
    choose: (l) => l[Number(inputs[i++])], check: (c, what) => { if (T.bnode(c) !== T.TRUE) throw { failed: what }; },
    bytes: (a) => Buffer.from(a.map((x) => Number(T.evaluate(x, new Map())))), bn: (n) => BN.of(T.zext(n, T.W)), num: (n) => T.num(n),
  };
  try { JOBS[kind](env, client, params); return null; } catch (e) {
    if (e && e.failed) return e.failed;
    return 'throws ' + (e && e.message);
  }
}
function explore(clients, kind, params, deadline, qt, seed) {
  const r = { paths: 0, infeasible: 0, nativeOk: 0, mismatch: [], violations: [], unsupported: {}, left: 0, samples: [] };
  S.qt = qt;
  S.checks = S.closed = S.forks = 0; S.undecided = []; S.violations = []; S.heavy = new Set();
  let todo = [[]];
  while (todo.length) {
    if (Date.now() > deadline) { r.left = todo.length; break; }
    const prefix = todo.pop();
    S.begin(prefix); S.pending = [];
    const inputs = [];
    const env = {
      u: (w) => { const v = S.fresh(w); inputs.push(v); return v; },
      assume: (c, heavy) => S.assume(c, heavy),
      choose: (l) => { const at = inputs.length; inputs.push(null); let k = 0; const v = S.fresh(8); while (k < l.length - 1 && !S.decide(T.eq(v, T.cst(k, 8)))) k++; inputs[at] = T.cst(k, 8); return l[k]; },
      check: (c, what) => S.check(c, what),
      bytes: (a) => { const b = new Buf(); for (const x of a) b.push(T.num(T.zext(x, T.W))); return b; },
      bn: (n) => BN.of(T.zext(n, T.W)), num: (n) => T.num(n),
    };
    const concrete = (m) => inputs.map((v) => String(T.evaluate(v, m)));
    const bad = (what, m) => {
      const vals = concrete(m);
      const nat = native(clients.real, kind, params, vals);
      if (nat === null) r.mismatch.push({ kind, params, what });
      else r.violations.push({ kind, params, what, native: nat, values: vals });
    };
    let done = false;
    try { JOBS[kind](env, clients.sym, params); done = true; } catch (e) {
      if (e instanceof T.Abandon) { if (e.message !== 'violation') r.infeasible++; }
      else if (engineGap(e)) { const k = kind + ': ' + e.message.slice(0, 150); r.unsupported[k] = (r.unsupported[k] || 0) + 1; }
      else {
        const m = T.solve(S.pc, qt);
        if (m === 'unsat') r.infeasible++; else if (m === 'unknown') S.undecided.push('throws ' + e.message); else bad('throws ' + e.message, m);
      }
    }
    todo.push(...S.pending);
    if (S.violations.length) { for (const v of S.violations) bad(v.what, v.model); S.violations = []; r.paths++; }
    if (done) {
      const m = T.solve(S.pc, qt);
      if (m === 'unsat') r.infeasible++;
      else {
        r.paths++;
        if (m !== 'unknown' && (r.paths <= 3 || r.paths % 7 === seed % 7)) {
          const vals = concrete(m), nat = native(clients.real, kind, params, vals);
          if (nat === null) r.nativeOk++; else r.mismatch.push({ kind, params, what: 'the real code fails where the encoding does not: ' + nat });
          if (r.samples.length < 1) r.samples.push({ job: kind + ' ' + params.join(','), decisions: S.taken.length, values: vals.length });
        }
      }
    }
    if (r.violations.length >= 2) break;
  }
  Object.assign(r, { checks: S.checks, closed: S.closed, forks: S.forks, undecided: S.undecided });
  return r;
}

function worker() {
  const clients = { sym: load(SRC, true), real: load(SRC, false) };
  process.on('message', (m) => {
    if (m === null) { process.send({ stats: T.stats }, () => process.exit(0)); return; }
    let r;
    try { r = explore(clients, m.job[0], m.job.slice(1), m.deadline, m.qt, m.seed); } catch (e) { r = { crash: String(e && e.stack).slice(0, 600) }; }
    process.send({ i: m.i, r });
  });
  process.send({ ready: true });
}

/** accounts written by the program itself, read by the client */
function linked(dump) {
  const c = load(SRC, false), bad = [];
  const run = (what, f) => { try { const d = f(); if (d) bad.push(what + ': ' + d); } catch (e) { bad.push(what + ': throws ' + e.message); } };
  let n = 0;
  for (const a of dump) {
    n++;
    const data = Buffer.from(a.hex, 'hex');
    const b = (x) => BigInt(x.toString());
    if (a.what === 'side') run('a side with ' + a.orders.length + ' orders', () => {
      const s = c.Slab.deserialize(data, a.cb);
      if (s.header.leafCount !== a.orders.length) return 'the number of orders';
      if (s.header.accountTag !== a.tag) return 'the tag';
      const got = [...s.items(false)].map((x) => [b(x.leafNode.key), b(x.leafNode.baseQuantity), x.callbackInfo.toString('hex')].join());
      const want = a.orders.map((o) => [BigInt(o[0]), BigInt(o[1]), o[2]].join());
      if (got.join(' ') !== want.join(' ')) return 'the orders: ' + got + ' instead of ' + want;
      for (const o of a.orders) { const r = s.getNodeByKey(BN.of(T.cst(BigInt(o[0])))); if (!r || b(r.baseQuantity) !== BigInt(o[1])) return 'the lookup of ' + o[0]; }
      if (c.Slab.computeAllocationSize(a.capacity, a.cb) !== a.size) return 'the size';
    });
    if (a.what === 'queue') run('a queue with ' + a.events.length + ' events', () => {
      const q = c.EventQueue.parse(a.cb, data);
      if (b(q.header.count) !== BigInt(a.events.length) || b(q.header.head) !== BigInt(a.head)) return 'the header';
      const got = a.events.map((_, i) => q.peekAt(i)).map((e) => e instanceof c.EventFill ? ['fill', e.takerSide, b(e.quoteSize), b(e.makerOrderId), b(e.baseSize), Buffer.from(e.makerCallbackInfo).toString('hex'), Buffer.from(e.takerCallbackInfo).toString('hex')].join()
        : ['out', e.side, b(e.orderId), b(e.baseSize), Buffer.from(e.callbackInfo).toString('hex')].join());
      if (got.join(' ') !== a.events.join(' ')) return 'the events: ' + got.join(' ') + ' instead of ' + a.events.join(' ');
      if (c.EventQueue.computeAllocationSize(a.capacity, a.cb) !== a.size) return 'the size';
    });
    if (a.what === 'market') run('a market', () => {
      const m = c.MarketState.deserialize(data, a.cb);
      const k = ['eventQueue', 'bids', 'asks'].map((f) => Buffer.from(m[f].toBytes()).toString('hex')).join();
      if (b(m.tag) !== BigInt(a.tag) || k !== a.keys.join() || b(m.minBaseOrderSize) !== BigInt(a.min) || b(m.tickSize) !== BigInt(a.tick)) return 'a field';
    });
  }
  return { n, bad };
}

async function main() {
  const [prop, tier, seedText, budgetText, tb] = process.argv.slice(2);
  const seed = Number(seedText) || 1, t0 = Date.now();
  const jobs = plan(tier).map((j, i) => ({ j, i }));
  const deadline = Date.now() + Number(budgetText) * 1000;
  const order = [...jobs].sort((a, b) => (b.j[1] || 0) - (a.j[1] || 0) || (a.j[0] < b.j[0] ? -1 : 1));
  const res = new Array(jobs.length);
  let bad = 0, stopped = false;
  let stats = { queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0, max: 0 }, crash = [];
  await new Promise((ok) => {
    let live = 0;
    for (let w = 0; w < Math.min(os.cpus().length, 8); w++) {
      live++;
      const p = fork(__filename, ['--worker'], { env: process.env });
      let cur = null;
      const next = () => { if (bad >= 3) stopped = true; cur = stopped ? null : order.shift(); if (!cur) { p.send(null); return; } p.send({ i: cur.i, job: cur.j, deadline, qt: tier === 'quick' ? 30 : 120, seed }); };
      p.on('message', (m) => {
        if (m.stats) { for (const k in stats) stats[k] = k === 'max' ? Math.max(stats[k], m.stats[k]) : stats[k] + m.stats[k]; return; }
        if (m.r) { if (m.r.crash) crash.push(m.r.crash); else { res[m.i] = m.r; bad += m.r.violations.length; } }
        next();
      });
      p.on('exit', (code) => { if (code) crash.push('a worker ended with ' + code + (cur ? ' on ' + cur.j : '')); if (--live === 0) ok(); });
    }
  });
  const dump = JSON.parse(fs.readFileSync(0, 'utf8'));
  const link = linked(dump);
  const sum = (k) => res.reduce((a, r) => a + (r ? r[k] || 0 : 0), 0);
  const all = (k) => res.flatMap((r) => (r ? r[k] : []));
  const unsupported = {};
  for (const r of res) if (r) for (const k in r.unsupported) unsupported[k] = (unsupported[k] || 0) + r.unsupported[k];
  const out = { jobs: jobs.map(({ j, i }) => ({ harness: j[0], params: j.slice(1), paths: res[i] ? res[i].paths : 0 })), crash, stats, unsupported,
    paths: sum('paths'), infeasible: sum('infeasible'), nativeOk: sum('nativeOk'), checks: sum('checks'), closed: sum('closed'), forks: sum('forks'), left: sum('left'),
    unfinished: res.filter((r) => !r).length + jobs.length - res.length, violations: all('violations'), mismatch: all('mismatch'), undecided: all('undecided'), samples: all('samples').slice(0, 5), linked: link, wall: (Date.now() - t0) / 1000 };
  fs.writeSync(1, JSON.stringify(out));
}

if (process.argv[2] === '--worker') worker();
else if (process.argv[2] === '--replay') {
  const v = JSON.parse(fs.readFileSync(process.argv[3], 'utf8'));
  if (v.dump) { const r = linked(v.dump); console.log(r.bad.length ? 'REPLAY ' + r.bad[0] : 'REPLAY ok'); process.exit(r.bad.length ? 1 : 0); }
  const r = native(load(SRC, false), v.kind, v.params, v.values);
  console.log(r === null ? 'REPLAY ok' : 'REPLAY ' + r);
  process.exit(r === null ? 0 : 1);
} else if (process.argv[2] === '--one') {
  const r = explore({ sym: load(SRC, true), real: load(SRC, false) }, process.argv[3], process.argv.slice(4).map(Number), Date.now() + 600000, 60, 1);
  console.log(JSON.stringify(r, null, 1).slice(0, 3000), JSON.stringify(T.stats));
} else main();
