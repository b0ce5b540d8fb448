// Terms, the solver, and path exploration by re-execution for the TypeScript client.
'use strict';
const { spawnSync } = require('child_process');
const W = 136; // every integer is a 136-bit two's complement vector

class Unsupported extends Error {}
class Abandon extends Error {}

// ---- terms (hash-consed)
const table = new Map();
let nextId = 0;
function mk(op, sort, args, attr) {
  const k = op + '|' + (attr === undefined ? '' : attr) + '|' + args.map((a) => a.id).join(',') + '|' + sort;
  let n = table.get(k);
  if (!n) { n = { id: nextId++, op, sort, args, attr }; table.set(k, n); }
  return n;
}
const M = (w) => (1n << BigInt(w)) - 1n;
const cst = (v, w = W) => mk('const', w, [], BigInt.asUintN(w, BigInt(v)));
const isC = (n) => n.op === 'const';
const TRUE = mk('true', 'b', []), FALSE = mk('false', 'b', []);
const sgn = (n) => BigInt.asIntN(n.sort, n.attr);
function variable(name, w) { return mk('var', w, [], name); }
function zext(n, w) { if (n.sort === w) return n; if (isC(n)) return cst(n.attr, w); return mk('zext', w, [n], w - n.sort); }
function sext(n, w) { if (n.sort === w) return n; if (isC(n)) return cst(sgn(n), w); return mk('sext', w, [n], w - n.sort); }
function extract(n, hi, lo) {
  const w = hi - lo + 1;
  if (w === n.sort) return n;
  if (isC(n)) return cst(n.attr >> BigInt(lo), w);
  if (n.op === 'zext') { const i = n.args[0]; if (hi < i.sort) return extract(i, hi, lo); if (lo >= i.sort) return cst(0, w); }
  if (n.op === 'extract') { const l = n.attr.split(',').map(Number); return extract(n.args[0], l[1] + hi, l[1] + lo); }
  return mk('extract', w, [n], hi + ',' + lo);
}
function concat(h, l) {
  if (isC(h) && isC(l)) return cst((h.attr << BigInt(l.sort)) | l.attr, h.sort + l.sort);
  if (h.op === 'extract' && l.op === 'extract' && h.args[0] === l.args[0]) {
    const a = h.attr.split(',').map(Number), b = l.attr.split(',').map(Number);
    if (a[1] === b[0] + 1) return extract(h.args[0], a[0], b[1]);
  }
  return mk('concat', h.sort + l.sort, [h, l]);
}
const FOLD = {
  bvadd: (a, b) => a + b, bvsub: (a, b) => a - b, bvmul: (a, b) => a * b, bvand: (a, b) => a & b, bvor: (a, b) => a | b, bvxor: (a, b) => a ^ b,
};
function bv(op, a, b) {
  if (isC(a) && isC(b)) {
    if (FOLD[op]) return cst(FOLD[op](a.attr, b.attr), a.sort);
    if (op === 'bvshl') return b.attr >= BigInt(a.sort) ? cst(0, a.sort) : cst(a.attr << b.attr, a.sort);
    if (op === 'bvlshr') return b.attr >= BigInt(a.sort) ? cst(0, a.sort) : cst(a.attr >> b.attr, a.sort);
    if (b.attr !== 0n) {
      if (op === 'bvsrem') return cst(sgn(a) % sgn(b), a.sort);
      if (op === 'bvsdiv') return cst(sgn(a) / sgn(b), a.sort);
    }
  }
  if ((op === 'bvadd' || op === 'bvor' || op === 'bvxor' || op === 'bvshl' || op === 'bvlshr' || op === 'bvsub') && isC(b) && b.attr === 0n) return a;
  if ((op === 'bvadd' || op === 'bvor' || op === 'bvxor') && isC(a) && a.attr === 0n) return b;
  return mk(op, a.sort, [a, b]);
}
function eq(a, b) {
  if (a === b) return TRUE;
  if (isC(a) && isC(b)) return a.attr === b.attr ? TRUE : FALSE;
  return a.id < b.id ? mk('=', 'b', [a, b]) : mk('=', 'b', [b, a]);
}
// comparisons with a bit length become shifts
const lengthOf = new Map();
function lengthTest(a, b) {
  const part = (n) => (lengthOf.has(n) ? [lengthOf.get(n), null] : n.op === 'bvsub' && isC(n.args[0]) && lengthOf.has(n.args[1]) ? [lengthOf.get(n.args[1]), n.args[0]] : null);
  const above = (x, n) => or(sltRaw(n, cst(0)), not(eq(bv('bvand', x, bv('bvxor', bv('bvsub', bv('bvshl', cst(1), n), cst(1)), cst(-1))), cst(0)))); // bitLength(x) > n
  const dec = (n) => bv('bvsub', n, cst(1));
  let p = part(a);
  if (p) return p[1] ? above(p[0], bv('bvsub', p[1], b)) : not(above(p[0], dec(b)));
  p = part(b);
  if (p) return p[1] ? not(above(p[0], dec(bv('bvsub', p[1], a)))) : above(p[0], a);
  return null;
}
function slt(a, b) { return lengthTest(a, b) || sltRaw(a, b); }
function sltRaw(a, b) { if (a === b) return FALSE; if (isC(a) && isC(b)) return sgn(a) < sgn(b) ? TRUE : FALSE; return mk('bvslt', 'b', [a, b]); }
const sle = (a, b) => not(slt(b, a));
function not(a) { if (a === TRUE) return FALSE; if (a === FALSE) return TRUE; if (a.op === 'not') return a.args[0]; return mk('not', 'b', [a]); }
function and(...xs) {
  const f = [];
  for (const x of xs) { if (x === FALSE) return FALSE; if (x !== TRUE && !f.includes(x)) f.push(x); }
  return f.length === 0 ? TRUE : f.length === 1 ? f[0] : mk('and', 'b', f);
}
const or = (...xs) => not(and(...xs.map(not)));
function ite(c, a, b) { if (c === TRUE) return a; if (c === FALSE) return b; if (a === b) return a; return mk('ite', a.sort, [c, a, b]); }

function smt(asserts, vars) {
  const seen = new Set(), lines = [], used = [];
  const nm = (n) => (n.op === 'const' ? '(_ bv' + n.attr + ' ' + n.sort + ')' : n.op === 'true' || n.op === 'false' ? n.op : n.op === 'var' ? n.attr : 'n' + n.id);
  const go = (n) => {
    if (seen.has(n)) return;
    seen.add(n);
    n.args.forEach(go);
    if (n.op === 'var') { used.push(n); lines.push('(declare-const ' + n.attr + ' (_ BitVec ' + n.sort + '))'); return; }
    if (n.args.length === 0) return;
    const a = n.args.map(nm).join(' ');
    let e;
    if (n.op === 'zext') e = '((_ zero_extend ' + n.attr + ') ' + a + ')';
    else if (n.op === 'sext') e = '((_ sign_extend ' + n.attr + ') ' + a + ')';
    else if (n.op === 'extract') e = '((_ extract ' + n.attr.replace(',', ' ') + ') ' + a + ')';
    else e = '(' + n.op + ' ' + a + ')';
    lines.push('(define-fun n' + n.id + ' () ' + (n.sort === 'b' ? 'Bool' : '(_ BitVec ' + n.sort + ')') + ' ' + e + ')');
  };
  asserts.forEach(go);
  for (const a of asserts) lines.push('(assert ' + nm(a) + ')');
  return { text: lines.join('\n'), used };
}
const stats = { queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0, max: 0 };
const cache = new Map();
/** 'unsat' | 'unknown' | Map(name -> BigInt) */
function solve(asserts, seconds) {
  asserts = asserts.filter((a) => a !== TRUE);
  if (asserts.includes(FALSE)) return 'unsat';
  if (asserts.length === 0) return new Map();
  const key = asserts.map((a) => a.id).sort((x, y) => x - y).join(',');
  if (cache.has(key)) return cache.get(key);
  const { text, used } = smt(asserts);
  const q = '(set-option :produce-models true)\n(set-logic QF_BV)\n' + text + '\n(check-sat)\n' + (used.length ? '(get-value (' + used.map((u) => u.attr).join(' ') + '))\n' : '') + '(exit)\n';
  const t = Date.now();
  let out = '';
  for (const [cmd, args] of [['z3', ['-in', '-T:' + seconds]], ['cvc5', ['--lang', 'smt2', '--tlimit=' + seconds * 1000]]]) {
    const r = spawnSync(cmd, args, { input: q, encoding: 'utf8', maxBuffer: 1 << 28 });
    out = r.stdout || '';
    if (/^(sat|unsat)/.test(out)) break;
  }
  const dt = (Date.now() - t) / 1000;
  stats.queries++; stats.time += dt; stats.max = Math.max(stats.max, dt);
  let res;
  if (out.startsWith('unsat')) { stats.unsat++; res = 'unsat'; }
  else if (out.startsWith('sat')) {
    stats.sat++; res = new Map();
    for (const m of out.matchAll(/\((v\d+)\s+(#x[0-9a-f]+|#b[01]+|\(_ bv(\d+) \d+\))/g))
      res.set(m[1], m[3] ? BigInt(m[3]) : BigInt('0' + m[2].slice(1)));
  } else { stats.unknown++; res = 'unknown'; }
  cache.set(key, res);
  return res;
}
/** value of a term under a model (unlisted variables are 0) */
function evaluate(n, m, memo = new Map()) {
  if (memo.has(n)) return memo.get(n);
  const a = n.args.map((x) => evaluate(x, m, memo));
  const w = n.sort, S = (i) => BigInt.asIntN(n.args[i].sort, a[i]);
  let r;
  switch (n.op) {
    case 'const': r = n.attr; break;
    case 'true': r = true; break;
    case 'false': r = false; break;
    case 'var': r = m.get(n.attr) || 0n; break;
    case 'zext': r = a[0]; break;
    case 'sext': r = S(0); break;
    case 'extract': r = a[0] >> BigInt(n.attr.split(',')[1]); break;
    case 'concat': r = (a[0] << BigInt(n.args[1].sort)) | a[1]; break;
    case '=': r = a[0] === a[1]; break;
    case 'bvslt': r = S(0) < S(1); break;
    case 'not': r = !a[0]; break;
    case 'and': r = a.every((x) => x); break;
    case 'ite': r = a[0] ? a[1] : a[2]; break;
    case 'bvshl': r = a[1] >= BigInt(w) ? 0n : a[0] << a[1]; break;
    case 'bvlshr': r = a[1] >= BigInt(w) ? 0n : a[0] >> a[1]; break;
    case 'bvsrem': r = S(1) === 0n ? a[0] : S(0) % S(1); break;
    case 'bvsdiv': r = S(1) === 0n ? M(w) : S(0) / S(1); break;
    default: r = FOLD[n.op](a[0], a[1]);
  }
  if (typeof r === 'bigint') r = BigInt.asUintN(w, r);
  memo.set(n, r);
  return r;
}

// ---- values
class SNum { constructor(n) { this.n = n; } valueOf() { throw new Unsupported('a symbolic number used natively'); } }
class SBool { constructor(n) { this.n = n; } valueOf() { throw new Unsupported('a symbolic condition used natively'); } }
const num = (n) => (isC(n) ? Number(sgn(n)) : new SNum(n));
const bool = (n) => (n === TRUE ? true : n === FALSE ? false : new SBool(n));
const bnode = (x) => (x instanceof SBool ? x.n : x && x.op ? x : x ? TRUE : FALSE);
function nnode(x) {
  if (x instanceof SNum) return x.n;
  if (typeof x === 'boolean') x = x ? 1 : 0;
  if (typeof x === 'bigint') return cst(x);
  if (x instanceof SBool) return ite(x.n, cst(1), cst(0));
  if (typeof x === 'number' && Number.isInteger(x)) return cst(x);
  throw new Unsupported('a symbolic operation on ' + (typeof x === 'number' ? x : typeof x));
}

// ---- one path
const S = {
  pc: [], prefix: [], taken: [], pending: [], vars: 0, inputs: [], model: null, checks: 0, closed: 0, violations: [], undecided: [], qt: 20, forks: 0,
  begin(prefix) { this.pc = []; this.prefix = prefix; this.taken = []; this.vars = 0; this.model = null; },
  fresh(w) { return variable('v' + this.vars++, w); },
  heavy: new Set(),
  /** satisfiability of the path with c; facts marked heavy are left out at first, since unsatisfiable without them is unsatisfiable */
  ask(c) {
    const light = this.pc.filter((x) => !this.heavy.has(x));
    if (light.length < this.pc.length && solve([...light, c], this.qt) === 'unsat') return 'unsat';
    return solve([...this.pc, c], this.qt);
  },
  assume(c, heavy) {
    c = bnode(c);
    if (heavy) this.heavy.add(c);
    if (c === FALSE) throw new Abandon('assumption');
    this.pc.push(c);
    this.model = null;
  },
  feasible(c) {
    if (this.model && evaluate(c, this.model)) return true;
    const r = this.ask(c);
    if (r === 'unsat') return false;
    if (r !== 'unknown') this.lastModel = r;
    else this.undecided.push('a branch');
    return true;
  },
  decide(c) {
    if (c === TRUE) return true;
    if (c === FALSE) return false;
    const i = this.taken.length;
    let v;
    if (i < this.prefix.length) v = this.prefix[i];
    else {
      const m0 = this.model;
      let mt = null, mf = null;
      const ft = this.feasible(c); mt = ft ? (m0 && evaluate(c, m0) ? m0 : this.lastModel) : null;
      this.lastModel = null;
      const ff = this.feasible(not(c)); mf = ff ? (m0 && !evaluate(c, m0) ? m0 : this.lastModel) : null;
      if (!ft && !ff) throw new Abandon('infeasible');
      v = ft;
      if (ft && ff) { this.pending.push([...this.taken, false]); this.forks++; }
      this.model = v ? mt : mf;
    }
    this.taken.push(v);
    const lit = v ? c : not(c);
    this.pc.push(lit);
    if (this.model && !evaluate(lit, this.model)) this.model = null;
    return v;
  },
  /** a concrete value of a symbolic number: one path per value */
  pick(x) {
    if (x instanceof SBool) return this.decide(x.n);
    if (!(x instanceof SNum)) return x;
    for (let k = 0; k < 300; k++) {
      let m = this.model;
      if (this.taken.length < this.prefix.length) {
        // replaying: the same candidates come up in the same order
        m = null;
      }
      const r = solve(this.pc, this.qt);
      if (r === 'unsat') throw new Abandon('infeasible');
      if (r === 'unknown') throw new Unsupported('no value found for a number');
      const v = BigInt.asIntN(W, evaluate(x.n, r));
      if (this.decide(eq(x.n, cst(v)))) return Number(v);
    }
    throw new Unsupported('too many values for one number');
  },
  check(c, what) {
    this.checks++;
    c = bnode(c);
    if (c === TRUE) { this.closed++; return; }
    const r = this.ask(not(c));
    if (r === 'unsat') { this.pc.push(c); return; }
    if (r === 'unknown') { this.undecided.push(what); return; }
    this.violations.push({ what, model: r });
    throw new Abandon('violation');
  },
};

module.exports = { W, Unsupported, Abandon, cst, isC, TRUE, FALSE, zext, sext, extract, concat, bv, eq, slt, sle, not, and, or, ite, SNum, SBool, num, bool, bnode, nnode, S, stats, evaluate, solve, sgn, lengthOf };
