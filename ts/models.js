// Stand-ins for what the client imports (bn.js, borsh, @solana/web3.js) and the rewritten operators.
// Every one of them works on concrete values too: the native replay runs the untouched code on them.
'use strict';
const T = require('./sym.js');
const { W, Unsupported, cst, isC, bv, eq, slt, not, and, ite, SNum, SBool, num, bool, nnode, S } = T;
const isSym = (x) => x instanceof SNum || x instanceof SBool;

// ---- operators
const i32 = (n) => T.sext(T.extract(n, 31, 0), W);
const u32 = (n) => T.zext(T.extract(n, 31, 0), W);
const amount = (n) => T.zext(T.extract(n, 4, 0), W);
const native = {
  '+': (a, b) => a + b, '-': (a, b) => a - b, '*': (a, b) => a * b, '/': (a, b) => a / b, '%': (a, b) => a % b, '**': (a, b) => a ** b,
  '&': (a, b) => a & b, '|': (a, b) => a | b, '^': (a, b) => a ^ b, '<<': (a, b) => a << b, '>>': (a, b) => a >> b, '>>>': (a, b) => a >>> b,
  '<': (a, b) => a < b, '>': (a, b) => a > b, '<=': (a, b) => a <= b, '>=': (a, b) => a >= b,
  '==': (a, b) => a == b, '!=': (a, b) => a != b, '===': (a, b) => a === b, '!==': (a, b) => a !== b,
};
function bin(op, a, b) {
  if (!isSym(a) && !isSym(b)) return native[op](a, b);
  const other = isSym(a) ? b : a;
  if (op === '===' || op === '!==' || op === '==' || op === '!=') {
    let r;
    const loose = op.length === 2;
    const kind = (x) => (x instanceof SNum ? 'number' : x instanceof SBool ? 'boolean' : typeof x);
    if (kind(a) === kind(b) || (loose && ['number', 'boolean', 'bigint'].includes(kind(other)))) {
      if (typeof other === 'number' && !Number.isInteger(other)) r = T.FALSE;
      else r = eq(nnode(a), nnode(b));
    } else r = T.FALSE;
    return bool(op[0] === '!' ? not(r) : r);
  }
  if (typeof other === 'string') return native[op](isSym(a) ? S.pick(a) : a, isSym(b) ? S.pick(b) : b);
  if (typeof other === 'number' && !Number.isInteger(other)) { // undefined, NaN, fractions, infinities
    if (other === Infinity || other === -Infinity) {
      const s = isSym(a) ? 0 : other, t = isSym(b) ? 0 : other;
      if (['<', '>', '<=', '>='].includes(op)) return native[op](s, t);
    }
    return native[op](isSym(a) ? S.pick(a) : a, isSym(b) ? S.pick(b) : b);
  }
  if (other === undefined || other === null) return native[op](isSym(a) ? S.pick(a) : a, isSym(b) ? S.pick(b) : b);
  const x = nnode(a), y = nnode(b);
  switch (op) {
    case '+': return num(bv('bvadd', x, y));
    case '-': return num(bv('bvsub', x, y));
    case '*': return num(bv('bvmul', x, y));
    case '%': if (S.decide(eq(y, cst(0)))) return NaN; return num(bv('bvsrem', x, y));
    case '/':
      if (S.decide(eq(y, cst(0)))) throw new Unsupported('a division by zero');
      if (S.decide(eq(bv('bvsrem', x, y), cst(0)))) return num(bv('bvsdiv', x, y));
      return S.pick(a) / S.pick(b);
    case '&': return num(bv('bvand', i32(x), i32(y)));
    case '|': return num(bv('bvor', i32(x), i32(y)));
    case '^': return num(bv('bvxor', i32(x), i32(y)));
    case '<<': return num(i32(bv('bvshl', i32(x), amount(y))));
    case '>>>': return num(bv('bvlshr', u32(x), amount(y)));
    case '>>': return num(i32(bv('bvlshr', i32(x), amount(y))));
    case '<': return bool(slt(x, y));
    case '>': return bool(slt(y, x));
    case '<=': return bool(not(slt(y, x)));
    case '>=': return bool(not(slt(x, y)));
  }
  throw new Unsupported('operator ' + op);
}
const t = (x) => (x instanceof SBool ? S.decide(x.n) : x instanceof SNum ? S.decide(not(eq(x.n, cst(0)))) : !!x);
function un(op, a) {
  if (op === '!') return a instanceof SBool ? bool(not(a.n)) : a instanceof SNum ? bool(eq(a.n, cst(0))) : !a;
  if (op === 'typeof') return a instanceof SNum ? 'number' : a instanceof SBool ? 'boolean' : typeof a;
  if (!isSym(a)) return op === '-' ? -a : op === '~' ? ~a : +a;
  const x = nnode(a);
  return op === '-' ? num(bv('bvsub', cst(0), x)) : op === '~' ? num(i32(bv('bvxor', i32(x), cst(-1)))) : num(x);
}
const key = (k) => (isSym(k) ? S.pick(k) : k);
const NATIVE = new Set(['slice', 'subarray', 'splice', 'at', 'fill', 'with', 'copyWithin', 'toString', 'substr', 'substring', 'repeat', 'flat', 'padStart', 'padEnd']);
function call(o, m, ...args) {
  if ((Array.isArray(o) || typeof o === 'string') && NATIVE.has(m)) args = args.map(key);
  if (isSym(o)) {
    if (m === 'toNumber' || m === 'valueOf') return o;
    return S.pick(o)[m](...args.map(key));
  }
  return o[m](...args);
}
/** the case of a switch that is taken */
const NONE = {};
function sw(x, cases) {
  for (let i = 0; i < cases.length; i++) if (t(bin('===', x, cases[i]()))) return i;
  return -1;
}
const sMath = new Proxy(Math, {
  get(_, p) {
    if (p === 'min' || p === 'max') return (...xs) => {
      if (!xs.some(isSym)) return Math[p](...xs);
      if (xs.some((x) => typeof x === 'number' && !Number.isInteger(x))) return Math[p](...xs.map(key));
      return xs.reduce((a, b) => { const x = nnode(a), y = nnode(b); return num(ite(p === 'min' ? slt(x, y) : slt(y, x), x, y)); });
    };
    if (['floor', 'ceil', 'trunc', 'round'].includes(p)) return (x) => (isSym(x) ? num(nnode(x)) : Math[p](x));
    if (typeof Math[p] === 'function') return (...xs) => Math[p](...xs.map(key));
    return Math[p];
  },
});
function sArray(...a) { return a.length === 1 ? new Array(key(a[0])) : new Array(...a); }
for (const p of ['isArray', 'of']) sArray[p] = Array[p];
sArray.from = (x, ...r) => Array.from(x && !Array.isArray(x) && isSym(x.length) ? { length: key(x.length) } : x, ...r);
Object.defineProperty(sArray, Symbol.hasInstance, { value: (x) => x instanceof Array });
const sNumber = new Proxy(Number, { apply: (_, __, [x]) => (x instanceof SNum ? x : x instanceof SBool ? num(nnode(x)) : x instanceof BN ? x.toNumber() : Number(x)) });

/** a Buffer whose bytes may be symbolic */
class Buf extends Array {
  static from(x) {
    const b = new Buf();
    if (typeof x === 'number') throw new TypeError('The first argument must not be a number');
    for (const e of x) b.push(isSym(e) ? num(T.zext(T.extract(nnode(e), 7, 0), W)) : Number(e) & 255);
    return b;
  }
  static alloc(n) { const b = new Buf(); for (let i = 0; i < key(n); i++) b.push(0); return b; }
  static concat(l) { return Buf.from(l.flatMap((x) => [...x])); }
  static isBuffer(x) { return x instanceof Buf; }
  subarray(a, b) { return this.slice(a, b); }
  le(off, n) { off = off === undefined ? 0 : key(off); if (off + n > this.length) throw new RangeError('out of range'); return leNode(this, off, n); }
  readUInt8(o) { return num(this.le(o, 1)); }
  readUInt16LE(o) { return num(this.le(o, 2)); }
  readUInt32LE(o) { return num(this.le(o, 4)); }
}
function byteNode(x) { return T.extract(nnode(x), 7, 0); }
function leNode(a, off, n) {
  let r = byteNode(a[off]);
  for (let i = 1; i < n; i++) r = T.concat(byteNode(a[off + i]), r);
  return T.zext(r, W);
}

// ---- bn.js
class BN {
  constructor(x, base) {
    if (x instanceof BN) this.n = x.n;
    else if (typeof x === 'string') this.n = cst(base === 16 || base === 'hex' ? BigInt('0x' + x) : BigInt(x));
    else if (Array.isArray(x) || x instanceof Uint8Array) {
      const le = base === 'le' || arguments[2] === 'le';
      const a = le ? [...x] : [...x].reverse();
      this.n = a.length ? leNode(a, 0, a.length) : cst(0);
    } else if (isSym(x)) this.n = nnode(x);
    else if (typeof x === 'number' || typeof x === 'bigint') {
      if (typeof x === 'number' && (!Number.isInteger(x) || Math.abs(x) >= 2 ** 53)) throw new Error('Assertion failed');
      this.n = cst(x);
    } else throw new Error('Assertion failed');
  }
  static of(n) { const b = Object.create(BN.prototype); b.n = n; return b; }
  static isBN(x) { return x instanceof BN; }
  static min(a, b) { return BN.of(ite(slt(a.n, b.n), a.n, b.n)); }
  static max(a, b) { return BN.of(ite(slt(b.n, a.n), a.n, b.n)); }
  clone() { return BN.of(this.n); }
  toNumber() {
    if (isC(this.n)) { const v = T.sgn(this.n); if (v >= 1n << 53n || v <= -(1n << 53n)) throw new Error('Number can only safely store up to 53 bits'); return Number(v); }
    if (S.decide(not(slt(this.n, cst(1n << 53n))))) throw new Error('Number can only safely store up to 53 bits');
    return num(this.n);
  }
  /** bits of a non-negative number */
  bitLength() { return num(bitLen(this.n)); }
  isZero() { return bool(eq(this.n, cst(0))); }
  isNeg() { return bool(slt(this.n, cst(0))); }
  isEven() { return bool(eq(T.extract(this.n, 0, 0), cst(0, 1))); }
  isOdd() { return bool(eq(T.extract(this.n, 0, 0), cst(1, 1))); }
  cmp(o) { return num(ite(slt(this.n, o.n), cst(-1), ite(eq(this.n, o.n), cst(0), cst(1)))); }
  ucmp(o) { return this.cmp(o); }
  eq(o) { return bool(eq(this.n, o.n)); }
  lt(o) { return bool(slt(this.n, o.n)); }
  gt(o) { return bool(slt(o.n, this.n)); }
  lte(o) { return bool(not(slt(o.n, this.n))); }
  gte(o) { return bool(not(slt(this.n, o.n))); }
  notn(w) { w = key(w); return BN.of(T.zext(bv('bvxor', T.extract(this.n, w - 1, 0), cst(-1, w)), W)); }
  testn(i) { return bool(eq(T.extract(bv('bvlshr', this.n, nnode(i)), 0, 0), cst(1, 1))); }
  maskn(i) { i = key(i); return BN.of(i >= W ? this.n : i === 0 ? cst(0) : T.zext(T.extract(this.n, i - 1, 0), W)); }
  setn(i, v) { const m = bv('bvshl', cst(1), nnode(i)); this.n = t(v) ? bv('bvor', this.n, m) : bv('bvand', this.n, bv('bvxor', m, cst(-1))); return this; }
  isub(o) { this.n = bv('bvsub', this.n, o.n); return this; }
  divmod(o) {
    if (S.decide(eq(o.n, cst(0)))) throw new Error('Assertion failed');
    return { div: BN.of(bv('bvsdiv', this.n, o.n)), mod: BN.of(bv('bvsrem', this.n, o.n)) };
  }
  div(o) {
    if (isC(o.n)) { // a power of two: a shift
      const v = o.n.attr; if (v > 0n && (v & (v - 1n)) === 0n && v < 1n << BigInt(W - 1)) return BN.of(bv('bvlshr', this.n, cst(v.toString(2).length - 1)));
    }
    return this.divmod(o).div;
  }
  mod(o) {
    if (isC(o.n)) { const v = o.n.attr; if (v > 0n && (v & (v - 1n)) === 0n && v < 1n << BigInt(W - 1)) return this.maskn(v.toString(2).length - 1); }
    return this.divmod(o).mod;
  }
  umod(o) { return this.mod(o); }
  divn(k) { return this.div(new BN(k)); }
  modn(k) { return this.mod(new BN(k)).toNumber(); }
  modrn(k) { return this.modn(k); }
  pow(o) { if (!isC(this.n) || !isC(o.n)) throw new Unsupported('a symbolic power'); return new BN(T.sgn(this.n) ** T.sgn(o.n)); }
  neg() { return BN.of(bv('bvsub', cst(0), this.n)); }
  abs() { return BN.of(ite(slt(this.n, cst(0)), bv('bvsub', cst(0), this.n), this.n)); }
  shln(k) { if (!isSym(k) && k < 0) throw new Error('Assertion failed'); if (isSym(k) && S.decide(slt(nnode(k), cst(0)))) throw new Error('Assertion failed'); return BN.of(bv('bvshl', this.n, nnode(k))); }
  shrn(k) { if (!isSym(k) && k < 0) throw new Error('Assertion failed'); if (isSym(k) && S.decide(slt(nnode(k), cst(0)))) throw new Error('Assertion failed'); return BN.of(bv('bvlshr', this.n, nnode(k))); }
  toString(b) { const v = isC(this.n) ? T.sgn(this.n) : BigInt(S.pick(num(this.n))); return v.toString(b === 'hex' ? 16 : b || 10); }
  toJSON() { return this.toString(16); }
  toArray(e, l) { const r = []; for (let i = 0; i < (l || Math.ceil(key(this.bitLength()) / 8) || 1); i++) r.push(num(T.zext(T.extract(this.n, 8 * i + 7, 8 * i), W))); return e === 'le' ? r : r.reverse(); }
  toBuffer(e, l) { return Buf.from(this.toArray(e, l)); }
  toArrayLike(_, e, l) { return this.toBuffer(e, l); }
}
const two = { add: 'bvadd', sub: 'bvsub', mul: 'bvmul', and: 'bvand', or: 'bvor', xor: 'bvxor', uand: 'bvand', uor: 'bvor', uxor: 'bvxor' };
for (const m in two) {
  BN.prototype[m] = function (o) { return BN.of(bv(two[m], this.n, o.n)); };
  BN.prototype['i' + m] = function (o) { this.n = bv(two[m], this.n, o.n); return this; };
  BN.prototype[m + 'n'] = function (k) { return BN.of(bv(two[m], this.n, nnode(k))); };
  BN.prototype['i' + m + 'n'] = function (k) { this.n = bv(two[m], this.n, nnode(k)); return this; };
}
for (const m of ['shl', 'shr']) {
  BN.prototype['u' + m + 'n'] = BN.prototype[m + 'n'];
  BN.prototype['i' + m + 'n'] = BN.prototype['iu' + m + 'n'] = function (k) { this.n = this[m + 'n'](k).n; return this; };
}
for (const m of ['eq', 'lt', 'gt', 'lte', 'gte', 'cmp']) BN.prototype[m + 'n'] = function (k) { return this[m](new BN(k)); };
BN.prototype.iuand = BN.prototype.iand; BN.prototype.inotn = function (w) { this.n = this.notn(w).n; return this; };
BN.BN = BN; BN.default = BN;
const lenCache = new Map();
function bitLen(n) {
  if (isC(n)) return cst(n.attr === 0n ? 0 : n.attr.toString(2).length);
  if (lenCache.has(n)) return lenCache.get(n);
  const whole = n;
  // binary search for the top bit, as a term
  let r = cst(0), x = n;
  for (const k of [128, 64, 32, 16, 8, 4, 2, 1]) {
    const hi = bv('bvlshr', x, cst(k)), c = not(eq(hi, cst(0)));
    r = bv('bvadd', r, ite(c, cst(k), cst(0)));
    x = ite(c, hi, x);
  }
  r = bv('bvadd', r, ite(eq(x, cst(0)), cst(0), cst(1)));
  lenCache.set(whole, r);
  T.lengthOf.set(r, whole);
  return r;
}

// ---- borsh 0.6
class BorshError extends Error {}
const INTS = { u8: 1, u16: 2, u32: 4, u64: 8, u128: 16, u256: 32, u512: 64 };
function reader(schema, cls, data, checked) {
  const a = data;
  let off = 0;
  const take = (n) => { if (off + n > a.length) throw new BorshError('Expected buffer length ' + n + ' isn\'t within bounds'); off += n; return off - n; };
  const value = (ty) => {
    if (typeof ty === 'string') {
      if (ty === 'string') throw new Unsupported('a string field');
      const n = INTS[ty];
      if (!n) throw new BorshError('type ' + ty);
      const o = take(n);
      if (n > 16) throw new Unsupported('an integer of ' + 8 * n + ' bits');
      const v = leNode(a, o, n);
      return n <= 4 ? num(v) : BN.of(v);
    }
    if (Array.isArray(ty)) {
      if (typeof ty[0] === 'number') { const o = take(ty[0]); return a.slice(o, o + ty[0]); }
      if (typeof ty[1] === 'number') { const r = []; for (let i = 0; i < ty[1]; i++) r.push(value(ty[0])); return r; }
      const n = key(value('u32')), r = [];
      for (let i = 0; i < n; i++) r.push(value(ty[0]));
      return r;
    }
    return struct(ty);
  };
  const struct = (c) => {
    const s = schema.get(c);
    if (!s) throw new BorshError('Class ' + c.name + ' is missing in schema');
    if (s.kind !== 'struct') throw new Unsupported('a schema of kind ' + s.kind);
    const r = {};
    for (const [f, ty] of s.fields) r[f] = value(ty);
    return new c(r);
  };
  const r = struct(cls);
  if (checked && off < a.length) throw new BorshError('Unexpected ' + (a.length - off) + ' bytes after deserialized data');
  return r;
}
const borsh = { BorshError, deserialize: (s, c, d) => reader(s, c, d, true), deserializeUnchecked: (s, c, d) => reader(s, c, d, false) };

// ---- @solana/web3.js
class PublicKey {
  constructor(x) { this.bytes = x instanceof PublicKey ? x.bytes : typeof x === 'string' ? [...x] : [...x]; }
  toBuffer() { return Buf.from(this.bytes); }
  toBytes() { return this.bytes; }
}
const web3 = { PublicKey, Connection: class {}, Keypair: class {}, SystemProgram: {}, TransactionInstruction: class {} };

const $ = {
  bin, un, t, key, call, sw,
  and: (a, f) => (t(a) ? f() : a), or: (a, f) => (t(a) ? a : f()), nn: (a, f) => (a === undefined || a === null ? f() : a),
};
module.exports = { $, Buf, BN, borsh, web3, sMath, sArray, sNumber, leNode, byteNode, isSym };
