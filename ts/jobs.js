// What is asked of the client's readers. The same code runs symbolically and, on concrete values, natively.
'use strict';
const T = require('./sym.js');
const { cst, eq, not, and, or, ite, bv, W, zext, extract } = T;
const { nnode, bnode } = T;

// ---- the accounts as the program stores them (checked against accounts written by the program: see native())
const SLAB = { HEADER: 40, LEAF: 24, INNER: 32, FLAG: 0x80000000 };
const QUEUE = { HEADER: 32, EVENT: 40 };
const MARKET = 120;
const TAG = { market: 128, queue: 129, bids: 130, asks: 131 };

const bytesOf = (n, k) => { const r = []; for (let i = 0; i < k; i++) r.push(extract(n, 8 * i + 7, 8 * i)); return r; };
const bnNode = (x) => {
  if (x && x.n && !(x instanceof T.SNum)) return x.n;
  return nnode(x);
};
const is = (x, n) => { // the value x (a BN or a number) is n
  if (x === undefined || x === null || (typeof x === 'number' && !Number.isInteger(x)) || typeof x === 'string') return T.FALSE;
  return eq(bnNode(x), n.sort === W ? n : zext(n, W));
};
const sameBytes = (a, nodes) => {
  if (!a || a.length !== nodes.length) return T.FALSE;
  return and(...nodes.map((n, i) => eq(extract(nnode(a[i]), 7, 0), n)));
};

/** all binary trees over leaves lo..hi-1 */
function shapes(lo, hi) {
  if (hi - lo === 1) return [lo];
  const r = [];
  for (let m = lo + 1; m < hi; m++) for (const l of shapes(lo, m)) for (const q of shapes(m, hi)) r.push([l, q]);
  return r;
}

/** the bytes of a side with the given tree; every key, quantity, callback info and unused byte is free */
function book(env, tree, n, cap, cb, rot, extra, light, side) {
  const leaves = [];
  for (let i = 0; i < n; i++) leaves.push({ key: env.u(128), q: env.u(64), h: (i * (rot || 1) + (rot ? 1 : 0)) % cap, cb: [] });
  const slots = new Set(leaves.map((l) => l.h));
  if (slots.size !== n) throw new Error('handles clash');
  const inner = [];
  const build = (t) => {
    if (typeof t === 'number') return { h: leaves[t].h, ls: [leaves[t]] };
    const me = { key: env.u(128), p: env.u(8) };
    inner.push(me);
    me.i = rot ? cap - 2 - (inner.length - 1) : inner.length - 1;
    const l = build(t[0]), r = build(t[1]);
    const p = zext(me.p, W);
    env.assume(not(eq(extract(me.p, 7, 7), cst(1, 1))));
    // the bit that divides, and the bits above it
    const bit = bv('bvshl', cst(1), bv('bvsub', cst(127), p));
    const above = bv('bvxor', bv('bvsub', bv('bvshl', cst(1), bv('bvsub', cst(128), p)), cst(1)), cst(-1));
    for (const [side, one] of [[l, false], [r, true]])
      for (const f of side.ls) {
        const k = zext(f.key, W), zero = eq(bv('bvand', k, bit), cst(0));
        env.assume(one ? not(zero) : zero, light);
        env.assume(eq(bv('bvand', bv('bvxor', k, zext(me.key, W)), above), cst(0)), light);
      }
    me.c = [l.h, r.h];
    return { h: SLAB.FLAG + (0x7fffffff - me.i), ls: [...l.ls, ...r.ls] };
  };
  const root = n ? build(tree).h : null;
  for (let i = 1; i < n; i++) env.check(T.slt(zext(leaves[i - 1].key, W), zext(leaves[i].key, W)), 'the tree is sorted');
  const size = SLAB.HEADER + cap * (SLAB.LEAF + cb) + (cap - 1) * SLAB.INNER + extra * cb;
  const a = new Array(size).fill(null);
  const put = (o, l) => l.forEach((x, i) => { a[o + i] = x; });
  const tag = side === undefined ? env.choose([TAG.bids, TAG.asks]) : side;
  put(0, bytesOf(cst(tag, 64), 8));
  const free = [];
  for (let i = 0; i < 6; i++) { const v = env.u(32); free.push(v); put(8 + 4 * i, bytesOf(v, 4)); }
  put(32, bytesOf(root === null ? env.u(32) : cst(root, 32), 4));
  put(36, bytesOf(cst(n, 32), 4));
  for (const l of leaves) {
    put(SLAB.HEADER + l.h * SLAB.LEAF, bytesOf(l.key, 16));
    put(SLAB.HEADER + l.h * SLAB.LEAF + 16, bytesOf(l.q, 8));
  }
  const io = SLAB.HEADER + cap * SLAB.LEAF;
  for (const x of inner) {
    put(io + x.i * SLAB.INNER, bytesOf(x.key, 16));
    put(io + x.i * SLAB.INNER + 16, [x.p, ...bytesOf(cst(0, 56), 7)]);
    put(io + x.i * SLAB.INNER + 24, bytesOf(cst(x.c[0], 32), 4));
    put(io + x.i * SLAB.INNER + 28, bytesOf(cst(x.c[1], 32), 4));
  }
  for (let i = 0; i < size; i++) if (a[i] === null) a[i] = i >= size - extra * cb || i < SLAB.HEADER ? cst(0, 8) : env.u(8);
  const co = io + (cap - 1) * SLAB.INNER;
  for (const l of leaves) l.cb = a.slice(co + l.h * cb, co + (l.h + 1) * cb);
  return { bytes: a, leaves, tag, free, root };
}

const priceNode = (l) => extract(l.key, 127, 64);
const leafIs = (x, l) => and(is(x && x.key, l.key), is(x && x.baseQuantity, l.q));

const JOBS = {
  /** ordered traversal, the best orders, callback infos */
  walk(env, c, [n, sh, cap, cb, rot, extra]) {
    const b = book(env, n ? shapes(0, n)[sh] : null, n, cap, cb, rot, extra, true);
    const s = c.Slab.deserialize(env.bytes(b.bytes), cb);
    env.check(is(s.header.accountTag, cst(b.tag)), 'the tag of the side');
    env.check(s.header.accountTag === (b.tag === TAG.bids ? c.AccountTag.Bids : c.AccountTag.Asks), 'the tag constants');
    env.check(is(s.header.leafCount, cst(n)), 'the number of orders');
    if (b.root !== null) env.check(is(s.header.rootNode, cst(b.root)), 'the root');
    const expect = (got, want, what) => {
      env.check(got.length === want.length, what + ': how many');
      want.forEach((l, i) => {
        env.check(leafIs(got[i].leafNode, l), what + ': order ' + i);
        env.check(sameBytes(got[i].callbackInfo, l.cb), what + ': owner of order ' + i);
        env.check(is(got[i].leafNode.getPrice(), priceNode(l)), what + ': price of order ' + i);
        env.check(is(c.getPriceFromKey(got[i].leafNode.key), priceNode(l)), what + ': price of the id of order ' + i);
      });
    };
    const up = b.leaves, down = [...b.leaves].reverse();
    expect([...s.items(false)], up, 'items ascending');
    expect([...s.items(true)], down, 'items descending');
    expect([...s], up, 'iteration');
    for (let k = 0; k <= n + 1; k++) {
      expect(s.getMinMaxNodes(k, false), up.slice(0, k), 'the ' + k + ' lowest');
      expect(s.getMinMaxNodes(k, true), down.slice(0, k), 'the ' + k + ' highest');
    }
  },
  /** lookup of any id */
  find(env, c, [n, sh, cap, cb, rot, extra]) {
    const b = book(env, n ? shapes(0, n)[sh] : null, n, cap, cb, rot, extra);
    const s = c.Slab.deserialize(env.bytes(b.bytes), cb);
    const k = env.u(128);
    const r = s.getNodeByKey(env.bn(k));
    const there = b.leaves.map((l) => eq(l.key, k));
    if (r === undefined || r === null) env.check(and(...there.map(not)), 'an id that rests is found');
    else env.check(or(...b.leaves.map((l, i) => and(there[i], leafIs(r, l)))), 'what is found is the order of that id');
  },
  /** depth by price */
  depth(env, c, [n, sh, cap, cb, rot, extra, levels]) {
    const b = book(env, n ? shapes(0, n)[sh] : null, n, cap, cb, rot, extra, true);
    const s = c.Slab.deserialize(env.bytes(b.bytes), cb);
    const inc = env.choose([true, false]);
    const got = s.getL2DepthJS(levels, inc);
    const order = inc ? b.leaves : [...b.leaves].reverse();
    // level of each order, as a term
    let lv = cst(0);
    const level = order.map((l, i) => (lv = i === 0 ? cst(0) : bv('bvadd', lv, ite(eq(priceNode(l), priceNode(order[i - 1])), cst(0), cst(1)))));
    const total = n === 0 ? cst(0) : bv('bvadd', level[n - 1], cst(1));
    env.check(eq(cst(got.length), ite(T.slt(total, cst(levels)), total, cst(levels))), 'how many levels');
    got.forEach((g, j) => {
      let sum = cst(0);
      const price = [];
      order.forEach((l, i) => {
        const on = eq(level[i], cst(j));
        sum = bv('bvadd', sum, ite(on, zext(l.q, W), cst(0)));
        price.push(or(not(on), is(g.price, priceNode(l))));
      });
      env.check(is(g.size, sum), 'the quantity of level ' + j);
      env.check(and(...price), 'the price of level ' + j);
    });
  },
  /** the event queue */
  queue(env, c, [cap, cb, extra, mode]) {
    const a = [];
    const head = env.u(8), count = env.u(8), seq = env.u(64);
    env.assume(T.slt(zext(head, W), cst(cap)));
    env.assume(T.sle(zext(count, W), cst(cap)));
    a.push(...bytesOf(cst(TAG.queue, 64), 8), head, ...bytesOf(cst(0, 56), 7), count, ...bytesOf(cst(0, 56), 7), ...bytesOf(seq, 8));
    const ev = [];
    for (let i = 0; i < cap; i++) {
      const fill = env.u(1), side = env.u(1);
      const e = { out: fill, side, w: [], cb: [] };
      for (let k = 2; k < QUEUE.EVENT; k++) e.w.push(env.u(8));
      a.push(zext(fill, 8), zext(side, 8), ...e.w);
      e.le = (o, l) => { let r = e.w[o - 2]; for (let q = 1; q < l; q++) r = T.concat(e.w[o - 2 + q], r); return r; };
      ev.push(e);
    }
    for (let i = 0; i < cap; i++) for (let k = 0; k < 2 * cb; k++) { const x = env.u(8); ev[i].cb.push(x); a.push(x); }
    for (let k = 0; k < extra; k++) a.push(cst(0, 8));
    const q = c.EventQueue.parse(cb, env.bytes(a));
    env.check(is(q.header.tag, cst(TAG.queue)), 'the tag of the queue');
    env.check(q.header.tag === c.AccountTag.EventQueue, 'the tag constants');
    env.check(is(q.header.head, head), 'the head');
    env.check(is(q.header.count, count), 'the number of events');
    env.check(is(q.header.seqNum, seq), 'the sequence number');
    const match = (x, e) => {
      if (x instanceof c.EventFill)
        return and(eq(e.out, cst(0, 1)), is(x.takerSide, e.side), is(x.quoteSize, e.le(8, 8)), is(x.makerOrderId, e.le(16, 16)), is(x.baseSize, e.le(32, 8)),
          sameBytes(x.makerCallbackInfo, e.cb.slice(0, cb)), sameBytes(x.takerCallbackInfo, e.cb.slice(cb)));
      if (x instanceof c.EventOut)
        return and(eq(e.out, cst(1, 1)), is(x.side, e.side), is(x.orderId, e.le(16, 16)), is(x.baseSize, e.le(32, 8)), sameBytes(x.callbackInfo, e.cb.slice(0, cb)));
      return T.FALSE;
    };
    const h = zext(head, W), k = zext(count, W);
    const pos = (i) => { let r = bv('bvadd', h, cst(i)); return ite(T.slt(r, cst(cap)), r, bv('bvsub', r, cst(cap))); };
    /** x is the i-th queued event */
    const nth = (x, i) => or(...ev.map((e, s) => and(eq(pos(i), cst(s)), match(x, e))));
    if (mode === 0) {
      for (let i = 0; i < cap; i++) env.check(match(q.parseEvent(i), ev[i]), 'the event in slot ' + i);
    } else if (mode === 1) {
      const i = env.choose([...Array(cap).keys()]);
      env.check(nth(q.peekAt(i), i), 'queued event ' + i);
    } else {
      const limit = mode === 2 ? undefined : mode - 2;
      const got = limit === undefined ? q.parseFill() : q.parseFill(limit);
      // the fills among the queued events, oldest first: got[j] is the one with j fills before it
      const isFill = (i) => and(T.slt(cst(i), k), or(...ev.map((e, s) => and(eq(pos(i), cst(s)), eq(e.out, cst(0, 1))))));
      let before = cst(0);
      const rank = [];
      for (let i = 0; i < cap; i++) { rank.push(before); before = bv('bvadd', before, ite(isFill(i), cst(1), cst(0))); }
      if (limit === undefined) env.check(eq(cst(got.length), before), 'every queued fill, and no other');
      else env.check(and(T.sle(cst(got.length), before), got.length <= limit ? T.TRUE : T.FALSE), 'no more fills than asked for or queued');
      got.forEach((g, j) => {
        env.check(or(...[...Array(cap).keys()].map((i) => and(isFill(i), eq(rank[i], cst(j)), nth(g, i)))), 'fill ' + j + ' is the next queued one');
      });
    }
  },
  /** the market account */
  market(env, c, [cb, extra]) {
    const f = ['eventQueue', 'bids', 'asks'].map(() => [...Array(32)].map(() => env.u(8)));
    const min = env.u(64), tick = env.u(64);
    const a = [...bytesOf(cst(TAG.market, 64), 8), ...f.flat(), ...bytesOf(min, 8), ...bytesOf(tick, 8)];
    for (let k = 0; k < extra; k++) a.push(env.u(8));
    const m = c.MarketState.deserialize(env.bytes(a), cb);
    env.check(is(m.tag, cst(TAG.market)), 'the tag of the market');
    env.check(c.AccountTag.Market === TAG.market && c.AccountTag.EventQueue === TAG.queue, 'the tag constants');
    ['eventQueue', 'bids', 'asks'].forEach((k, i) => env.check(sameBytes(m[k].toBytes(), f[i]), 'the ' + k + ' account'));
    env.check(is(m.minBaseOrderSize, min), 'the minimum order size');
    env.check(is(m.tickSize, tick), 'the tick size');
    env.check(is(m.callbackInfoLen, cst(cb)), 'the length of the callback info');
    env.check(c.MarketState.LEN === MARKET, 'the size of a market account');
  },
  /** the accounts are fetched from the addresses recorded in the market */
  load(env, c, [cb, missing]) {
    const key = (last) => [...[...Array(31)].map(() => cst(9, 8)), cst(last, 8)];
    const at = { eventQueue: key(1), bids: key(2), asks: key(3), market: key(4) };
    const min = env.u(64), tick = env.u(64), data = {}, orders = {};
    data.market = [...bytesOf(cst(TAG.market, 64), 8), ...at.eventQueue, ...at.bids, ...at.asks, ...bytesOf(min, 8), ...bytesOf(tick, 8)];
    for (const k of ['bids', 'asks']) { const b = book(env, shapes(0, 1)[0], 1, 2, cb, 0, 0, true, TAG[k]); orders[k] = b.leaves[0]; data[k] = b.bytes; }
    const ev = [...Array(QUEUE.EVENT + 2 * cb)].map(() => env.u(8));
    const qh = [cst(TAG.queue, 64), cst(0, 64), cst(1, 64), env.u(64)];
    data.eventQueue = [...qh.flatMap((x) => bytesOf(x, 8)), ...ev];
    const names = ['market', 'bids', 'asks', 'eventQueue'];
    const con = { getAccountInfo(k) {
      const b = [...k.toBytes()].map((x) => nnode(x));
      const n = names.find((m) => at[m].every((x, i) => b[i] !== undefined && bnode(eq(extract(b[i], 7, 0), x)) === T.TRUE));
      if (n === undefined || n === names[missing]) return null;
      return { data: env.bytes(data[n]), owner: c.key(at.market), lamports: 1, executable: false };
    } };
    const get = (n, f) => {
      let r;
      try { r = f(); } catch (e) { if (n !== names[missing] || e instanceof T.Abandon || e instanceof T.Unsupported) throw e; r = undefined; }
      env.check((r === undefined) === (n === names[missing]), 'an account that is not there is an error, one that is there is not: ' + n);
      return r;
    };
    const m = get('market', () => c.MarketState.retrieve(con, c.key(at.market), cb));
    if (m === undefined) return;
    env.check(and(is(m.minBaseOrderSize, min), is(m.tickSize, tick), is(m.callbackInfoLen, cst(cb))), 'the market at the address');
    for (const k of ['bids', 'asks']) {
      const s = get(k, () => (k === 'bids' ? m.loadBidsSlab(con) : m.loadAsksSlab(con)));
      if (s === undefined) continue;
      const l = [...s.items(false)];
      env.check(l.length === 1, 'the ' + k + ': how many');
      env.check(and(leafIs(l[0].leafNode, orders[k]), sameBytes(l[0].callbackInfo, orders[k].cb)), 'the ' + k);
    }
    const q = get('eventQueue', () => c.EventQueue.load(con, m.eventQueue, cb));
    if (q !== undefined) {
      env.check(and(is(q.header.count, cst(1)), is(q.header.seqNum, qh[3])), 'the queue');
      env.check(and(sameBytes(q.eventsBuffer, ev.slice(0, QUEUE.EVENT)), sameBytes(q.callbackInfosBuffer, ev.slice(QUEUE.EVENT))), 'the events of the queue');
    }
  },
  /** sizes of accounts to create */
  size(env, c, []) {
    const n = env.u(24), cb = env.u(10);
    const N = zext(n, W), C = zext(cb, W);
    env.assume(not(eq(N, cst(0))));
    const s = c.Slab.computeAllocationSize(env.num(N), env.num(C));
    const e = c.EventQueue.computeAllocationSize(env.num(N), env.num(C));
    const mul = (x, y) => bv('bvmul', x, y), add = (x, y) => bv('bvadd', x, y);
    const want = add(add(cst(SLAB.HEADER), mul(N, add(cst(SLAB.LEAF), C))), mul(bv('bvsub', N, cst(1)), cst(SLAB.INNER)));
    env.check(is(s, want), 'the size of a side for n orders');
    env.check(is(e, add(cst(QUEUE.HEADER), mul(N, add(cst(QUEUE.EVENT), mul(cst(2), C))))), 'the size of a queue for n events');
  },
};

const count = (n) => (n === 0 ? 1 : shapes(0, n).length);
function plan(tier) {
  const q = tier === 'quick', r = [];
  const max = q ? 4 : 5;
  for (let n = 0; n <= max; n++)
    for (let sh = 0; sh < count(n); sh++)
      for (const [cap, cb, rot, extra] of n >= 5 ? [[5, 2, 0, 0], [8, 1, 3, 1]] : [[Math.max(n, 1), 3, 0, 0], [7, 2, 2, 1], ...(q ? [] : [[n + 1, 32, 0, 0], [7, 1, 3, 2]])]) {
        r.push(['walk', n, sh, cap, cb, rot, extra]);
        if (q && n === 4 && rot) continue;
        r.push(['find', n, sh, cap, cb, rot, extra]);
        for (let lv = 0; lv <= n + 1; lv++) if (!q || n < 4 || lv <= 3) r.push(['depth', n, sh, cap, cb, rot, extra, lv]);
      }
  for (const [cap, cb, extra] of q ? [[3, 2, 0], [1, 1, 0]] : [[3, 2, 0], [1, 1, 0], [4, 1, 0], [5, 3, 0], [2, 32, 0]])
    for (let mode = 0; mode <= 2 + cap; mode++) r.push(['queue', cap, cb, extra, mode]);
  r.push(['market', 32, 0], ['market', 0, 5], ['size']);
  r.push(['load', 0, 9]);
  for (const miss of [9, 0, 1, 2, 3]) r.push(['load', 2, miss]);
  return r;
}
module.exports = { JOBS, plan, shapes };
