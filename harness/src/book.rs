//! Symbolic order books: account-layout memory for the bid/ask trees and the event queue, a generator of arbitrary
//! valid states (any tree shape, slot assignment and free list within the bound; keys, prices, quantities, callback
//! infos, stale slots symbolic) and an independent reader used by the oracles.
use crate::v::*;
use asset_agnostic_orderbook::state::orderbook::CallbackInfo;

#[derive(Clone, Copy, PartialEq)]
#[repr(C)]
pub struct Cb {
    pub id: u64,
    pub aux: u64,
}
unsafe impl bytemuck::Zeroable for Cb {}
unsafe impl bytemuck::Pod for Cb {}
impl CallbackInfo for Cb {
    type CallbackId = u64;
    fn as_callback_id(&self) -> &u64 {
        &self.id
    }
}

pub const TAG_MARKET: u64 = 128;
pub const TAG_EQ: u64 = 129;
pub const TAG_BIDS: u64 = 130;
pub const TAG_ASKS: u64 = 131;
pub const TAG_DISABLED: u64 = 132;
pub const INNER: u32 = 1 << 31;

#[derive(Clone, Copy)]
#[repr(C)]
pub struct Leaf {
    pub lo: u64,
    pub hi: u64,
    pub qty: u64,
}
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Inner {
    pub lo: u64,
    pub hi: u64,
    pub prefix_len: u64,
    pub children: [u32; 2],
}
/// Account data of one side of the book with L leaf slots and I = L - 1 inner slots.
#[repr(C)]
pub struct SlabMem<const L: usize, const I: usize, C> {
    pub tag: u64,
    pub leaf_free_len: u32,
    pub leaf_free_head: u32,
    pub leaf_bump: u32,
    pub inner_free_len: u32,
    pub inner_free_head: u32,
    pub inner_bump: u32,
    pub root: u32,
    pub leaf_count: u32,
    pub leaves: [Leaf; L],
    pub inners: [Inner; I],
    pub cbs: [C; L],
}
pub type Slab16<const L: usize, const I: usize> = SlabMem<L, I, Cb>;

/// A resting order as the oracle sees it.
#[derive(Clone, Copy, PartialEq)]
pub struct Ord {
    pub lo: u64,
    pub price: u64,
    pub qty: u64,
    pub cb: Cb,
    pub slot: u32,
}
pub const NOORD: Ord = Ord { lo: 0, price: 0, qty: 0, cb: Cb { id: 0, aux: 0 }, slot: 0 };
impl Ord {
    pub fn key(&self) -> u128 {
        ((self.price as u128) << 64) | self.lo as u128
    }
}
pub const MAXO: usize = 8;
#[derive(Clone, Copy)]
pub struct Orders {
    pub n: usize,
    pub o: [Ord; MAXO],
}
impl Orders {
    pub fn empty() -> Self {
        Orders { n: 0, o: [NOORD; MAXO] }
    }
    pub fn find(&self, key: u128) -> Option<usize> {
        let mut i = 0;
        while i < self.n {
            if decide(self.o[i].key() == key) {
                return Some(i);
            }
            i += 1;
        }
        None
    }
}

pub trait AsBytes {
    fn bytes(&mut self) -> &'static mut [u8];
}
pub fn bytes_of<T>(t: &mut T) -> &'static mut [u8] {
    unsafe { std::slice::from_raw_parts_mut(t as *mut T as *mut u8, std::mem::size_of::<T>()) }
}

/// How slots are handed out in the generated state.
pub const LAYOUT_FRESH: usize = 0; // live orders in slots 0..n in key order, nothing ever freed
pub const LAYOUT_REV: usize = 1; // slots once all used: live orders at the top in reverse, free list below
pub const LAYOUT_MIX: usize = 2; // slots once all used: live orders interleaved, free list descending
pub const LAYOUT_ALL: usize = 99; // every assignment and every free-list order
/// 50 + one of the first three: wide books, whose keys are fixed; 60 +: their quantities and owners too
pub const LAYOUT_WIDE: usize = 50;
/// with 3 or 4 in place of one of the first three, trees as deep as can be, towards the lowest or the highest key
pub fn wide_price(bid: bool, i: usize, chain: usize) -> u64 {
    if chain == 3 {
        return if bid { 1 << (20 + i) } else { 1 << (32 + i) };
    }
    if chain == 4 {
        return if bid { (1 << 32) - (1 << 31 >> i) } else { (1 << 40) - (1 << 39 >> i) };
    }
    // the orders 2 and 3 share a price
    let lvl = if i >= 3 { i - 1 } else { i } as u64;
    if bid { ((2 + lvl) << 32) + ((lvl % 3) << 30) } else { ((16 + lvl) << 32) + ((lvl % 3) << 30) }
}
pub fn wide_lo(bid: bool, i: usize, n: usize) -> u64 {
    if bid { !(4 * (n - i) as u64 + 2) } else { 4 * i as u64 + 1 }
}

pub struct Gen {
    pub bid: bool,
    /// every resting sequence number is below this one
    pub next_seq: u64,
    pub min_qty: u64,
    /// constrain low words to the (side, sequence number) encoding
    pub coded: bool,
    pub taker_bid: bool,
    /// price hints of the order with the given rank (0 = best)
    pub pins: fn(bool, usize) -> [u64; NP],
}
/// The price hints of a taker's opposite side, its own side and its limit, for a bid (true) or an ask taker.
pub fn opp_pins(bid: bool, r: usize) -> [u64; NP] {
    let r = r as u64;
    let a = if bid { (4 + r) << 31 } else { (8 - r) << 29 };
    let t = if bid { 10 + r } else { 18 - r };
    let h = if bid { (1 << 63) + (r << 60) } else { (1 << 63) - (r << 60) };
    [a, a, a, a, t, h, 1 << 32, a, a, a]
}
pub fn own_pins(bid: bool, r: usize) -> [u64; NP] {
    let r = r as u64;
    let a = if bid { (8 - r) << 27 } else { (4 + r) << 32 };
    let t = if bid { 8 - r } else { 20 + r };
    let h = if bid { (1 << 62) - (r << 59) } else { (1 << 63) + ((1 + r) << 59) };
    let e = if bid { 1 << 31 } else { 1 << 33 };
    [a, a, a, a, t, h, e, e, a, a]
}
pub fn limit_pins(bid: bool, n_own: usize) -> [u64; NP] {
    let worst = own_pins(bid, if n_own == 0 { 0 } else { n_own - 1 })[0];
    if bid {
        [64 << 31, 4 << 31, 3 << 30, worst, 1000, u64::MAX, 1 << 32, 1 << 31, 1 << 20, 0]
    } else {
        [1 << 29, 8 << 29, 1 << 33, worst, 1, 1 << 61, 1 << 32, 1 << 33, 1 << 40, 0]
    }
}
pub fn no_pins(_: bool, _: usize) -> [u64; NP] {
    [1 << 32; NP]
}

impl<const L: usize, const I: usize> SlabMem<L, I, Cb> {
    pub fn zeroed(tag: u64) -> Self {
        SlabMem {
            tag,
            leaf_free_len: 0,
            leaf_free_head: 0,
            leaf_bump: 0,
            inner_free_len: 0,
            inner_free_head: 0,
            inner_bump: 0,
            root: 0,
            leaf_count: 0,
            leaves: [Leaf { lo: 0, hi: 0, qty: 0 }; L],
            inners: [Inner { lo: 0, hi: 0, prefix_len: 0, children: [0; 2] }; I],
            cbs: [Cb { id: 0, aux: 0 }; L],
        }
    }

    /// Fills self with an arbitrary valid tree of n orders; returns them in ascending key order.
    #[inline(never)]
    pub fn generate(&mut self, n: usize, layout: usize, g: &Gen) -> Orders {
        let wide = layout >= LAYOUT_WIDE && layout < LAYOUT_ALL;
        let fixed = wide && layout >= LAYOUT_WIDE + 10;
        let digit = if wide { (layout - LAYOUT_WIDE) % 10 } else { 0 };
        let layout = match digit {
            3 => LAYOUT_MIX,
            4 => LAYOUT_REV,
            _ if wide => digit,
            // an empty side: one order of the free slots will do
            LAYOUT_ALL if n == 0 => LAYOUT_MIX,
            _ => layout,
        };
        if wide && g.coded {
            assume(g.next_seq > 100);
        }
        let mut out = Orders::empty();
        out.n = n;
        let mut i = 0;
        while i < n {
            if wide {
                let mut o = Ord { lo: wide_lo(g.bid, i, n), price: wide_price(g.bid, i, digit), qty: 10 + 7 * i as u64, cb: Cb { id: i as u64 % 2, aux: i as u64 }, slot: 0 };
                if !fixed {
                    o.qty = any_u64();
                    o.cb = any_cb();
                }
                assume(o.qty >= g.min_qty);
                out.o[i] = o;
                i += 1;
                continue;
            }
            let rank = if g.bid { n - 1 - i } else { i };
            let price = if g.coded { any_pinned(&(g.pins)(g.taker_bid, rank)) } else { any_u64() };
            let o = Ord { lo: any_u64(), price, qty: any_u64(), cb: Cb { id: any_u64(), aux: any_u64() }, slot: 0 };
            out.o[i] = o;
            assume(o.price >= 1);
            assume(o.qty >= g.min_qty);
            if g.coded {
                let seq = if g.bid { !o.lo } else { o.lo };
                assume(seq < g.next_seq);
            }
            let mut j = 0;
            while j < i {
                assume(out.o[j].key() < o.key());
                if g.coded {
                    assume(out.o[j].lo != o.lo);
                }
                j += 1;
            }
            i += 1;
        }
        // slot assignment
        let mut slots = [0u32; MAXO];
        let mut freel = [0u32; MAXO];
        let mut freei = [0u32; MAXO];
        let mut islots = [0u32; MAXO];
        let bump;
        match layout {
            LAYOUT_FRESH => {
                bump = n;
                let mut i = 0;
                while i < n {
                    slots[i] = i as u32;
                    islots[i] = i as u32;
                    i += 1;
                }
            }
            LAYOUT_REV => {
                bump = L;
                let mut i = 0;
                while i < n {
                    slots[i] = (L - 1 - i) as u32;
                    islots[i] = (L - 1).wrapping_sub(i + 1) as u32;
                    i += 1;
                }
                let mut i = 0;
                while i < L - n {
                    freel[i] = i as u32;
                    freei[i] = i as u32;
                    i += 1;
                }
                if n == 0 {
                    // I = L - 1 inner slots, all free
                } 
            }
            LAYOUT_MIX => {
                bump = L;
                // live orders in slots 1, 0, 3, 2, ...; inner slots 0, 2, 1, ...; free lists descending
                let mut used = [false; MAXO];
                let mut i = 0;
                while i < n {
                    let mut s = i ^ 1;
                    if s >= L {
                        s = i;
                    }
                    slots[i] = s as u32;
                    used[s] = true;
                    i += 1;
                }
                let mut k = 0;
                let mut s = L;
                while s > 0 {
                    s -= 1;
                    if !used[s] {
                        freel[k] = s as u32;
                        k += 1;
                    }
                }
                let ni = if n == 0 { 0 } else { n - 1 };
                let mut i = 0;
                while i < ni {
                    islots[i] = i as u32;
                    i += 1;
                }
                let mut k = 0;
                let mut s = I;
                while s > ni {
                    s -= 1;
                    freei[k] = s as u32;
                    k += 1;
                }
            }
            _ => {
                bump = n + choose(L - n + 1);
                perm(n, bump, &mut slots, &mut freel);
                let ib = if bump == 0 { 0 } else { bump - 1 };
                let ni = if n == 0 { 0 } else { n - 1 };
                perm(ni, ib, &mut islots, &mut freei);
            }
        }
        let ib = if bump == 0 { 0 } else { bump - 1 };
        let ni = if n == 0 { 0 } else { n - 1 };
        self.leaf_bump = bump as u32;
        self.inner_bump = ib as u32;
        self.leaf_count = n as u32;
        self.leaf_free_len = (bump - n) as u32;
        self.inner_free_len = (ib - ni) as u32;
        // leaves
        let mut i = 0;
        while i < n {
            let s = slots[i] as usize;
            out.o[i].slot = s as u32;
            let o = out.o[i];
            self.leaves[s] = Leaf { lo: o.lo, hi: o.price, qty: o.qty };
            self.cbs[s] = o.cb;
            i += 1;
        }
        // free leaves: stale contents are arbitrary, the link lives in the quantity
        let nf = bump - n;
        let mut i = 0;
        while i < nf {
            let s = freel[i] as usize;
            let q = if i + 1 < nf { freel[i + 1] as u64 } else { any_u64() };
            self.leaves[s] = Leaf { lo: any_u64(), hi: any_u64(), qty: q };
            self.cbs[s] = Cb { id: any_u64(), aux: any_u64() };
            i += 1;
        }
        self.leaf_free_head = if nf > 0 { freel[0] } else { any_u32() };
        let nf = ib - ni;
        let mut i = 0;
        while i < nf {
            let s = freei[i] as usize;
            let q = if i + 1 < nf { freei[i + 1] as u64 } else { any_u64() };
            self.inners[s] = Inner { lo: any_u64(), hi: any_u64(), prefix_len: q, children: [any_u32(), any_u32()] };
            i += 1;
        }
        self.inner_free_head = if nf > 0 { freei[0] } else { any_u32() };
        // tree
        if n > 0 {
            let mut k = 0;
            self.root = self.tree(0, n - 1, &out, &islots, &mut k, wide);
        }
        out
    }

    #[inline(never)]
    fn tree(&mut self, l: usize, r: usize, out: &Orders, islots: &[u32; MAXO], k: &mut usize, wide: bool) -> u32 {
        if l == r {
            return out.o[l].slot;
        }
        let s = islots[*k] as usize;
        *k += 1;
        if wide {
            let p = (out.o[l].key() ^ out.o[r].key()).leading_zeros();
            let mask = (1u128 << 127) >> p;
            let mut m = l;
            while out.o[m + 1].key() & mask == 0 {
                m += 1;
            }
            let a = self.tree(l, m, out, islots, k, wide);
            let b = self.tree(m + 1, r, out, islots, k, wide);
            self.inners[s] = Inner { lo: out.o[r].lo, hi: out.o[r].price, prefix_len: p as u64, children: [a, b] };
            return !(s as u32);
        }
        let m = l + choose(r - l);
        let p = any_u64();
        assume(p < 128);
        let mask = (1u128 << 127) >> p;
        let node = Inner { lo: any_u64(), hi: any_u64(), prefix_len: p, children: [0; 2] };
        let nkey = ((node.hi as u128) << 64) + node.lo as u128;
        // all keys below share the p top bits of the node's key and split on the next one
        let top = !(u128::MAX >> (p as u32 & 127));
        let mut i = l;
        while i <= r {
            let key = out.o[i].key();
            assume((nkey ^ key) & top == 0);
            if i <= m {
                assume(key & mask == 0);
            } else {
                assume(key & mask != 0);
            }
            i += 1;
        }
        let a = self.tree(l, m, out, islots, k, wide);
        let b = self.tree(m + 1, r, out, islots, k, wide);
        self.inners[s] = node;
        self.inners[s].children = [a, b];
        !(s as u32)
    }

    /// Reads the tree back in ascending order. None when it is not a tree over the recorded number of orders.
    #[inline(never)]
    pub fn read(&self) -> Option<Orders> {
        let mut out = Orders::empty();
        if self.leaf_count == 0 {
            return Some(out);
        }
        if self.leaf_count as usize > L {
            return None;
        }
        let mut stack = [0u32; 2 * MAXO];
        let mut sp = 1;
        stack[0] = self.root;
        let mut visited = 0;
        while sp > 0 {
            sp -= 1;
            let h = stack[sp];
            visited += 1;
            if visited > 2 * L {
                return None;
            }
            if h & INNER == 0 {
                let h = h as usize;
                if h >= L || out.n >= MAXO {
                    return None;
                }
                let lf = &self.leaves[h];
                out.o[out.n] = Ord { lo: lf.lo, price: lf.hi, qty: lf.qty, cb: self.cbs[h], slot: h as u32 };
                out.n += 1;
            } else {
                let h = !h as usize;
                if h >= I || sp + 2 > 2 * MAXO {
                    return None;
                }
                stack[sp] = self.inners[h].children[1];
                stack[sp + 1] = self.inners[h].children[0];
                sp += 2;
            }
        }
        if out.n != self.leaf_count as usize {
            return None;
        }
        Some(out)
    }

    /// Full validity: every inner node's prefix and critical bit agree with the keys below it, keys ascend strictly,
    /// live and free slots partition the allocated ones.
    #[inline(never)]
    pub fn check_valid(&self) {
        let lb = self.leaf_bump as usize;
        let ib = self.inner_bump as usize;
        check!(lb <= L);
        check!(ib <= I);
        let o = match self.read() {
            Some(o) => o,
            None => {
                check!(false);
                return;
            }
        };
        let n = o.n;
        let mut i = 0;
        while i + 1 < n {
            check!(o.o[i].key() < o.o[i + 1].key());
            i += 1;
        }
        let mut lused = [false; MAXO];
        let mut iused = [false; MAXO];
        if n > 0 {
            let mut idx = 0;
            self.valid_rec(self.root, &o, &mut idx, &mut lused, &mut iused);
        }
        // free lists
        check!(self.leaf_free_len as usize + n == lb);
        let mut h = self.leaf_free_head as usize;
        let mut k = self.leaf_free_len as usize;
        while k > 0 {
            if h >= lb || lused[h] {
                check!(false);
                return;
            }
            lused[h] = true;
            h = self.leaves[h].qty as u32 as usize;
            k -= 1;
        }
        let ni = if n == 0 { 0 } else { n - 1 };
        check!(self.inner_free_len as usize + ni == ib);
        check!(ib == if lb == 0 { 0 } else { lb - 1 });
        let mut h = self.inner_free_head as usize;
        let mut k = self.inner_free_len as usize;
        while k > 0 {
            if h >= ib || iused[h] {
                check!(false);
                return;
            }
            iused[h] = true;
            h = self.inners[h].prefix_len as u32 as usize;
            k -= 1;
        }
    }

    /// returns (first, last) index in o of the leaves below h
    #[inline(never)]
    fn valid_rec(&self, h: u32, o: &Orders, idx: &mut usize, lused: &mut [bool; MAXO], iused: &mut [bool; MAXO]) -> (usize, usize) {
        if h & INNER == 0 {
            let s = h as usize;
            check!(s < self.leaf_bump as usize);
            check!(!lused[s]);
            lused[s] = true;
            let i = *idx;
            *idx += 1;
            return (i, i);
        }
        let s = !h as usize;
        check!(s < self.inner_bump as usize);
        check!(!iused[s]);
        iused[s] = true;
        let (l, m) = self.valid_rec(self.inners[s].children[0], o, idx, lused, iused);
        let (_, r) = self.valid_rec(self.inners[s].children[1], o, idx, lused, iused);
        let node = &self.inners[s];
        let p = node.prefix_len;
        check!(p < 128);
        let mask = (1u128 << 127).checked_shr(p as u32).unwrap_or(0);
        let top = !(u128::MAX >> (p as u32 & 127));
        let nkey = ((node.hi as u128) << 64) + node.lo as u128;
        let mut i = l;
        while i <= r {
            let key = o.o[i].key();
            check!((nkey ^ key) & top == 0);
            check!((key & mask != 0) == (i > m));
            i += 1;
        }
        (l, r)
    }
}

/// injective assignment of n items into 0..b, the rest listed in `rest` in any order
#[inline(never)]
fn perm(n: usize, b: usize, live: &mut [u32; MAXO], rest: &mut [u32; MAXO]) {
    let mut pool = [0u32; MAXO];
    let mut i = 0;
    while i < b {
        pool[i] = i as u32;
        i += 1;
    }
    let mut left = b;
    let mut i = 0;
    while i < b {
        let k = choose(left);
        let s = pool[k];
        let mut j = k;
        while j + 1 < left {
            pool[j] = pool[j + 1];
            j += 1;
        }
        left -= 1;
        if i < n {
            live[i] = s;
        } else {
            rest[i - n] = s;
        }
        i += 1;
    }
}

// ------------------------------------------------------------------------------------------------ event queue
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Ev {
    pub tag: u8,
    pub side: u8,
    pub pad: [u8; 6],
    pub quote: u64,
    pub id_lo: u64,
    pub id_hi: u64,
    pub base: u64,
}
#[repr(C)]
pub struct QueueMem<const N: usize, C> {
    pub tag: u64,
    pub head: u64,
    pub count: u64,
    pub seq: u64,
    pub ev: [Ev; N],
    pub cbs: [[C; 2]; N],
}
pub const EV0: Ev = Ev { tag: 0, side: 0, pad: [0; 6], quote: 0, id_lo: 0, id_hi: 0, base: 0 };
pub const CB0: Cb = Cb { id: 0, aux: 0 };
impl Ev {
    pub fn id(&self) -> u128 {
        ((self.id_hi as u128) << 64) | self.id_lo as u128
    }
    pub fn is_fill(&self) -> bool {
        self.tag == 0
    }
    pub fn is_out(&self) -> bool {
        self.tag == 1
    }
}
/// an event whose every field is arbitrary
pub fn any_ev() -> Ev {
    let t = any_u8() & 1;
    Ev { tag: t, side: any_u8() & 1, pad: [0; 6], quote: any_u64(), id_lo: any_u64(), id_hi: any_u64(), base: any_u64() }
}
pub fn any_cb() -> Cb {
    Cb { id: any_u64(), aux: any_u64() }
}
impl<const N: usize> QueueMem<N, Cb> {
    pub fn new(head: usize, seq: u64) -> Self {
        QueueMem { tag: TAG_EQ, head: head as u64, count: 0, seq, ev: [EV0; N], cbs: [[CB0; 2]; N] }
    }
    /// event at queue position i
    pub fn at(&self, i: usize) -> &Ev {
        &self.ev[(self.head as usize + i) % N]
    }
    pub fn cb_at(&self, i: usize) -> &[Cb; 2] {
        &self.cbs[(self.head as usize + i) % N]
    }
}
