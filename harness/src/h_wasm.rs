//! The off-chain reader (js/wasm), on books stored in the format it reads.
use crate::v::*;

const MAXN: usize = 9;
const CAP: usize = 2 * MAXN;
const HEAD: usize = 65;
/// layouts from here on: a larger book of fixed keys
const WIDE: usize = 10;

#[derive(Clone, Copy)]
struct Order {
    lo: u64,
    price: u64,
    qty: u64,
    slot: usize,
}
impl Order {
    fn key(&self) -> u128 {
        ((self.price as u128) << 64) | self.lo as u128
    }
}

struct Book {
    data: [u8; HEAD + CAP * 57],
    cb: usize,
    size: usize,
    n: usize,
    o: [Order; MAXN],
    root: usize,
    /// whether the next order rests at a higher price
    step: [bool; MAXN],
}

fn put(b: &mut [u8], at: usize, v: &[u8]) {
    b[at..at + v.len()].copy_from_slice(v);
}

impl Book {
    /// slot of the k-th node
    fn place(layout: usize, k: usize) -> usize {
        match layout % WIDE {
            0 => k,
            1 => CAP - 1 - k,
            _ => (5 * k + 7) % CAP,
        }
    }
    fn at(&self, slot: usize) -> usize {
        HEAD + slot * self.size
    }
    /// The shape of the tree over l..=r, every compatible one a separate case. Levels that differ in price split first.
    /// Records each inner node's split and the critical bit it has in the witness the solver is offered.
    #[inline(never)]
    fn shape(l: usize, r: usize, depth: usize, step: &[bool; MAXN], k: &mut usize, split: &mut [usize; CAP], bit: &mut [usize; CAP], wit: &mut [u128; MAXN]) {
        if l == r {
            return;
        }
        let m = l + choose(r - l);
        let mut priced = false;
        let mut i = l;
        while i < r {
            priced |= step[i];
            i += 1;
        }
        assume(!priced | step[m]);
        if priced & !step[m] {
            return;
        }
        let b = if priced { 104 - depth } else { 40 - depth };
        let mut i = m + 1;
        while i <= r {
            wit[i] |= 1 << b;
            i += 1;
        }
        split[*k] = m;
        bit[*k] = b;
        *k += 1;
        Self::shape(l, m, depth + 1, step, k, split, bit, wit);
        Self::shape(m + 1, r, depth + 1, step, k, split, bit, wit);
    }
    #[inline(never)]
    fn tree(&mut self, l: usize, r: usize, layout: usize, k: &mut usize, inner: &mut usize, split: &[usize; CAP], bit: &[usize; CAP], wit: &[u128; MAXN]) -> usize {
        let slot = Self::place(layout, *k);
        *k += 1;
        let p = self.at(slot);
        if l == r {
            let o = self.o[l];
            self.o[l].slot = slot;
            self.data[p] = 2;
            put(&mut self.data, p + 1, &o.lo.to_le_bytes());
            put(&mut self.data, p + 9, &o.price.to_le_bytes());
            put(&mut self.data, p + 17 + self.cb, &o.qty.to_le_bytes());
            return slot;
        }
        if layout >= WIDE {
            // fixed keys: the tree they make
            let len = (self.o[l].key() ^ self.o[r].key()).leading_zeros();
            let mask = (1u128 << 127) >> len;
            let mut m = l;
            while self.o[m + 1].key() & mask == 0 {
                m += 1;
            }
            let (lo, hi) = (self.o[r].lo, self.o[r].price);
            let a = self.tree(l, m, layout, k, inner, split, bit, wit);
            let b = self.tree(m + 1, r, layout, k, inner, split, bit, wit);
            self.data[p] = 1;
            put(&mut self.data, p + 1, &len.to_le_bytes());
            put(&mut self.data, p + 5, &lo.to_le_bytes());
            put(&mut self.data, p + 13, &hi.to_le_bytes());
            put(&mut self.data, p + 21, &(a as u32).to_le_bytes());
            put(&mut self.data, p + 25, &(b as u32).to_le_bytes());
            return slot;
        }
        let m = split[*inner];
        let len = any_pinned(&[127 - bit[*inner] as u64; NP]);
        *inner += 1;
        assume(len < 128);
        let mask = (1u128 << 127) >> len;
        let (lo, hi) = (any_pinned(&[wit[l] as u64; NP]), any_pinned(&[(wit[l] >> 64) as u64; NP]));
        let nkey = ((hi as u128) << 64) | lo as u128;
        let top = !(u128::MAX >> (len as u32 & 127));
        let mut i = l;
        while i <= r {
            let key = self.o[i].key();
            assume((nkey ^ key) & top == 0);
            assume((key & mask == 0) == (i <= m));
            i += 1;
        }
        let a = self.tree(l, m, layout, k, inner, split, bit, wit);
        let b = self.tree(m + 1, r, layout, k, inner, split, bit, wit);
        self.data[p] = 1;
        put(&mut self.data, p + 1, &(len as u32).to_le_bytes());
        put(&mut self.data, p + 5, &lo.to_le_bytes());
        put(&mut self.data, p + 13, &hi.to_le_bytes());
        put(&mut self.data, p + 21, &(a as u32).to_le_bytes());
        put(&mut self.data, p + 25, &(b as u32).to_le_bytes());
        slot
    }
    #[inline(never)]
    fn new(n: usize, cb: usize, layout: usize) -> Book {
        let size = if cb + 25 > 32 { cb + 25 } else { 32 };
        let mut b = Book { data: [0; HEAD + CAP * 57], cb, size, n, o: [Order { lo: 0, price: 0, qty: 0, slot: 0 }; MAXN], root: 0, step: [false; MAXN] };
        let mut i = 0;
        while i + 1 < n {
            b.step[i] = if layout >= WIDE { i % 3 != 1 } else { choose(2) == 1 };
            i += 1;
        }
        let (mut split, mut bit, mut wit) = ([0; CAP], [0; CAP], [0u128; MAXN]);
        if n > 0 && layout < WIDE {
            Self::shape(0, n - 1, 0, &b.step, &mut 0, &mut split, &mut bit, &mut wit);
        }
        let mut i = 0;
        while i < n {
            if layout >= WIDE {
                let price = if i == 0 { 3 << 31 } else { b.o[i - 1].price + ((b.step[i - 1] as u64 * (5 + i as u64)) << 30) };
                b.o[i] = Order { lo: 11 + 5 * i as u64, price, qty: any_pinned(&[10 + i as u64; NP]), slot: 0 };
                assume(b.o[i].qty >> 60 == 0);
                i += 1;
                continue;
            }
            let lo = any_pinned(&[wit[i] as u64; NP]);
            let price = if i > 0 && !b.step[i - 1] { b.o[i - 1].price } else { any_pinned(&[(wit[i] >> 64) as u64; NP]) };
            b.o[i] = Order { lo, price, qty: any_pinned(&[10 + i as u64; NP]), slot: 0 };
            if i > 0 {
                if b.step[i - 1] {
                    assume(b.o[i - 1].price < price);
                } else {
                    assume(b.o[i - 1].lo < lo);
                }
            }
            // (no level's total overflows)
            assume(b.o[i].qty >> 61 == 0);
            i += 1;
        }
        // slots in no use: free ones hold a tag and a link, the contents are whatever was there
        let mut i = 0;
        while i < CAP {
            let p = b.at(i);
            b.data[p] = if i % 2 == 0 { 3 } else { 0 };
            put(&mut b.data, p + 1, &any_u64().to_le_bytes());
            put(&mut b.data, p + 9, &any_u64().to_le_bytes());
            put(&mut b.data, p + 17, &any_u64().to_le_bytes());
            i += 1;
        }
        let mut k = 0;
        if n > 0 {
            b.root = b.tree(0, n - 1, layout, &mut k, &mut 0, &split, &bit, &wit);
        } else {
            b.root = choose(2) * (CAP - 1);
        }
        b.data[0] = 3 + any_bool() as u8;
        put(&mut b.data, 1, &(CAP as u64).to_le_bytes());
        put(&mut b.data, 9, &((CAP - k) as u64).to_le_bytes());
        put(&mut b.data, 17, &any_u32().to_le_bytes());
        put(&mut b.data, 21, &(b.root as u32).to_le_bytes());
        put(&mut b.data, 25, &(n as u64).to_le_bytes());
        put(&mut b.data, 33, &any_u64().to_le_bytes());
        b
    }
}

/// C27. params: 1 = orders, 2 = length of the owner information, 3 = layout
pub fn reader() {
    let mut b = Book::new(param(1), param(2), param(3));
    let n = b.n;
    let (cb, size) = (b.cb as u64, b.size as u64);
    let len = HEAD + CAP * b.size;
    let before = b.data;
    match choose(2) {
        0 => {
            let lo = dex_wasm::find_min(&mut b.data[..len], cb, size);
            let hi = dex_wasm::find_max(&mut b.data[..len], cb, size);
            if n == 0 {
                check!(lo.is_none());
                check!(hi.is_none());
            } else {
                check!(lo == Some(b.o[0].slot as u32));
                check!(hi == Some(b.o[n - 1].slot as u32));
                trace(lo.unwrap_or(0) as u64);
            }
            cover(1);
        }
        _ => {
            let up = choose(2) == 1;
            let depth = choose(n + 2);
            let got = dex_wasm::find_l2_depth(&mut b.data[..len], cb, size, depth as u64, up);
            // levels of the book in the order asked for
            let mut levels = 0;
            let mut qty = 0;
            let mut i = 0;
            while i < n {
                let o = b.o[if up { i } else { n - 1 - i }];
                qty += o.qty;
                if i + 1 == n || b.step[if up { i } else { n - 2 - i }] {
                    if levels < depth {
                        check!(got.len() >= 2 * levels + 2);
                        if got.len() >= 2 * levels + 2 {
                            check!(got[2 * levels] == qty);
                            check!(got[2 * levels + 1] == o.price);
                        }
                        levels += 1;
                    }
                    qty = 0;
                } else {
                    cover(4);
                }
                i += 1;
            }
            check!(got.len() == 2 * levels);
            trace(levels as u64);
            cover(2 + up as u32);
            std::mem::forget(got);
        }
    }
    // looking changes nothing
    let mut i = 0;
    let mut same = true;
    while i < len {
        same &= b.data[i] == before[i];
        i += 1;
    }
    check!(same);
}
