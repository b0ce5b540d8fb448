//! The off-chain reader on large stored books: up to 128 orders, their keys fixed, quantities arbitrary.
use crate::v::*;

const MAXN: usize = 128;
const CAP: usize = 2 * MAXN;
const HEAD: usize = 65;
const CB: usize = 32;
const SIZE: usize = CB + 25;
const LEN: usize = HEAD + CAP * SIZE;

#[derive(Clone, Copy)]
struct Order {
    lo: u64,
    price: u64,
    qty: u64,
    slot: usize,
}
fn key(o: &Order) -> u128 {
    ((o.price as u128) << 64) | o.lo as u128
}
fn put(b: &mut [u8], at: usize, v: &[u8]) {
    b[at..at + v.len()].copy_from_slice(v);
}
fn place(k: usize) -> usize {
    (37 * k + 11) % CAP
}

/// (price, low half) of the i-th of n: a tree as deep as there are orders towards the lowest (0) or highest (1) key, a bushy one of
/// n / 2 levels (2) or one of n / 7 (3)
fn keys(shape: usize, i: usize, n: usize) -> (u64, u64) {
    if shape >= 2 {
        return ((5 + (i / if shape == 2 { 2 } else { 7 }) as u64) << 31, 3 + 9 * i as u64);
    }
    let j = if shape == 0 { i + MAXN - n } else { MAXN - 1 - i };
    let (p, l) = if j == 0 {
        (1, 0)
    } else if j <= 64 {
        (1, 1 << (j - 1))
    } else {
        (1 << (j - 64), 0)
    };
    if shape == 0 {
        (p, l)
    } else {
        (!p, !l)
    }
}

#[inline(never)]
fn tree(d: &mut [u8; LEN], o: &mut [Order; MAXN], l: usize, r: usize, k: &mut usize) -> usize {
    let slot = place(*k);
    *k += 1;
    let p = HEAD + slot * SIZE;
    if l == r {
        o[l].slot = slot;
        d[p] = 2;
        put(d, p + 1, &o[l].lo.to_le_bytes());
        put(d, p + 9, &o[l].price.to_le_bytes());
        put(d, p + 17 + CB, &o[l].qty.to_le_bytes());
        return slot;
    }
    let len = (key(&o[l]) ^ key(&o[r])).leading_zeros();
    let mask = (1u128 << 127) >> len;
    let mut m = l;
    while key(&o[m + 1]) & mask == 0 {
        m += 1;
    }
    let a = tree(d, o, l, m, k);
    let b = tree(d, o, m + 1, r, k);
    d[p] = 1;
    put(d, p + 1, &len.to_le_bytes());
    put(d, p + 5, &o[r].lo.to_le_bytes());
    put(d, p + 13, &o[r].price.to_le_bytes());
    put(d, p + 21, &(a as u32).to_le_bytes());
    put(d, p + 25, &(b as u32).to_le_bytes());
    slot
}

/// C27. params: 1 = orders, 2 = shape, 3 = depth asked for
pub fn reader_deep() {
    let (n, shape, depth) = (param(1), param(2), param(3));
    let mut d = [0u8; LEN];
    let mut o = [Order { lo: 0, price: 0, qty: 0, slot: 0 }; MAXN];
    let mut i = 0;
    while i < n {
        let (price, lo) = keys(shape, i, n);
        let qty = any_u64() >> 8;
        o[i] = Order { lo, price, qty, slot: 0 };
        i += 1;
    }
    let mut k = 0;
    let root = tree(&mut d, &mut o, 0, n - 1, &mut k);
    d[0] = 3 + any_bool() as u8;
    put(&mut d, 1, &(CAP as u64).to_le_bytes());
    put(&mut d, 9, &((CAP - k) as u64).to_le_bytes());
    put(&mut d, 17, &any_u32().to_le_bytes());
    put(&mut d, 21, &(root as u32).to_le_bytes());
    put(&mut d, 25, &(n as u64).to_le_bytes());
    put(&mut d, 33, &any_u64().to_le_bytes());
    let (cb, size) = (CB as u64, SIZE as u64);
    match choose(3) {
        0 => {
            check!(dex_wasm::find_min(&mut d, cb, size) == Some(o[0].slot as u32));
            check!(dex_wasm::find_max(&mut d, cb, size) == Some(o[n - 1].slot as u32));
            cover(1);
        }
        c => {
            let up = c == 1;
            let got = dex_wasm::find_l2_depth(&mut d, cb, size, depth as u64, up);
            let mut levels = 0;
            let mut qty = 0;
            let mut i = 0;
            while i < n {
                let x = o[if up { i } else { n - 1 - i }];
                qty += x.qty;
                let last = i + 1 == n || o[if up { i + 1 } else { n - 2 - i }].price != x.price;
                if last {
                    if levels < depth {
                        if got.len() < 2 * levels + 2 {
                            check!(false);
                            return;
                        }
                        check!((got[2 * levels] == qty) & (got[2 * levels + 1] == x.price));
                        levels += 1;
                    }
                    qty = 0;
                }
                i += 1;
            }
            check!(got.len() == 2 * levels);
            trace(levels as u64);
            cover(2 + up as u32);
            std::mem::forget(got);
        }
    }
}
