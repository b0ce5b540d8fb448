//! Books far larger than the other harnesses': up to 128 orders, their keys fixed, quantities and owners arbitrary.
use crate::book::*;
use crate::h_match::stb;
use crate::v::*;
use crate::h_proc::{pk, World};
use crate::h_slab::live_same;
use asset_agnostic_orderbook::instruction::new_order::Params;
use asset_agnostic_orderbook::instruction::{consume_events, mass_cancel_orders};
use asset_agnostic_orderbook::state::critbit::Slab;
use asset_agnostic_orderbook::state::event_queue::EventQueue;
use asset_agnostic_orderbook::state::orderbook::OrderBookState;
use asset_agnostic_orderbook::state::{AccountTag, Side};

pub const MAXD: usize = 128;
const L: usize = 130;
type Big = SlabMem<L, 129, Cb>;
type Keys = [Ord; L];

/// Key i of n in ascending order. Trees as deep as there are orders towards the lowest (0) or the highest (1) key, or
/// bushy ones (2, 3, 4). The low half's top bit tells a bid from an ask where an id is all there is: 1 (up to 63 orders) and 4 are
/// bids, 0 (up to 63) and 3 asks.
fn deep_key(shape: usize, i: usize, n: usize) -> (u64, u64) {
    if shape >= 2 {
        return ((100 + if shape == 3 { 1000 } else { 0 } + i as u64 / 2) << 32, (if shape == 4 { 1 << 63 } else { 0 }) + if i % 2 == 0 { 2 * i as u64 } else { 2 * i as u64 + 1 });
    }
    let j = if shape == 0 { i + MAXD - n } else { MAXD - 1 - i };
    let (p, l) = if j == 0 {
        (1, 0)
    } else if j <= 64 {
        (1, 1 << (j - 1))
    } else {
        (1 << (j - 64), 0)
    };
    if shape == 0 {
        (p, l)
    } else {
        (!p, !l)
    }
}

#[inline(never)]
fn subtree<const A: usize, const B: usize>(m: &mut SlabMem<A, B, Cb>, k: &Keys, l: usize, r: usize, next: &mut usize) -> u32 {
    if l == r {
        return k[l].slot;
    }
    let s = *next;
    *next += 1;
    let p = (k[l].key() ^ k[r].key()).leading_zeros();
    let mask = (1u128 << 127) >> p;
    let mut x = l;
    while k[x + 1].key() & mask == 0 {
        x += 1;
    }
    let a = subtree(m, k, l, x, next);
    let b = subtree(m, k, x + 1, r, next);
    m.inners[s] = Inner { lo: k[l].lo, hi: k[l].price, prefix_len: p as u64, children: [a, b] };
    !(s as u32)
}

#[inline(never)]
fn fill<const A: usize, const B: usize>(m: &mut SlabMem<A, B, Cb>, k: &mut Keys, n: usize, shape: usize, max: u64) {
    // max = 0: fixed quantities; otherwise the bits a quantity may have
    let mut i = 0;
    while i < n {
        let (price, lo) = deep_key(shape, i, n);
        let qty = if max == 0 { 10 + 7 * i as u64 } else { any_u64() & max };
        let o = Ord { lo, price, qty, cb: any_cb(), slot: ((i + 7) % n) as u32 };
        assume(o.qty >= 1);
        k[i] = o;
        let s = o.slot as usize;
        m.leaves[s] = Leaf { lo: o.lo, hi: o.price, qty: o.qty };
        m.cbs[s] = o.cb;
        i += 1;
    }
    m.leaf_bump = n as u32;
    m.inner_bump = (n - 1) as u32;
    m.leaf_count = n as u32;
    let mut next = 0;
    m.root = subtree(m, k, 0, n - 1, &mut next);
}

fn tag_of(bid: bool) -> AccountTag {
    if bid {
        AccountTag::Bids
    } else {
        AccountTag::Asks
    }
}

/// what is stored is exactly k[0..n], all of it found by its key, in order
#[inline(never)]
fn holds<const A: usize, const B: usize>(m: &mut SlabMem<A, B, Cb>, bid: bool, k: &Keys, n: usize) {
    check!(m.leaf_count as usize == n);
    let slab = Slab::<Cb>::from_buffer(bytes_of(m), tag_of(bid)).unwrap();
    let mut i = 0;
    while i < n {
        match slab.find_by_key(k[i].key()) {
            None => check!(false),
            Some(h) => {
                check!(slab.leaf_nodes[h as usize].base_quantity == k[i].qty);
                let c = slab.get_callback_info(h);
                check!((c.id == k[i].cb.id) & (c.aux == k[i].cb.aux));
            }
        }
        i += 1;
    }
    if n > 0 {
        check!(slab.find_min().map(|h| slab.leaf_nodes[h as usize].order_id()) == Some(k[0].key()));
        check!(slab.find_max().map(|h| slab.leaf_nodes[h as usize].order_id()) == Some(k[n - 1].key()));
    }
    let mut it = slab.into_iter(true);
    let mut i = 0;
    while i < n {
        match it.next() {
            None => check!(false),
            Some(l) => check!(l.order_id() == k[i].key()),
        }
        i += 1;
    }
    check!(it.next().is_none());
}

fn at(n: usize, k: usize) -> usize {
    match k {
        0 => 0,
        1 => 1,
        2 => n / 2,
        3 => n - 2,
        _ => n - 1,
    }
}

/// params: 1 = orders, 2 = shape, 3 = operation (0 read, 1 remove, 2 post, 3 best prices)
pub fn slab_deep() {
    let (n, shape) = (param(1), param(2));
    let bid = choose(2) == 0;
    let mut m = Big::zeroed(if bid { TAG_BIDS } else { TAG_ASKS });
    let mut k = [NOORD; L];
    fill(&mut m, &mut k, n, shape, u64::MAX);
    cover(1);
    match param(3) {
        0 => {
            holds(&mut m, bid, &k, n);
            let slab = Slab::<Cb>::from_buffer(bytes_of(&mut m), tag_of(bid)).unwrap();
            let mut it = slab.into_iter(false);
            let mut i = n;
            while i > 0 {
                i -= 1;
                match it.next() {
                    None => check!(false),
                    Some(l) => check!((l.order_id() == k[i].key()) & (l.base_quantity == k[i].qty)),
                }
            }
            check!(it.next().is_none());
        }
        1 => {
            let x = at(n, choose(5));
            {
                let mut slab = Slab::<Cb>::from_buffer(bytes_of(&mut m), tag_of(bid)).unwrap();
                match slab.remove_by_key(k[x].key()) {
                    None => check!(false),
                    Some((l, c)) => {
                        check!((l.order_id() == k[x].key()) & (l.base_quantity == k[x].qty));
                        check!((c.id == k[x].cb.id) & (c.aux == k[x].cb.aux));
                    }
                }
            }
            let mut i = x;
            while i + 1 < n {
                k[i] = k[i + 1];
                i += 1;
            }
            holds(&mut m, bid, &k, n - 1);
            check!((m.leaf_free_len == 1) & (m.inner_free_len == 1));
        }
        3 => {
            let mut other = Big::zeroed(if bid { TAG_ASKS } else { TAG_BIDS });
            let (own, opp) = (bytes_of(&mut m), bytes_of(&mut other));
            let (bids, asks) = if bid { (own, opp) } else { (opp, own) };
            let book = OrderBookState::<Cb> {
                bids: Slab::from_buffer(bids, AccountTag::Bids).unwrap(),
                asks: Slab::from_buffer(asks, AccountTag::Asks).unwrap(),
            };
            let best = &k[if bid { n - 1 } else { 0 }];
            check!(book.get_spread() == if bid { (Some(best.price), None) } else { (None, Some(best.price)) });
            check!(book.find_bbo(if bid { Side::Bid } else { Side::Ask }) == Some(best.slot));
            check!(book.find_bbo(if bid { Side::Ask } else { Side::Bid }).is_none());
        }
        _ => {
            // posted next to the order x, whatever the order of arrival
            let x = at(n, choose(5));
            let mut own_q = QueueMem::<5, Cb>::new(0, 1001);
            let mut other = Big::zeroed(if bid { TAG_ASKS } else { TAG_BIDS });
            let (qty, cb) = (any_u64(), any_cb());
            assume((qty >= 1) & (qty <= 1 << 31));
            let price = k[x].price;
            let id;
            {
                let (own, opp) = (bytes_of(&mut m), bytes_of(&mut other));
                let (bids, asks) = if bid { (own, opp) } else { (opp, own) };
                let mut book = OrderBookState::<Cb> {
                    bids: Slab::from_buffer(bids, AccountTag::Bids).unwrap(),
                    asks: Slab::from_buffer(asks, AccountTag::Asks).unwrap(),
                };
                let mut eq = EventQueue::<Cb>::from_buffer(bytes_of(&mut own_q), AccountTag::EventQueue).unwrap();
                let params = Params {
                    max_base_qty: qty,
                    max_quote_qty: u64::MAX,
                    limit_price: price,
                    side: if bid { Side::Bid } else { Side::Ask },
                    match_limit: 10,
                    callback_info: cb,
                    post_only: false,
                    post_allowed: true,
                    self_trade_behavior: stb(0),
                };
                match book.new_order(params, &mut eq, 1) {
                    Err(_) => {
                        check!(false);
                        return;
                    }
                    Ok(s) => match s.posted_order_id {
                        None => {
                            check!(false);
                            return;
                        }
                        Some(i) => {
                            id = i;
                            check!(s.total_base_qty_posted == qty);
                        }
                    },
                }
            }
            let key: u128 = id;
            let mut i = n;
            while i > 0 && k[i - 1].key() > key {
                k[i] = k[i - 1];
                i -= 1;
            }
            k[i] = Ord { lo: id as u64, price, qty, cb, slot: n as u32 };
            holds(&mut m, bid, &k, n + 1);
        }
    }
}

/// One order against a side of many (their quantities fixed too): C02, C05, C06, C07, C08. params: 1 = orders, 2 = match limit (0: more than enough), 3 = 1 for an
/// order of the same owner, to be cancelled instead of filled
pub fn match_sweep() {
    let (n, lim, own) = (param(1), param(2), param(3) == 1);
    let bid = choose(2) == 0;
    let mut m = Big::zeroed(if bid { TAG_ASKS } else { TAG_BIDS });
    let mut k = [NOORD; L];
    fill(&mut m, &mut k, n, 2, 0);
    let mut none = Big::zeroed(if bid { TAG_BIDS } else { TAG_ASKS });
    let mut q = QueueMem::<270, Cb>::new(100, 1001);
    let cb = any_cb();
    let mut i = 0;
    while i < n {
        assume((k[i].cb.id == cb.id) == own);
        i += 1;
    }
    let min = 1;
    let (total_base, steps);
    {
        let (own, opp) = (bytes_of(&mut none), bytes_of(&mut m));
        let (bids, asks) = if bid { (own, opp) } else { (opp, own) };
        let mut book = OrderBookState::<Cb> {
            bids: Slab::from_buffer(bids, AccountTag::Bids).unwrap(),
            asks: Slab::from_buffer(asks, AccountTag::Asks).unwrap(),
        };
        let mut eq = EventQueue::<Cb>::from_buffer(bytes_of(&mut q), AccountTag::EventQueue).unwrap();
        let params = Params {
            max_base_qty: 1 << 30,
            max_quote_qty: 1 << 50,
            limit_price: if bid { 1 << 40 } else { 1 << 32 },
            side: if bid { Side::Bid } else { Side::Ask },
            match_limit: if lim == 0 { u64::MAX } else { lim as u64 },
            callback_info: cb,
            post_only: false,
            post_allowed: false,
            self_trade_behavior: stb(1),
        };
        match book.new_order(params, &mut eq, min) {
            Err(_) => {
                check!(false);
                return;
            }
            Ok(s) => total_base = s.total_base_qty,
        }
    }
    cover(1);
    let p = prop();
    steps = if lim == 0 || lim > n { n } else { lim };
    let per = if own { 1 } else { 2 };
    let count = q.count as usize;
    if p == 8 {
        check!(count == per * steps);
    }
    if count != per * steps || count > 260 {
        return;
    }
    let mut sum = 0;
    let mut j = 0;
    while j < steps {
        let o = &k[if bid { j } else { n - 1 - j }];
        let last = q.at(per * j + per - 1);
        if p == 7 {
            check!(last.is_out() & (last.id() == o.key()) & (last.side == bid as u8));
            check!(last.base == if own { o.qty } else { 0 });
            let c = q.cb_at(per * j + per - 1)[0];
            check!((c.id == o.cb.id) & (c.aux == o.cb.aux));
        }
        if p == 10 && own {
            check!(last.is_out() & (last.id() == o.key()));
        }
        if !own {
            let f = q.at(2 * j);
            if p == 2 {
                check!(f.is_fill() & (f.id() == o.key()));
            }
            if p == 6 {
                check!(f.base == o.qty);
            }
            if p == 9 {
                let c = q.cb_at(2 * j);
                check!((c[0].id == o.cb.id) & (c[0].aux == o.cb.aux) & (c[1].id == cb.id) & (c[1].aux == cb.aux));
            }
            sum += o.qty;
        }
        j += 1;
    }
    if p == 5 {
        check!(total_base == sum);
    }
    if p == 6 || p == 17 {
        check!(none.leaf_count == 0);
        if !bid {
            holds(&mut m, true, &k, n - steps);
        } else {
            let mut i = 0;
            while i + steps < n {
                k[i] = k[i + steps];
                i += 1;
            }
            holds(&mut m, false, &k, n - steps);
        }
    }
}

/// An order posted to a side of 64 orders that is full. params: 1 = shape, 2 = the new order's price against the worst
/// one's (0 better than all, 1 just better, 2 equal, 3 worse)
pub fn full_deep() {
    const F: usize = 64;
    let (shape, rel) = (param(1), param(2));
    let bid = choose(2) == 0;
    let mut m = SlabMem::<F, 63, Cb>::zeroed(if bid { TAG_BIDS } else { TAG_ASKS });
    let mut other = SlabMem::<F, 63, Cb>::zeroed(if bid { TAG_ASKS } else { TAG_BIDS });
    let mut k = [NOORD; L];
    fill(&mut m, &mut k, F, shape, u64::MAX);
    let mut q = QueueMem::<5, Cb>::new(0, 1001);
    let (worst, best) = if bid { (k[0], k[F - 1]) } else { (k[F - 1], k[0]) };
    let price = match rel {
        0 => best.price,
        2 => worst.price,
        1 => {
            if bid {
                worst.price + 1
            } else {
                worst.price - 1
            }
        }
        _ => {
            if bid {
                worst.price - 1
            } else {
                worst.price + 1
            }
        }
    };
    assume(price >= 1);
    let better = if bid { price > worst.price } else { price < worst.price };
    let (qty, cb) = (any_u64(), any_cb());
    assume((qty >= 1) & (qty <= 1 << 31));
    let posted;
    {
        let (own, opp) = (bytes_of(&mut m), bytes_of(&mut other));
        let (bids, asks) = if bid { (own, opp) } else { (opp, own) };
        let mut book = OrderBookState::<Cb> {
            bids: Slab::from_buffer(bids, AccountTag::Bids).unwrap(),
            asks: Slab::from_buffer(asks, AccountTag::Asks).unwrap(),
        };
        let mut eq = EventQueue::<Cb>::from_buffer(bytes_of(&mut q), AccountTag::EventQueue).unwrap();
        let params = Params {
            max_base_qty: qty,
            max_quote_qty: u64::MAX,
            limit_price: price,
            side: if bid { Side::Bid } else { Side::Ask },
            match_limit: 10,
            callback_info: cb,
            post_only: false,
            post_allowed: true,
            self_trade_behavior: stb(0),
        };
        match book.new_order(params, &mut eq, 1) {
            Err(_) => {
                check!(false);
                return;
            }
            Ok(s) => {
                posted = s.posted_order_id;
                check!(s.total_base_qty_posted == if better { qty } else { 0 });
            }
        }
    }
    cover(1);
    check!(posted.is_some() == better);
    check!(other.leaf_count == 0);
    let id: u128 = match posted {
        Some(i) => i,
        None => {
            check!(q.count == 0);
            holds(&mut m, bid, &k, F);
            return;
        }
    };
    if q.count != 1 {
        check!(false);
        return;
    }
    let e = q.at(0);
    check!(e.is_out() & (e.id() == worst.key()) & (e.side == !bid as u8) & (e.base == worst.qty));
    let c = q.cb_at(0)[0];
    check!((c.id == worst.cb.id) & (c.aux == worst.cb.aux));
    // without the worst one, with the new one
    let mut i = 0;
    if bid {
        while i + 1 < F {
            k[i] = k[i + 1];
            i += 1;
        }
    }
    let mut i = F - 1;
    while i > 0 && k[i - 1].key() > id {
        k[i] = k[i - 1];
        i -= 1;
    }
    k[i] = Ord { lo: id as u64, price, qty, cb, slot: 0 };
    holds(&mut m, bid, &k, F);
}

/// Cancelling many orders at once. params: 1 = orders a side, 2 = shape (0 deep, up to 63 orders; 2 bushy), 3 = how many of each side are cancelled, 4 = 1: a last
/// id that names none, 2: a last id named before
pub fn mass_deep() {
    let (n, shape, c, odd) = (param(1), param(2), param(3), param(4));
    let mut w = World::<L, 129, 2>::new(0, 0, 0, true);
    let mut kb = [NOORD; L];
    let mut ka = [NOORD; L];
    fill(&mut w.bids, &mut kb, n, if shape == 0 { 1 } else { 4 }, 0xfffff);
    fill(&mut w.asks, &mut ka, n, if shape == 0 { 0 } else { 3 }, 0xfffff);
    let mut ids = Vec::with_capacity(2 * c + 1);
    let (mut b, mut qt) = (0u64, 0u64);
    let mut i = 0;
    while i < c {
        // spread over the side, not in order
        let x = (i * 37 + 11) % n;
        let y = (i * 53 + 5) % n;
        ids.push(kb[x].key());
        ids.push(ka[y].key());
        b += kb[x].qty + ka[y].qty;
        qt += ((kb[x].qty as u128 * kb[x].price as u128) >> 32) as u64 + ((ka[y].qty as u128 * ka[y].price as u128) >> 32) as u64;
        i += 1;
    }
    match odd {
        1 => ids.push((5u128 << 64) + 77),
        2 => ids.push(ids[0]),
        _ => {}
    }
    let a = w.infos();
    let r = mass_cancel_orders::process::<Cb>(
        pk(&w.prog),
        mass_cancel_orders::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3] },
        mass_cancel_orders::Params { order_ids: ids },
    );
    cover(1);
    if odd > 0 {
        check!(r.is_err());
        return;
    }
    match r {
        Err(_) => {
            check!(false);
            return;
        }
        Ok(s) => {
            check!((s.total_base_qty == b) & (s.total_base_qty_posted == 0) & s.posted_order_id.is_none());
            check!(s.total_quote_qty == qt);
        }
    }
    check!(w.q.count == 0);
    let (mut gb, mut ga) = ([false; L], [false; L]);
    let mut i = 0;
    while i < c {
        gb[(i * 37 + 11) % n] = true;
        ga[(i * 53 + 5) % n] = true;
        i += 1;
    }
    let (nb, na) = (strip(&mut kb, &gb, n), strip(&mut ka, &ga, n));
    holds(&mut w.bids, true, &kb, nb);
    holds(&mut w.asks, false, &ka, na);
}
#[inline(never)]
fn strip(k: &mut Keys, gone: &[bool; L], n: usize) -> usize {
    let (mut i, mut j) = (0, 0);
    while i < n {
        if !gone[i] {
            k[j] = k[i];
            j += 1;
        }
        i += 1;
    }
    j
}

/// Consuming from a long queue. params: 1 = head, 2 = count, 3 = how many are asked for (0: all or more, any number)
pub fn consume_deep() {
    const N: usize = 270;
    let (head, count, ask) = (param(1), param(2), param(3));
    let mut w = World::<1, 0, N>::new(0, 0, 0, true);
    w.q.head = head as u64;
    w.q.count = count as u64;
    let mut i = 0;
    while i < N {
        w.q.ev[i].tag = 1;
        w.q.ev[i].base = any_u64();
        w.q.cbs[i][0] = any_cb();
        i += 1;
    }
    let (ev, cbs) = (w.q.ev, w.q.cbs);
    let seq = w.q.seq;
    let n = if ask == 0 { any_u64() } else { ask as u64 };
    assume((ask > 0) | (n >= count as u64));
    let a = w.infos();
    let r = consume_events::process::<Cb>(
        pk(&w.prog),
        consume_events::Accounts { market: &a[0], event_queue: &a[1] },
        consume_events::Params { number_of_entries_to_consume: n },
    );
    cover(1);
    check!(r.is_ok());
    let done = if ask == 0 || ask > count { count } else { ask };
    check!(w.q.count as usize == count - done);
    check!(w.q.seq == seq);
    live_same(&w.q, &ev, &cbs, (head + done) % N, count - done);
}
