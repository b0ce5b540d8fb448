//! Instruction processors on account data.
use crate::book::*;
use crate::h_match::{imp, wmul};
use crate::h_slab::live_same;
use crate::v::*;
use asset_agnostic_orderbook::instruction::{cancel_order, close_market, consume_events, create_market, mass_cancel_orders, new_order};
use asset_agnostic_orderbook::state::critbit::Slab;
use asset_agnostic_orderbook::state::event_queue::EventQueue;
use asset_agnostic_orderbook::state::market_state::MarketState;
use asset_agnostic_orderbook::state::orderbook::OrderBookState;
use asset_agnostic_orderbook::state::{AccountTag, SelfTradeBehavior, Side};
use solana_program::account_info::AccountInfo;
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;
use std::rc::Rc;

pub const MARKET: usize = 0;
pub const QUEUE: usize = 1;
pub const BIDS: usize = 2;
pub const ASKS: usize = 3;
pub const TARGET: usize = 4;

pub type Key = [u64; 4];
pub fn any_key() -> Key {
    [any_u64(), any_u64(), any_u64(), any_u64()]
}
pub fn pk(k: &Key) -> &'static Pubkey {
    unsafe { &*(k as *const Key as *const Pubkey) }
}
pub fn info(key: &Key, owner: &Key, lamports: &mut u64, data: &mut [u8]) -> AccountInfo<'static> {
    let (l, d): (&'static mut u64, &'static mut [u8]) = unsafe { (&mut *(lamports as *mut u64), std::slice::from_raw_parts_mut(data.as_mut_ptr(), data.len())) };
    AccountInfo {
        key: pk(key),
        lamports: Rc::new(RefCell::new(l)),
        data: Rc::new(RefCell::new(d)),
        owner: pk(owner),
        rent_epoch: 0,
        is_signer: false,
        is_writable: true,
        executable: false,
    }
}

#[derive(Clone, Copy)]
#[repr(C)]
pub struct MarketMem {
    pub tag: u64,
    pub eq: Key,
    pub bids: Key,
    pub asks: Key,
    pub min_base: u64,
    pub tick: u64,
}

pub struct World<const L: usize, const I: usize, const NQ: usize> {
    pub market: MarketMem,
    pub q: QueueMem<NQ, Cb>,
    pub bids: SlabMem<L, I, Cb>,
    pub asks: SlabMem<L, I, Cb>,
    pub key: [Key; 5],
    pub owner: [Key; 5],
    pub prog: Key,
    pub lam: [u64; 5],
    /// resting orders, ascending
    pub ob: Orders,
    pub oa: Orders,
}

impl<const L: usize, const I: usize, const NQ: usize> World<L, I, NQ> {
    /// An arbitrary market in good standing with nb bids and na asks.
    #[inline(never)]
    pub fn new(nb: usize, na: usize, lay: usize, coded: bool) -> Self {
        let prog = any_key();
        let key = [any_key(), any_key(), any_key(), any_key(), any_key()];
        let mut w = World {
            market: MarketMem { tag: TAG_MARKET, eq: key[QUEUE], bids: key[BIDS], asks: key[ASKS], min_base: any_u64(), tick: any_pinned(&[1; NP]) },
            q: QueueMem::<NQ, Cb>::new(0, any_u64()),
            bids: SlabMem::zeroed(TAG_BIDS),
            asks: SlabMem::zeroed(TAG_ASKS),
            key,
            owner: [prog, prog, prog, prog, any_key()],
            prog,
            lam: [any_u64(), any_u64(), any_u64(), any_u64(), any_u64()],
            ob: Orders::empty(),
            oa: Orders::empty(),
        };
        assume(w.market.min_base >= 1);
        assume(w.market.tick >= 1);
        assume(w.q.seq < 1 << 63);
        w.ob = w.bids.generate(nb, lay, &Gen { bid: true, next_seq: w.q.seq, min_qty: w.market.min_base, coded, taker_bid: true, pins: own_pins });
        w.oa = w.asks.generate(na, lay, &Gen { bid: false, next_seq: w.q.seq, min_qty: w.market.min_base, coded, taker_bid: true, pins: opp_pins });
        w
    }
    pub fn infos(&mut self) -> [AccountInfo<'static>; 4] {
        [
            info(&self.key[0], &self.owner[0], &mut self.lam[0], bytes_of(&mut self.market)),
            info(&self.key[1], &self.owner[1], &mut self.lam[1], bytes_of(&mut self.q)),
            info(&self.key[2], &self.owner[2], &mut self.lam[2], bytes_of(&mut self.bids)),
            info(&self.key[3], &self.owner[3], &mut self.lam[3], bytes_of(&mut self.asks)),
        ]
    }
    pub fn market_same(&self, m: &MarketMem) -> bool {
        let a = &self.market;
        (a.eq == m.eq) & (a.bids == m.bids) & (a.asks == m.asks) & (a.min_base == m.min_base) & (a.tick == m.tick)
    }
}

fn key_of(lo: u64, hi: u64) -> u128 {
    ((hi as u128) << 64) | lo as u128
}
fn same(a: &Ord, b: &Ord) -> bool {
    (a.lo == b.lo) & (a.price == b.price) & (a.qty == b.qty) & (a.cb == b.cb)
}
/// `after` is `before` without the orders marked gone
fn minus(before: &Orders, after: &Orders, gone: &[bool; MAXO]) {
    let mut j = 0;
    let mut i = 0;
    while i < before.n {
        if !gone[i] {
            if j >= after.n {
                check!(false);
                return;
            }
            check!(same(&before.o[i], &after.o[j]));
            j += 1;
        }
        i += 1;
    }
    check!(j == after.n);
}

/// larger books of fixed keys
fn wide() -> bool {
    param(3) >= LAYOUT_WIDE && param(3) < LAYOUT_ALL
}

// ------------------------------------------------------------------------------------------------ cancel
/// C15. params: 1 = bids, 2 = asks, 3 = layout
pub fn p_cancel() {
    if wide() {
        cancel_n::<8, 7>();
    } else {
        cancel_n::<4, 3>();
    }
}
fn cancel_n<const L: usize, const I: usize>() {
    let mut w = World::<L, I, 2>::new(param(1), param(2), param(3), true);
    let (lo, hi) = (any_u64(), any_u64());
    let id = key_of(lo, hi);
    let bid = lo >> 63 == 1;
    let seq = w.q.seq;
    let market = w.market;
    // the order meant, if it rests
    let (mut gb, mut ga) = ([false; MAXO], [false; MAXO]);
    let mut hit: Option<Ord> = None;
    if let Some(i) = w.ob.find(id) {
        gb[i] = true;
        hit = Some(w.ob.o[i]);
    } else if let Some(i) = w.oa.find(id) {
        ga[i] = true;
        hit = Some(w.oa.o[i]);
    }
    let a = w.infos();
    let r = cancel_order::process::<Cb>(
        pk(&w.prog),
        cancel_order::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3] },
        cancel_order::Params { order_id: id },
    );
    if prop() == 14 {
        check!(r.is_err() | (w.q.seq >= seq));
        cover(1);
        return;
    }
    match r {
        Ok(s) => {
            cover(1);
            let Some(o) = hit else {
                check!(false);
                return;
            };
            check!(s.posted_order_id.is_none());
            check!(s.total_base_qty_posted == 0);
            check!(s.total_base_qty == o.qty);
            let p = wmul(o.qty, o.price);
            let q = (s.total_quote_qty as u128) << 32;
            check!((q <= p) & (p.wrapping_sub(q) < 1 << 32));
            trace(s.total_base_qty);
            trace(s.total_quote_qty);
            let (Some(b2), Some(a2)) = (w.bids.read(), w.asks.read()) else {
                check!(false);
                return;
            };
            minus(&w.ob, &b2, &gb);
            minus(&w.oa, &a2, &ga);
            w.bids.check_valid();
            w.asks.check_valid();
        }
        Err(_) => {
            cover(2);
            // only an absent order or one worth more than can be expressed
            if let Some(o) = hit {
                check!(wmul(o.qty, o.price) >> 32 > u64::MAX as u128);
            } else {
                let (Some(b2), Some(a2)) = (w.bids.read(), w.asks.read()) else {
                    check!(false);
                    return;
                };
                minus(&w.ob, &b2, &gb);
                minus(&w.oa, &a2, &ga);
            }
        }
    }
    let _ = bid;
    check!((w.q.count == 0) & (w.q.head == 0) & (w.q.seq == seq) & (w.q.tag == TAG_EQ));
    check!(w.market.tag == TAG_MARKET);
    check!(w.market_same(&market));
}

/// C16. params: 1 = bids, 2 = asks, 3 = layout, 4 = number of ids
pub fn p_mass_cancel() {
    if wide() {
        mass_cancel_n::<8, 7>();
    } else {
        mass_cancel_n::<4, 3>();
    }
}
fn mass_cancel_n<const L: usize, const I: usize>() {
    let mut w = World::<L, I, 2>::new(param(1), param(2), param(3), true);
    let k = param(4);
    let mut ids = [0u128; 4];
    let mut i = 0;
    while i < k {
        ids[i] = key_of(any_u64(), any_u64());
        i += 1;
    }
    let (mut gb, mut ga) = ([false; MAXO], [false; MAXO]);
    let mut all = true;
    let mut base = 0u128;
    let mut hits = [NOORD; 4];
    let mut i = 0;
    while i < k && all {
        if let Some(j) = w.ob.find(ids[i]) {
            all = !gb[j];
            gb[j] = true;
            hits[i] = w.ob.o[j];
        } else if let Some(j) = w.oa.find(ids[i]) {
            all = !ga[j];
            ga[j] = true;
            hits[i] = w.oa.o[j];
        } else {
            all = false;
        }
        base += hits[i].qty as u128;
        i += 1;
    }
    let market = w.market;
    let seq = w.q.seq;
    let a = w.infos();
    // amounts beyond 64 bits may abort
    panic_ok(true);
    let r = mass_cancel_orders::process::<Cb>(
        pk(&w.prog),
        mass_cancel_orders::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3] },
        mass_cancel_orders::Params { order_ids: ids[..k].to_vec() },
    );
    panic_ok(false);
    if prop() == 14 {
        check!(r.is_err() | (w.q.seq >= seq));
        cover(1);
        return;
    }
    match r {
        Ok(s) => {
            cover(1);
            check!(all);
            if !all {
                return;
            }
            check!(s.posted_order_id.is_none());
            check!(s.total_base_qty_posted == 0);
            check!(s.total_base_qty as u128 == base);
            // the quote total is the sum of the rounded-down values
            let mut q = 0u128;
            let mut i = 0;
            while i < k {
                q += wmul(hits[i].qty, hits[i].price) >> 32;
                i += 1;
            }
            check!(s.total_quote_qty as u128 == q);
            trace(s.total_base_qty);
            trace(s.total_quote_qty);
            let (Some(b2), Some(a2)) = (w.bids.read(), w.asks.read()) else {
                check!(false);
                return;
            };
            minus(&w.ob, &b2, &gb);
            minus(&w.oa, &a2, &ga);
            w.bids.check_valid();
            w.asks.check_valid();
        }
        Err(_) => {
            cover(2);
            check!(!all);
        }
    }
    check!((w.q.count == 0) & (w.q.tag == TAG_EQ));
    check!(w.market.tag == TAG_MARKET);
    check!(w.market_same(&market));
}

/// C16, amounts that fit never abort. params as mass_cancel
pub fn p_mass_cancel_total() {
    if wide() {
        mass_cancel_total_n::<8, 7>();
    } else {
        mass_cancel_total_n::<4, 3>();
    }
}
fn mass_cancel_total_n<const L: usize, const I: usize>() {
    let mut w = World::<L, I, 2>::new(param(1), param(2), param(3), true);
    let (nb, na) = (w.ob.n, w.oa.n);
    // cancel everything, asks first
    let mut ids = [0u128; 16];
    let (mut b, mut q) = (0u128, 0u128);
    let mut i = 0;
    while i < na + nb {
        let o = if i < na { &w.oa.o[i] } else { &w.ob.o[i - na] };
        ids[i] = o.key();
        b += o.qty as u128;
        q += wmul(o.qty, o.price) >> 32;
        i += 1;
    }
    assume(b <= u64::MAX as u128);
    assume(q <= u64::MAX as u128);
    let a = w.infos();
    let r = mass_cancel_orders::process::<Cb>(
        pk(&w.prog),
        mass_cancel_orders::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3] },
        mass_cancel_orders::Params { order_ids: ids[..na + nb].to_vec() },
    );
    match r {
        Ok(s) => {
            cover(1);
            check!(s.total_base_qty as u128 == b);
            check!(s.total_quote_qty as u128 == q);
        }
        Err(_) => check!(false),
    }
    check!((w.bids.leaf_count == 0) & (w.asks.leaf_count == 0));
    w.bids.check_valid();
    w.asks.check_valid();
}

// ------------------------------------------------------------------------------------------------ consume
#[inline(never)]
fn consume_n<const N: usize>() {
    let mut w = World::<1, 0, N>::new(0, 0, 0, true);
    w.q = crate::h_slab::any_queue::<N>();
    let (head, count, seq) = (w.q.head as usize, w.q.count as usize, w.q.seq);
    let (ev, cbs) = (w.q.ev, w.q.cbs);
    let market = w.market;
    let n = any_u64();
    let a = w.infos();
    let r = consume_events::process::<Cb>(
        pk(&w.prog),
        consume_events::Accounts { market: &a[0], event_queue: &a[1] },
        consume_events::Params { number_of_entries_to_consume: n },
    );
    if prop() == 14 {
        check!(w.q.seq >= seq);
        cover(1);
        return;
    }
    check!(r.is_ok());
    let mut i = 0;
    while i <= count {
        if decide(if i == count { n >= count as u64 } else { n == i as u64 }) {
            check!(w.q.count as usize == count - i);
            live_same(&w.q, &ev, &cbs, (head + i) % N, count - i);
            cover(i as u32);
        }
        i += 1;
    }
    trace(w.q.count);
    check!((w.q.seq == seq) & (w.q.tag == TAG_EQ));
    check!(w.market.tag == TAG_MARKET);
    check!(w.market_same(&market));
}
/// C19. params: 1 = queue capacity
pub fn p_consume() {
    match param(1) {
        3 => consume_n::<3>(),
        5 => consume_n::<5>(),
        9 => consume_n::<9>(),
        _ => consume_n::<7>(),
    }
}

// ------------------------------------------------------------------------------------------------ close
/// C21. params: 1 = bids, 2 = asks
pub fn p_close() {
    let mut w = World::<3, 2, 2>::new(param(1), param(2), param(3), true);
    w.q.head = choose(2) as u64;
    w.q.count = choose(3) as u64;
    if param(4) == 1 {
        // only the counts tell: a side or queue may hold any number of entries
        w.q.count = any_u64();
        w.bids.leaf_count = if w.ob.n == 0 { 0 } else { any_u32() };
        w.asks.leaf_count = if w.oa.n == 0 { 0 } else { any_u32() };
        assume((w.ob.n == 0) | (w.bids.leaf_count != 0));
        assume((w.oa.n == 0) | (w.asks.leaf_count != 0));
    }
    let empty = (w.ob.n == 0) & (w.oa.n == 0) & (w.q.count == 0);
    let lam = &w.lam;
    let total = lam[0] as u128 + lam[1] as u128 + lam[2] as u128 + lam[3] as u128 + lam[4] as u128;
    // the supply of lamports is far below 2^64
    assume(total <= u64::MAX as u128);
    let market = w.market;
    let (bl, al) = (w.bids.leaf_count, w.asks.leaf_count);
    let a = w.infos();
    let mut none = [0u8; 8];
    let t = info(&w.key[4], &w.owner[4], &mut w.lam[4], &mut none);
    panic_ok(param(4) == 1);
    let r = close_market::process::<Cb>(
        pk(&w.prog),
        close_market::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3], lamports_target_account: &t },
        close_market::Params {},
    );
    panic_ok(false);
    if r.is_ok() {
        cover(1);
        check!(empty);
        check!((w.market.tag == TAG_DISABLED) & (w.q.tag == TAG_DISABLED) & (w.bids.tag == TAG_DISABLED) & (w.asks.tag == TAG_DISABLED));
        check!((w.lam[0] == 0) & (w.lam[1] == 0) & (w.lam[2] == 0) & (w.lam[3] == 0));
        check!(w.lam[4] as u128 == total);
    } else {
        cover(2);
        // rolled back by the runtime
        check!(!empty);
        return;
    }
    trace(w.lam[4]);
    check!(w.market_same(&market));
    check!((w.bids.leaf_count == bl) & (w.asks.leaf_count == al));
}

// ------------------------------------------------------------------------------------------------ authorisation
fn order_params(limit: u64, max_base: u64, post_allowed: bool) -> new_order::Params<Cb> {
    new_order::Params {
        max_base_qty: max_base,
        max_quote_qty: any_u64(),
        limit_price: limit,
        side: if choose(2) == 0 { Side::Bid } else { Side::Ask },
        match_limit: any_u64(),
        callback_info: any_cb(),
        post_only: any_bool(),
        post_allowed,
        self_trade_behavior: SelfTradeBehavior::DecrementTake,
    }
}

/// C22. params: 1 = operation (0 new, 1 cancel, 2 mass cancel, 3 consume, 4 close, 5 create)
pub fn p_auth() {
    let op = param(1);
    let n = if op == 1 || op == 2 { 1 } else { 0 };
    let mut w = World::<2, 1, 5>::new(n, n, LAYOUT_FRESH, true);
    // nothing about the accounts is given
    w.owner = [any_key(), any_key(), any_key(), any_key(), any_key()];
    w.market.eq = any_key();
    w.market.bids = any_key();
    w.market.asks = any_key();
    w.market.tag = any_u64();
    w.q.tag = any_u64();
    w.bids.tag = any_u64();
    w.asks.tag = any_u64();
    let total = w.lam[0] as u128 + w.lam[1] as u128 + w.lam[2] as u128 + w.lam[3] as u128 + w.lam[4] as u128;
    assume(total <= u64::MAX as u128);
    let own = |i: usize| w.owner[i] == w.prog;
    let owners = own(MARKET) & own(QUEUE) & own(BIDS) & own(ASKS);
    let keys = (w.key[QUEUE] == w.market.eq) & (w.key[BIDS] == w.market.bids) & (w.key[ASKS] == w.market.asks);
    let mtag = w.market.tag == TAG_MARKET;
    // a book account is recognised by the low byte of its tag
    let low = |x: u64| x & 255;
    let btags = (low(w.bids.tag) == TAG_BIDS) & (low(w.asks.tag) == TAG_ASKS);
    let qtag = w.q.tag == TAG_EQ;
    let need = match op {
        0 => owners & keys & mtag & btags & qtag,
        1 | 2 => owners & keys & mtag & btags,
        3 => own(MARKET) & own(QUEUE) & (w.key[QUEUE] == w.market.eq) & mtag & qtag,
        4 => own(MARKET) & keys & mtag & btags & qtag,
        _ => own(QUEUE) & own(BIDS) & own(ASKS) & (w.market.tag == 0) & (w.q.tag == 0) & (low(w.bids.tag) == 0) & (low(w.asks.tag) == 0),
    };
    // every account is in order (a stricter program than this one may ask for all of it)
    let full = match op {
        3 => need & (op == 3),
        5 => need & own(MARKET) & (w.bids.tag == 0) & (w.asks.tag == 0),
        _ => need & owners & qtag & (w.bids.tag == TAG_BIDS) & (w.asks.tag == TAG_ASKS),
    };
    let good = decide(need);
    let fits = |o: &Ord| wmul(o.qty, o.price) >> 32 <= u64::MAX as u128;
    if n > 0 {
        assume(fits(&w.ob.o[0]));
        assume(fits(&w.oa.o[0]));
    }
    let pick = if op == 1 || op == 2 { choose(2) } else { 0 };
    let id = if pick == 0 { w.ob.o[0].key() } else { w.oa.o[0].key() };
    let mut limit = any_u64();
    let pa = any_bool();
    if op == 0 {
        // a proper price; which prices are proper is another property's business
        w.market.tick = 1 << 32;
        limit = 5 << 32;
    }
    if op == 5 {
        // creation asks for rent exemption
        let mut i = 0;
        while i < 4 {
            assume(w.lam[i] >= 1 << 40);
            i += 1;
        }
    }
    let p = order_params(limit, 0, pa);
    let mut a = w.infos();
    // neither a signature nor a missing right to write makes up for anything
    let mut free = true;
    for x in &mut a {
        x.is_signer = any_bool();
        x.is_writable = any_bool();
        x.executable = any_bool();
        free &= x.is_writable & !x.executable;
    }
    let full = full & free;
    let mut none = [0u8; 8];
    let t = info(&w.key[4], &w.owner[4], &mut w.lam[4], &mut none);
    let prog = pk(&w.prog);
    panic_ok(!decide(full));
    let ok = match op {
        0 => new_order::process::<Cb>(prog, new_order::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3] }, p).is_ok(),
        1 => cancel_order::process::<Cb>(
            prog,
            cancel_order::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3] },
            cancel_order::Params { order_id: id },
        )
        .is_ok(),
        2 => mass_cancel_orders::process::<Cb>(
            prog,
            mass_cancel_orders::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3] },
            mass_cancel_orders::Params { order_ids: vec![id] },
        )
        .is_ok(),
        3 => consume_events::process::<Cb>(
            prog,
            consume_events::Accounts { market: &a[0], event_queue: &a[1] },
            consume_events::Params { number_of_entries_to_consume: limit },
        )
        .is_ok(),
        4 => close_market::process::<Cb>(
            prog,
            close_market::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3], lamports_target_account: &t },
            close_market::Params {},
        )
        .is_ok(),
        _ => create_market::process::<Cb>(
            prog,
            create_market::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3] },
            create_market::Params { min_base_order_size: 1, tick_size: 1 },
        )
        .is_ok(),
    };
    panic_ok(false);
    trace(ok as u64);
    check!(imp(ok, good));
    check!(imp(full, ok));
    cover(ok as u32);
}

// ------------------------------------------------------------------------------------------------ ticks
/// C23. params: 1 = own orders, 2 = opposite orders
pub fn p_tick() {
    let bid = choose(2) == 0;
    let (nb, na) = if bid { (param(1), param(2)) } else { (param(2), param(1)) };
    let mut w = World::<3, 2, 5>::new(nb, na, LAYOUT_FRESH, true);
    let limit = any_u64();
    let (max_base, pa) = (any_u64(), any_bool());
    let tick = w.market.tick;
    let multiple = decide(limit % tick == 0);
    // every resting price is on a tick
    let mut i = 0;
    while i < nb {
        assume(w.ob.o[i].price % tick == 0);
        i += 1;
    }
    let mut i = 0;
    while i < na {
        assume(w.oa.o[i].price % tick == 0);
        i += 1;
    }
    let mut p = order_params(limit, max_base, pa);
    p.side = if bid { Side::Bid } else { Side::Ask };
    let a = w.infos();
    panic_ok(true);
    let r = new_order::process::<Cb>(pk(&w.prog), new_order::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3] }, p);
    panic_ok(false);
    if !multiple || (pa && decide(limit < tick)) {
        check!(r.is_err());
        cover(1);
        return;
    }
    if let Err(e) = &r {
        check!(*e != asset_agnostic_orderbook::error::AoError::InvalidLimitPrice.into());
        return;
    }
    cover(2);
    let (Some(b2), Some(a2)) = (w.bids.read(), w.asks.read()) else {
        check!(false);
        return;
    };
    let mut i = 0;
    while i < b2.n {
        check!((b2.o[i].price % tick == 0) & (b2.o[i].price > 0));
        i += 1;
    }
    let mut i = 0;
    while i < a2.n {
        check!((a2.o[i].price % tick == 0) & (a2.o[i].price > 0));
        i += 1;
    }
    check!(w.market.tick == tick);
}

// ------------------------------------------------------------------------------------------------ create
#[inline(never)]
fn create_n<const L: usize, const I: usize, const NQ: usize>() {
    let mut w = World::<L, I, NQ>::new(0, 0, LAYOUT_FRESH, true);
    // fresh accounts
    let sizes_only = prop() == 26;
    let k = if sizes_only { 6 + choose(3) } else { choose(9) };
    w.market = MarketMem { tag: 0, eq: [0; 4], bids: [0; 4], asks: [0; 4], min_base: 0, tick: 0 };
    w.q.seq = 0;
    w.q.tag = 0;
    w.bids.tag = 0;
    w.asks.tag = 0;
    // one of the accounts may already be in use
    let used = any_u64();
    assume(used >= 1);
    match k {
        1 => w.market.tag = used,
        2 => w.q.tag = used,
        3 => {
            w.bids.tag = used;
            assume(used & 255 != 0);
        }
        4 => {
            w.asks.tag = used;
            assume(used & 255 != 0);
        }
        _ => {}
    }
    let (min_base, tick) = (any_u64(), any_u64());
    let mut a = w.infos();
    // one of the accounts may have any other size (only its header is ever looked at)
    let len = any_u64() as usize;
    let mut resize = |i: usize, p: *mut u8| {
        assume((len < 1 << 40) & (w.lam[0] >> 56 != 0) & (w.lam[1] >> 56 != 0) & (w.lam[2] >> 56 != 0) & (w.lam[3] >> 56 != 0));
        assume((min_base > 0) & (tick > 0));
        let d: &'static mut [u8] = unsafe { std::slice::from_raw_parts_mut(p, len) };
        a[i].data = Rc::new(RefCell::new(d));
    };
    let mut size_ok = true;
    let mut size_bad = false;
    match k {
        5 => {
            resize(0, &mut w.market as *mut _ as *mut u8);
            size_ok = len == 120;
            size_bad = !size_ok;
        }
        6 => {
            // at least five whole events
            resize(1, &mut w.q as *mut _ as *mut u8);
            size_ok = (len >= 32 + 5 * 72) && (len - 32) % 72 == 0;
            size_bad = !size_ok;
        }
        7 | 8 => {
            // whole orders, at least one; room left over at the end must be whole callback infos to be readable
            if k == 7 {
                resize(2, &mut w.bids as *mut _ as *mut u8);
            } else {
                resize(3, &mut w.asks as *mut _ as *mut u8);
            }
            size_ok = (len >= 80) && (len - 80) % 72 == 0;
            size_bad = (len < 80) || (len - 80) % 72 % 16 != 0;
        }
        _ => {}
    }
    let rent = |n: usize| (128 + n as u64) * 6960;
    let mut exempt = true;
    let mut i = 0;
    while i < 4 {
        exempt &= w.lam[i] >= rent(a[i].data.borrow().len());
        i += 1;
    }
    let fine = exempt & !(k >= 1 && k <= 4) & (min_base > 0) & (tick > 0);
    let good = decide(fine & size_ok);
    let bad = decide(!fine | size_bad);
    panic_ok(!good | sizes_only);
    let r = create_market::process::<Cb>(
        pk(&w.prog),
        create_market::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3] },
        create_market::Params { min_base_order_size: min_base, tick_size: tick },
    );
    panic_ok(false);
    if !sizes_only {
        check!(imp(good, r.is_ok()));
        check!(imp(r.is_ok(), !bad));
    }
    cover(r.is_ok() as u32);
    if r.is_err() {
        return;
    }
    if !sizes_only {
        check!(w.market.tag == TAG_MARKET);
        check!(w.q.tag == TAG_EQ);
        check!(w.bids.tag == TAG_BIDS);
        check!(w.asks.tag == TAG_ASKS);
        check!((w.market.eq == w.key[QUEUE]) & (w.market.bids == w.key[BIDS]) & (w.market.asks == w.key[ASKS]));
        check!((w.market.min_base == min_base) & (w.market.tick == tick));
        // everything is empty and usable
        check!((w.q.head == 0) & (w.q.count == 0) & (w.q.seq == 0));
        check!((w.bids.leaf_count == 0) & (w.asks.leaf_count == 0));
        w.bids.check_valid();
        w.asks.check_valid();
    }
    let mut i = 2;
    while i < 4 {
        let n = a[i].data.borrow().len();
        let mut d = a[i].data.borrow_mut();
        match Slab::<Cb>::from_buffer(&mut d, if i == 2 { AccountTag::Bids } else { AccountTag::Asks }) {
            Ok(s) => {
                let cap = (n - 80) / 72 + 1;
                check!((s.leaf_nodes.len() == cap) & (s.inner_nodes.len() == cap - 1) & (s.callback_infos.len() >= cap));
            }
            Err(_) => check!(false),
        }
        i += 1;
    }
    let n = a[1].data.borrow().len();
    let cap = ((n - 32) / 72) as u64;
    // with two events at the end of the ring, popping moves on to the last slot, then around to the first one
    w.q.head = cap - 2;
    w.q.count = 3;
    match EventQueue::<Cb>::from_buffer(&mut a[1].data.borrow_mut(), AccountTag::EventQueue) {
        Ok(mut q) => {
            q.pop_n(1);
            check!(w.q.head == cap - 1);
            q.pop_n(1);
            check!((w.q.head == 0) & (w.q.count == 1));
        }
        Err(_) => check!(false),
    }
    let m = MarketState::from_buffer(bytes_of(&mut w.market), AccountTag::Market);
    check!(sizes_only | m.is_ok());
}
/// C20. params: 1 = event queue capacity
pub fn p_create() {
    match param(1) {
        5 => create_n::<2, 1, 5>(),
        _ => create_n::<4, 3, 8>(),
    }
}

// ------------------------------------------------------------------------------------------------ causes
/// C31. params: 1 = operation (as p_auth); everything is in order but one thing
pub fn p_cause() {
    let op = param(1);
    let mut w = World::<2, 1, 2>::new(1, 1, LAYOUT_FRESH, true);
    let full = |w: &mut World<2, 1, 2>, n: u64| {
        w.q.count = n;
        w.q.ev = [any_ev(), any_ev()];
    };
    let fits = |o: &Ord| wmul(o.qty, o.price) >> 32 <= u64::MAX as u128;
    let (b, a0) = (w.ob.o[0], w.oa.o[0]);
    assume(b.price < a0.price);
    assume(fits(&b) & fits(&a0));
    w.market.tick = 1;
    let mut id = if choose(2) == 0 { b.key() } else { a0.key() };
    let mut limit = any_u64();
    assume(limit >= 1);
    let mut p = order_params(limit, 0, false);
    let mut n = 1;
    if op == 4 {
        w.bids.leaf_count = 0;
        w.asks.leaf_count = 0;
    }
    let other = any_key();
    // (an account, what is wrong with it) or something wrong with the request
    let fault = choose(13);
    let acc = fault % 4;
    let want: u32 = match fault {
        0..=3 => {
            assume(other != w.prog);
            w.owner[acc] = other;
            [16, 13, 14, 15][acc]
        }
        4..=7 => {
            assume(other != w.key[acc]);
            match acc {
                QUEUE => w.market.eq = other,
                BIDS => w.market.bids = other,
                ASKS => w.market.asks = other,
                _ => return,
            }
            [0, 3, 1, 2][acc]
        }
        8..=11 => {
            let t = any_u64();
            match acc {
                MARKET => {
                    assume(t != TAG_MARKET);
                    w.market.tag = t;
                }
                QUEUE => {
                    assume(t != TAG_EQ);
                    w.q.tag = t;
                }
                BIDS => {
                    assume(t & 255 != TAG_BIDS);
                    w.bids.tag = t;
                }
                _ => {
                    assume(t & 255 != TAG_ASKS);
                    w.asks.tag = t;
                }
            }
            24
        }
        _ => match (op, choose(4)) {
            (0, 0) => {
                // off the tick
                w.market.tick = any_pinned(&[1 << 32; NP]);
                assume(w.market.tick >= 1);
                limit = any_pinned(&[3 << 31; NP]);
                p.limit_price = limit;
                assume(limit % w.market.tick != 0);
                21
            }
            (0, k) if k < 3 => {
                // the opposite order, taken whole: no room for what happened, or not wanted
                p.side = Side::Bid;
                p.match_limit = 1;
                p.limit_price = a0.price;
                p.max_base_qty = a0.qty;
                p.max_quote_qty = u64::MAX;
                p.post_only = false;
                assume(a0.price >= 1 << 32);
                assume(wmul(a0.qty, a0.price) >> 63 == 0);
                p.callback_info.id = a0.cb.id;
                if k == 1 {
                    full(&mut w, 2);
                    5
                } else {
                    p.self_trade_behavior = SelfTradeBehavior::AbortTransaction;
                    7
                }
            }
            (1, 0) | (2, 0) => {
                id = key_of(any_u64(), any_u64());
                assume((id != b.key()) & (id != a0.key()));
                n = 1 + choose(2);
                6
            }
            (2, 1) => {
                // the same one again
                n = 3;
                6
            }
            (4, 0) => {
                full(&mut w, 1 + choose(2) as u64);
                11
            }
            (4, 1) => {
                w.bids.leaf_count = 1;
                11
            }
            (4, 2) => {
                w.asks.leaf_count = 1;
                11
            }
            _ => return,
        },
    };
    // what the operation does not look at
    let concerned = fault >= 12
        || match op {
            1 | 2 => fault != 9,
            3 => acc == MARKET || acc == QUEUE,
            4 => fault == 0 || fault > 3,
            _ => true,
        };
    if !concerned {
        return;
    }
    let ids = match n {
        1 => vec![id],
        2 => vec![b.key(), id],
        _ => vec![id, id],
    };
    let a = w.infos();
    let mut none = [0u8; 8];
    let t = info(&w.key[4], &w.owner[4], &mut w.lam[4], &mut none);
    let prog = pk(&w.prog);
    panic_ok(true);
    let r = match op {
        0 => new_order::process::<Cb>(prog, new_order::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3] }, p).map(|_| ()),
        1 => cancel_order::process::<Cb>(
            prog,
            cancel_order::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3] },
            cancel_order::Params { order_id: id },
        )
        .map(|_| ()),
        2 => mass_cancel_orders::process::<Cb>(
            prog,
            mass_cancel_orders::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3] },
            mass_cancel_orders::Params { order_ids: ids },
        )
        .map(|_| ()),
        3 => consume_events::process::<Cb>(
            prog,
            consume_events::Accounts { market: &a[0], event_queue: &a[1] },
            consume_events::Params { number_of_entries_to_consume: limit },
        ),
        _ => close_market::process::<Cb>(
            prog,
            close_market::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3], lamports_target_account: &t },
            close_market::Params {},
        ),
    };
    panic_ok(false);
    match r {
        Ok(()) => check!(false),
        Err(ProgramError::Custom(c)) => {
            check!(c == want);
            trace(c as u64);
            cover(1 + (fault >= 12) as u32);
        }
        Err(_) => check!(false),
    }
}

// ------------------------------------------------------------------------------------------------ best prices
/// C29. params: 1 = bids, 2 = asks, 3 = layout
pub fn p_bbo() {
    if wide() {
        bbo_n::<8, 7>();
    } else {
        bbo_n::<4, 3>();
    }
}
fn bbo_n<const L: usize, const I: usize>() {
    let mut w = World::<L, I, 2>::new(param(1), param(2), param(3), true);
    let (nb, na) = (w.ob.n, w.oa.n);
    let best_bid = if nb > 0 { Some(w.ob.o[nb - 1]) } else { None };
    let best_ask = if na > 0 { Some(w.oa.o[0]) } else { None };
    let a = w.infos();
    let (b, k) = asset_agnostic_orderbook::utils::get_spread::<Cb>(&a[2], &a[3]);
    check!(b.is_some() == (nb > 0));
    check!(k.is_some() == (na > 0));
    if let (Some(p), Some(o)) = (b, &best_bid) {
        check!(p == o.price);
        trace(p);
    }
    if let (Some(p), Some(o)) = (k, &best_ask) {
        check!(p == o.price);
        trace(p);
    }
    let mut s = OrderBookState::<Cb> {
        bids: Slab::from_buffer(bytes_of(&mut w.bids), AccountTag::Bids).unwrap(),
        asks: Slab::from_buffer(bytes_of(&mut w.asks), AccountTag::Asks).unwrap(),
    };
    check!(s.is_empty() == (nb == 0 && na == 0));
    let (b2, k2) = s.get_spread();
    check!(b2 == b);
    check!(k2 == k);
    match (s.find_bbo(Side::Bid), &best_bid) {
        (None, None) => {}
        (Some(h), Some(o)) => {
            check!(s.bids.leaf_nodes[h as usize].order_id() == o.key());
            check!(s.get_tree(Side::Bid).leaf_nodes[h as usize].base_quantity == o.qty);
        }
        _ => check!(false),
    }
    match (s.find_bbo(Side::Ask), &best_ask) {
        (None, None) => {}
        (Some(h), Some(o)) => {
            check!(s.asks.leaf_nodes[h as usize].order_id() == o.key());
            check!(s.get_tree(Side::Ask).leaf_nodes[h as usize].base_quantity == o.qty);
        }
        _ => check!(false),
    }
    drop(s);
    // no order on the book beats the reported best
    let mut i = 0;
    while i < nb {
        check!(imp(b.is_some(), w.ob.o[i].price <= b.unwrap_or(0)));
        i += 1;
    }
    let mut i = 0;
    while i < na {
        check!(imp(k.is_some(), w.oa.o[i].price >= k.unwrap_or(0)));
        i += 1;
    }
    let (Some(b3), Some(a3)) = (w.bids.read(), w.asks.read()) else {
        check!(false);
        return;
    };
    minus(&w.ob, &b3, &[false; MAXO]);
    minus(&w.oa, &a3, &[false; MAXO]);
    cover(1);
}
