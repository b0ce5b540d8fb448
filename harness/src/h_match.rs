//! One new order against an arbitrary book: the matching, posting and event properties.
use crate::book::*;
use crate::h_slab::same_ev;
use crate::v::*;
use asset_agnostic_orderbook::error::AoError;
use crate::h_proc::{any_key, info, pk, MarketMem, ASKS, BIDS, MARKET, QUEUE};
use asset_agnostic_orderbook::instruction::new_order;
use asset_agnostic_orderbook::instruction::new_order::Params;
use asset_agnostic_orderbook::state::critbit::Slab;
use asset_agnostic_orderbook::state::event_queue::EventQueue;
use asset_agnostic_orderbook::state::orderbook::OrderBookState;
use asset_agnostic_orderbook::state::{AccountTag, SelfTradeBehavior, Side};
use solana_program::program_error::ProgramError;

pub const MAXE: usize = 16;

pub fn imp(a: bool, b: bool) -> bool {
    !a | b
}
pub fn wmul(a: u64, b: u64) -> u128 {
    (a as u128).wrapping_mul(b as u128)
}
/// the quote amount of base at price, rounded up for a bid taker and down for an ask taker
pub fn is_rounded(bid: bool, quote: u64, base: u64, price: u64) -> bool {
    let p = wmul(base, price);
    let q = (quote as u128) << 32;
    if bid {
        (q >= p) & (q.wrapping_sub(p) < 1 << 32)
    } else {
        (p >= q) & (p.wrapping_sub(q) < 1 << 32)
    }
}
pub fn fdiv(q: u64, p: u64) -> u128 {
    ((q as u128) << 32).checked_div(p as u128).unwrap_or(u128::MAX)
}

pub const ABORT: u8 = 2;
pub const CANCEL: u8 = 1;
pub const DECR: u8 = 0;
pub fn stb(x: u8) -> SelfTradeBehavior {
    if x == DECR {
        SelfTradeBehavior::DecrementTake
    } else if x == CANCEL {
        SelfTradeBehavior::CancelProvide
    } else {
        SelfTradeBehavior::AbortTransaction
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Res {
    Ok,
    SelfTrade,
    QueueFull,
    Overflow,
    Other,
}

pub struct Ctx {
    pub bid: bool,
    pub max_base: u64,
    pub max_quote: u64,
    pub limit: u64,
    pub match_limit: u64,
    pub min_base: u64,
    pub post_only: bool,
    pub post_allowed: bool,
    pub stb: u8,
    pub cb: Cb,
    /// best first
    pub opp: Orders,
    pub own: Orders,
    pub opp2: Orders,
    pub own2: Orders,
    pub own_cap: usize,
    pub readable: bool,
    pub seq0: u64,
    pub seq1: u64,
    pub q_cap: usize,
    pub q0: usize,
    pub q1: usize,
    pub nev: usize,
    pub ev: [Ev; MAXE],
    pub cbs: [[Cb; 2]; MAXE],
    /// index of the resting order each event refers to: opposite side 0.., own side 100.., 200 unknown
    pub who: [usize; MAXE],
    pub res: Res,
    pub posted_some: bool,
    pub posted_id: u128,
    pub total_base: u64,
    pub total_quote: u64,
    pub total_posted: u64,
    /// position in the book after the call
    pub at2: [Option<usize>; MAXO],
    pub own_at2: [Option<usize>; MAXO],
    /// position of the newly posted order in own2
    pub posted: Option<usize>,
}

fn best_first(o: &Orders, bids: bool) -> Orders {
    if !bids {
        return *o;
    }
    let mut r = Orders::empty();
    r.n = o.n;
    let mut i = 0;
    while i < o.n {
        r.o[i] = o.o[o.n - 1 - i];
        i += 1;
    }
    r
}

impl Ctx {
    pub fn crosses(&self, price: u64) -> bool {
        if self.bid {
            self.limit >= price
        } else {
            self.limit <= price
        }
    }
    /// departed from the book during the call
    pub fn gone(&self, i: usize) -> bool {
        self.at2[i].is_none()
    }
    pub fn fill_base(&self) -> u128 {
        let mut s = 0u128;
        let mut k = 0;
        while k < self.nev {
            if self.ev[k].is_fill() {
                s += self.ev[k].base as u128;
            }
            k += 1;
        }
        s
    }
    pub fn fill_quote(&self) -> u128 {
        let mut s = 0u128;
        let mut k = 0;
        while k < self.nev {
            if self.ev[k].is_fill() {
                s += self.ev[k].quote as u128;
            }
            k += 1;
        }
        s
    }
    /// number of matching steps: fills plus resting orders cancelled without a fill in the same step
    pub fn steps(&self) -> u64 {
        let mut n = 0;
        let mut k = 0;
        while k < self.nev {
            if self.ev[k].is_fill() {
                n += 1;
            } else if self.who[k] < 100 && (k == 0 || !self.ev[k - 1].is_fill() || self.who[k - 1] != self.who[k]) {
                n += 1;
            }
            k += 1;
        }
        n
    }
    /// best opposite order left in the book
    pub fn left(&self) -> Option<&Ord> {
        if self.opp2.n == 0 {
            None
        } else {
            Some(&self.opp2.o[0])
        }
    }
}

/// L: leaf slots on each side; NQ: event queue slots
#[inline(never)]
fn build<const LO: usize, const IO: usize, const LS: usize, const IS: usize, const NQ: usize>(
    n_opp: usize,
    n_own: usize,
    lay_opp: usize,
    lay_own: usize,
    qmode: usize,
    bid: bool,
    tick: Option<u64>,
) -> Ctx {
    let mut opp_mem = SlabMem::<LO, IO, Cb>::zeroed(if bid { TAG_ASKS } else { TAG_BIDS });
    let mut own_mem = SlabMem::<LS, IS, Cb>::zeroed(if bid { TAG_BIDS } else { TAG_ASKS });
    let seq0 = any_u64();
    assume(seq0 < 1 << 63);
    let min_base = any_u64();
    assume(min_base >= 1);
    let opp = opp_mem.generate(n_opp, lay_opp, &Gen { bid: !bid, next_seq: seq0, min_qty: min_base, coded: true, taker_bid: bid, pins: opp_pins });
    let own = own_mem.generate(n_own, lay_own, &Gen { bid, next_seq: seq0, min_qty: min_base, coded: true, taker_bid: bid, pins: own_pins });
    let opp = best_first(&opp, !bid);
    let own = best_first(&own, bid);
    // the book is uncrossed and sequence numbers are used once
    if n_opp > 0 && n_own > 0 {
        if bid {
            assume(own.o[0].price < opp.o[0].price);
        } else {
            assume(own.o[0].price > opp.o[0].price);
        }
    }
    let mut i = 0;
    while i < n_opp {
        let mut j = 0;
        while j < n_own {
            assume(opp.o[i].lo != !own.o[j].lo);
            j += 1;
        }
        i += 1;
    }
    // event queue: empty at slot 0, or partly full and about to wrap around
    let (head, q0) = match qmode {
        0 => (0, 0),
        1 => (NQ - 2, 1),
        2 => (NQ - 2, NQ - 1),
        3 => (1, NQ),
        5 => (choose(NQ), choose(NQ + 1)),
        _ => (NQ - 1, NQ - 3),
    };
    let mut q = QueueMem::<NQ, Cb>::new(head, seq0);
    q.count = q0 as u64;
    let mut i = 0;
    while i < q0 {
        let k = (head + i) % NQ;
        q.ev[k] = any_ev();
        q.cbs[k] = [any_cb(), any_cb()];
        i += 1;
    }
    let q_ev0 = q.ev;
    let q_cb0 = q.cbs;

    let mut c = Ctx {
        bid,
        max_base: any_u64(),
        max_quote: any_u64(),
        limit: any_pinned(&limit_pins(bid, n_own)),
        match_limit: any_u64(),
        min_base,
        post_only: any_bool(),
        post_allowed: any_bool(),
        stb: any_u8(),
        cb: any_cb(),
        opp,
        own,
        opp2: Orders::empty(),
        own2: Orders::empty(),
        own_cap: LS,
        readable: false,
        seq0,
        seq1: 0,
        q_cap: NQ,
        q0,
        q1: 0,
        nev: 0,
        ev: [EV0; MAXE],
        cbs: [[CB0; 2]; MAXE],
        who: [200; MAXE],
        res: Res::Other,
        posted_some: false,
        posted_id: 0,
        total_base: 0,
        total_quote: 0,
        total_posted: 0,
        at2: [None; MAXO],
        own_at2: [None; MAXO],
        posted: None,
    };
    assume(c.stb < 3);
    assume(!c.post_allowed | (c.limit >= 1));

    let (asks, bids) = if bid { (bytes_of(&mut opp_mem), bytes_of(&mut own_mem)) } else { (bytes_of(&mut own_mem), bytes_of(&mut opp_mem)) };
    let params = Params {
        max_base_qty: c.max_base,
        max_quote_qty: c.max_quote,
        limit_price: c.limit,
        side: if bid { Side::Bid } else { Side::Ask },
        match_limit: c.match_limit,
        callback_info: c.cb,
        post_only: c.post_only,
        post_allowed: c.post_allowed,
        self_trade_behavior: stb(c.stb),
    };
    let r = match tick {
        None => {
            let mut book = OrderBookState::<Cb> {
                bids: Slab::from_buffer(bids, AccountTag::Bids).unwrap(),
                asks: Slab::from_buffer(asks, AccountTag::Asks).unwrap(),
            };
            let mut eq = EventQueue::<Cb>::from_buffer(bytes_of(&mut q), AccountTag::EventQueue).unwrap();
            // an unexpected panic is the business of C08
            panic_ok(prop() != 8);
            let r = book.new_order(params, &mut eq, min_base);
            panic_ok(false);
            match r {
                Ok(s) => Ok(s),
                Err(AoError::WouldSelfTrade) => Err(Res::SelfTrade),
                Err(AoError::EventQueueFull) => Err(Res::QueueFull),
                Err(AoError::NumericalOverflow) => Err(Res::Overflow),
                Err(_) => Err(Res::Other),
            }
        }
        Some(tick) => {
            // through the instruction processor, on accounts in order
            assume(c.limit % tick == 0);
            assume(!c.post_allowed | (c.limit >= tick));
            let prog = any_key();
            let key = [any_key(), any_key(), any_key(), any_key()];
            let mut market = MarketMem { tag: TAG_MARKET, eq: key[QUEUE], bids: key[BIDS], asks: key[ASKS], min_base, tick };
            let mut lam = [any_u64(), any_u64(), any_u64(), any_u64()];
            let [l0, l1, l2, l3] = &mut lam;
            let a = [
                info(&key[MARKET], &prog, l0, bytes_of(&mut market)),
                info(&key[QUEUE], &prog, l1, bytes_of(&mut q)),
                info(&key[BIDS], &prog, l2, bids),
                info(&key[ASKS], &prog, l3, asks),
            ];
            panic_ok(prop() != 8);
            let r = new_order::process::<Cb>(pk(&prog), new_order::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3] }, params);
            panic_ok(false);
            match r {
                Ok(s) => Ok(s),
                Err(ProgramError::Custom(7)) => Err(Res::SelfTrade),
                Err(ProgramError::Custom(5)) => Err(Res::QueueFull),
                Err(ProgramError::Custom(22)) => Err(Res::Overflow),
                Err(_) => Err(Res::Other),
            }
        }
    };
    match r {
        Ok(s) => {
            c.res = Res::Ok;
            if let Some(id) = s.posted_order_id {
                c.posted_some = true;
                c.posted_id = id;
            }
            c.total_base = s.total_base_qty;
            c.total_quote = s.total_quote_qty;
            c.total_posted = s.total_base_qty_posted;
        }
        Err(e) => c.res = e,
    }
    c.seq1 = q.seq;
    // events appended by the call
    let qn = q.count as usize;
    if prop() == 18 {
        check!(qn >= q0 && qn <= NQ);
        check!(q.head as usize == head);
        let mut i = 0;
        while i < q0 {
            let k = (head + i) % NQ;
            check!(same_ev(&q.ev[k], &q_ev0[k]));
            check!(q.cbs[k][0] == q_cb0[k][0] && q.cbs[k][1] == q_cb0[k][1]);
            i += 1;
        }
    }
    c.q1 = qn;
    if qn < q0 || qn - q0 > MAXE || q.head as usize != head {
        return c;
    }
    c.nev = qn - q0;
    let mut k = 0;
    while k < c.nev {
        c.ev[k] = *q.at(q0 + k);
        c.cbs[k] = *q.cb_at(q0 + k);
        k += 1;
    }
    let (Some(o2), Some(w2)) = (opp_mem.read(), own_mem.read()) else {
        return c;
    };
    c.readable = true;
    if prop() == 17 && c.res == Res::Ok {
        opp_mem.check_valid();
        own_mem.check_valid();
    }
    c.opp2 = best_first(&o2, !bid);
    c.own2 = best_first(&w2, bid);
    let mut i = 0;
    while i < n_opp {
        c.at2[i] = c.opp2.find(c.opp.o[i].key());
        i += 1;
    }
    let mut used = [false; MAXO];
    let mut i = 0;
    while i < n_own {
        c.own_at2[i] = c.own2.find(c.own.o[i].key());
        if let Some(j) = c.own_at2[i] {
            used[j] = true;
        }
        i += 1;
    }
    let mut j = 0;
    while j < c.own2.n {
        if !used[j] {
            c.posted = Some(j);
        }
        j += 1;
    }
    let mut k = 0;
    while k < c.nev {
        let id = c.ev[k].id();
        c.who[k] = match c.opp.find(id) {
            Some(i) => i,
            None => match c.own.find(id) {
                Some(i) => 100 + i,
                None => 200,
            },
        };
        k += 1;
    }
    c
}


fn covers(c: &Ctx) {
    if c.res == Res::Ok {
        cover(1);
        if c.nev >= 1 && c.ev[0].is_fill() {
            cover(2);
        }
        if c.posted_some {
            cover(3);
        }
        if c.posted_some && c.nev >= 1 {
            cover(4);
        }
        if c.nev >= 1 && c.ev[0].is_out() {
            cover(5);
        }
        if c.nev >= 3 {
            cover(6);
        }
    } else {
        cover(10);
    }
}

/// every property of one new order; the one being decided is selected by parameter 0
#[inline(never)]
pub fn judge(c: &Ctx) {
    covers(c);
    trace(c.res as u64);
    trace(c.nev as u64);
    trace(c.total_base);
    trace(c.total_quote);
    trace(c.total_posted);
    trace(c.posted_id as u64);
    let mut k = 0;
    while k < c.nev {
        trace(c.ev[k].base);
        trace(c.ev[k].quote);
        k += 1;
    }
    let n = c.opp.n;
    let m = c.own.n;
    let p = prop();
    let ok = c.res == Res::Ok;
    if p == 31 {
        match c.res {
            Res::Ok => {}
            Res::SelfTrade => check!(c.stb == ABORT),
            Res::QueueFull => check!(c.q1 == c.q_cap),
            Res::Overflow | Res::Other => check!(false),
        }
        return;
    }
    if p == 8 {
        judge_complete(c);
        return;
    }
    if p == 6 {
        check!(c.readable);
    }
    if p == 18 || !c.readable {
        return;
    }
    // a failed transaction is rolled back
    if !ok && p != 10 {
        return;
    }
    match p {
        1 => {
            if c.opp2.n > 0 && c.own2.n > 0 {
                let (a, b) = (c.opp2.o[0].price, c.own2.o[0].price);
                check!(if c.bid { b < a } else { b > a });
            }
        }
        2 => {
            // makers are taken best first: an event concerns the best order that has not yet left the book
            let mut cur = 0;
            let mut k = 0;
            while k < c.nev {
                let w = c.who[k];
                if w < 100 {
                    check!(w == cur);
                    if c.ev[k].is_out() {
                        cur += 1;
                    }
                }
                if w == 200 {
                    check!(false);
                }
                k += 1;
            }
            if ok {
                let mut i = 0;
                while i < n {
                    check!((i < cur) == c.gone(i));
                    i += 1;
                }
            }
        }
        3 => {
            let mut k = 0;
            while k < c.nev {
                if c.ev[k].is_fill() && c.who[k] < 100 {
                    check!(c.crosses(c.opp.o[c.who[k]].price));
                }
                k += 1;
            }
            check!(c.fill_base() <= c.max_base as u128);
            check!(c.fill_quote() <= c.max_quote as u128);
            if ok {
                check!(c.total_base <= c.max_base);
                check!(c.total_quote <= c.max_quote);
                if let Some(j) = c.posted {
                    check!(c.own2.o[j].price == c.limit);
                    check!(c.fill_base() + c.own2.o[j].qty as u128 <= c.max_base as u128);
                    // the rounded value of the remainder fits in what is left of the quote cap
                    let left = (c.max_quote as u128).wrapping_sub(c.fill_quote()) << 32;
                    let worth = wmul(c.own2.o[j].qty, c.limit);
                    check!(if c.bid { worth <= left } else { worth >> 32 <= left >> 32 });
                }
            }
        }
        4 => {
            let mut rem = [0u64; MAXO];
            let mut i = 0;
            while i < n {
                rem[i] = c.opp.o[i].qty;
                i += 1;
            }
            let mut k = 0;
            while k < c.nev {
                if c.ev[k].is_fill() {
                    let w = c.who[k];
                    check!(w < 100);
                    if w >= 100 {
                        return;
                    }
                    let e = &c.ev[k];
                    check!(e.base > 0);
                    check!(e.quote > 0);
                    check!(e.base <= rem[w]);
                    check!(is_rounded(c.bid, e.quote, e.base, c.opp.o[w].price));
                    rem[w] = rem[w].wrapping_sub(e.base);
                }
                k += 1;
            }
        }
        5 => {
            if ok {
                check!(c.posted_some == c.posted.is_some());
                let mut posted = 0u64;
                if let Some(j) = c.posted {
                    posted = c.own2.o[j].qty;
                    check!(c.posted_id == c.own2.o[j].key());
                }
                check!(c.total_posted == posted);
                check!(c.total_base as u128 == c.fill_base() + posted as u128);
                let q = (c.total_quote as u128).wrapping_sub(c.fill_quote());
                check!(c.fill_quote() <= c.total_quote as u128);
                if c.posted.is_some() {
                    check!(is_rounded(c.bid, q as u64, posted, c.limit));
                } else {
                    check!(q == 0);
                }
            }
        }
        6 => {
            if ok {
                // no order appears from nowhere
                let mut extra = 0;
                let mut i = 0;
                while i < n {
                    if c.at2[i].is_some() {
                        extra += 1;
                    }
                    i += 1;
                }
                check!(c.opp2.n == extra);
                let mut extra = 0;
                let mut i = 0;
                while i < m {
                    if c.own_at2[i].is_some() {
                        extra += 1;
                    }
                    i += 1;
                }
                check!(c.own2.n <= extra + 1);
                let mut i = 0;
                while i < n {
                    let o = &c.opp.o[i];
                    let mut s = 0u128;
                    let (mut filled, mut dropped) = (false, 0);
                    let mut k = 0;
                    while k < c.nev {
                        if c.who[k] == i {
                            s += c.ev[k].base as u128;
                            filled |= c.ev[k].is_fill();
                            if c.ev[k].is_out() {
                                dropped = c.ev[k].base;
                            }
                        }
                        k += 1;
                    }
                    // an order that traded leaves only when what is left of it is below the minimum
                    check!(!filled | (dropped < c.min_base));
                    if let Some(j) = c.at2[i] {
                        let r = &c.opp2.o[j];
                        check!(s + r.qty as u128 == o.qty as u128);
                        check!(r.qty >= c.min_base);
                        check!(r.cb == o.cb);
                    } else {
                        check!(s == o.qty as u128);
                    }
                    i += 1;
                }
                let mut i = 0;
                while i < m {
                    let o = &c.own.o[i];
                    if let Some(j) = c.own_at2[i] {
                        let r = &c.own2.o[j];
                        check!((r.qty == o.qty) & (r.cb == o.cb));
                    }
                    i += 1;
                }
                if let Some(j) = c.posted {
                    check!(c.own2.o[j].qty >= c.min_base);
                    check!(c.own2.o[j].cb == c.cb);
                }
            }
        }
        7 => {
            if ok {
                let mut outs = 0;
                let mut i = 0;
                while i < n + m {
                    let (gone, w, o) = if i < n { (c.gone(i), i, &c.opp.o[i]) } else { (c.own_at2[i - n].is_none(), 100 + i - n, &c.own.o[i - n]) };
                    let mut cnt = 0;
                    let mut filled = 0u64;
                    let mut k = 0;
                    while k < c.nev {
                        if c.who[k] == w {
                            let e = &c.ev[k];
                            if e.is_fill() {
                                check!(cnt == 0);
                                filled = filled.wrapping_add(e.base);
                            } else {
                                cnt += 1;
                                check!(e.side == (c.bid == (i < n)) as u8);
                                check!(e.base == o.qty.wrapping_sub(filled));
                                check!(c.cbs[k][0] == o.cb);
                            }
                        }
                        k += 1;
                    }
                    check!(cnt == gone as usize);
                    outs += cnt;
                    i += 1;
                }
                let mut k = 0;
                while k < c.nev {
                    if c.ev[k].is_out() {
                        outs -= 1;
                    } else {
                        check!(c.ev[k].is_fill());
                    }
                    k += 1;
                }
                check!(outs == 0);
            }
        }
        9 => {
            let mut k = 0;
            while k < c.nev {
                let e = &c.ev[k];
                if e.is_fill() {
                    let w = c.who[k];
                    check!(w < 100);
                    if w >= 100 {
                        return;
                    }
                    check!(e.side == !c.bid as u8);
                    check!(c.cbs[k][0] == c.opp.o[w].cb);
                    check!(c.cbs[k][1] == c.cb);
                }
                k += 1;
            }
        }
        10 => judge_self_trade(c),
        11 => {
            if ok {
                let touched = c.nev > 0 || c.opp2.n != n;
                if c.post_only {
                    check!(!touched || (c.posted.is_some() && c.nev == 1 && c.who[0] >= 100));
                    let cross = n > 0 && c.crosses(c.opp.o[0].price);
                    if cross {
                        check!(c.posted.is_none() & !c.posted_some & (c.total_base == 0) & (c.total_quote == 0) & (c.total_posted == 0));
                    }
                    let mut i = 0;
                    while i < n {
                        if let Some(j) = c.at2[i] {
                            check!(c.opp2.o[j].qty == c.opp.o[i].qty);
                        }
                        i += 1;
                    }
                }
                if !c.post_allowed {
                    check!(c.posted.is_none() & !c.posted_some & (c.total_posted == 0));
                    check!(c.own2.n == m);
                }
            }
        }
        12 => judge_post(c),
        13 => judge_evict(c),
        14 => {
            check!(c.seq1 >= c.seq0);
            if let Some(j) = c.posted {
                let o = &c.own2.o[j];
                check!(o.price == c.limit);
                let s = if c.bid { !o.lo } else { o.lo };
                check!(s >= c.seq0);
                check!(s < c.seq1);
                check!((o.lo >> 63 == 1) == c.bid);
            }
            if ok && c.posted_some {
                check!(c.posted.is_some());
                let mut i = 0;
                while i < n {
                    check!(c.opp.o[i].key() != c.posted_id);
                    i += 1;
                }
                let mut i = 0;
                while i < m {
                    check!(c.own.o[i].key() != c.posted_id);
                    i += 1;
                }
                check!((c.posted_id >> 64) as u64 == c.limit);
                check!((c.posted_id >> 63) & 1 == c.bid as u128);
            }
            // time priority: among equal prices the earlier order is ahead
            let mut j = 0;
            while j + 1 < c.own2.n {
                let (a, b) = (&c.own2.o[j], &c.own2.o[j + 1]);
                let (sa, sb) = if c.bid { (!a.lo, !b.lo) } else { (a.lo, b.lo) };
                check!((if c.bid { a.price > b.price } else { a.price < b.price }) | ((a.price == b.price) & (sa < sb)));
                j += 1;
            }
        }
        _ => {}
    }
}

/// C08: matching goes on as long as it can, stops at the match limit, and fails only for the documented reasons
fn judge_complete(c: &Ctx) {
    match c.res {
        Res::Ok => {
            if !c.readable {
                return;
            }
            let steps = c.steps();
            check!(steps <= c.match_limit);
            if let Some(o) = c.left() {
                let base = (c.max_base as u128).wrapping_sub(c.fill_base()) as u64;
                let quote = (c.max_quote as u128).wrapping_sub(c.fill_quote()) as u64;
                let p = o.price;
                let mut stuck = (base == 0) | (p as u128 > (quote as u128) << 32);
                if !c.bid {
                    // the largest affordable trade is worth less than one unit of quote
                    let d = fdiv(quote, p);
                    let lim = 1u128 << 32;
                    stuck |= (wmul(o.qty, p) < lim) | (wmul(base, p) < lim) | ((d < 1 << 64) & (wmul(d as u64, p) < lim));
                }
                check!((steps == c.match_limit) | c.post_only | !c.crosses(p) | stuck);
            }
        }
        Res::SelfTrade => check!(c.stb == ABORT),
        Res::QueueFull => check!(c.q1 == c.q_cap),
        Res::Overflow | Res::Other => check!(false),
    }
}

fn judge_self_trade(c: &Ctx) {
    let n = c.opp.n;
    if c.res == Res::SelfTrade {
        check!(c.stb == ABORT);
        // an order of one's own was within reach
        check!(!c.post_only);
        let mut any = false;
        let mut i = 0;
        while i < n {
            any |= (c.opp.o[i].cb.id == c.cb.id) & c.crosses(c.opp.o[i].price);
            i += 1;
        }
        check!(any);
    }
    if c.res != Res::Ok {
        return;
    }
    let mut k = 0;
    while k < c.nev {
        let w = c.who[k];
        if w < 100 {
            let me = c.opp.o[w].cb.id == c.cb.id;
            if c.ev[k].is_fill() {
                // only decrement-take trades against itself
                check!(imp(me, c.stb == DECR));
            } else {
                let filled = k > 0 && c.ev[k - 1].is_fill() && c.who[k - 1] == w;
                if !filled {
                    // cancelled without trading: cancel-provide on one's own order, in full
                    check!(me & (c.stb == CANCEL));
                    check!(c.ev[k].base == c.opp.o[w].qty);
                }
            }
        }
        k += 1;
    }
    if c.res == Res::Ok {
        // an order of one's own that was reached is never left traded or skipped
        let mut i = 0;
        while i < n {
            if let Some(j) = c.at2[i] {
                let me = c.opp.o[i].cb.id == c.cb.id;
                check!(imp(me & (c.stb != DECR), c.opp2.o[j].qty == c.opp.o[i].qty));
            }
            i += 1;
        }
    }
}

/// C12: the remainder rests exactly when it may
fn judge_post(c: &Ctx) {
    if c.res != Res::Ok || c.own.n == c.own_cap {
        return;
    }
    let posted = c.posted.is_some();
    let base = (c.max_base as u128).wrapping_sub(c.fill_base()) as u64;
    let quote = (c.max_quote as u128).wrapping_sub(c.fill_quote()) as u64;
    let exhausted = c.steps() == c.match_limit;
    let crossing = match c.left() {
        Some(o) => c.crosses(o.price),
        None => false,
    };
    let fits = |b: u64| wmul(b, c.limit) <= (quote as u128) << 32;
    let enough = (base >= c.min_base) & fits(c.min_base);
    let want = !exhausted & !crossing & c.post_allowed & enough;
    check!(posted == want);
    if let Some(j) = c.posted {
        // as much as both remaining caps allow, and no more
        let b = c.own2.o[j].qty;
        check!(b <= base);
        check!(fits(b));
        check!((b == base) | !fits(b.wrapping_add(1)));
        check!(c.own2.o[j].cb == c.cb);
        check!(c.own2.o[j].price == c.limit);
    }
}

/// C13: a full side gives way only at its worst end, and only to a strictly better price
fn judge_evict(c: &Ctx) {
    if c.res != Res::Ok {
        return;
    }
    let m = c.own.n;
    let mut gone = 0;
    let mut i = 0;
    while i < m {
        if c.own_at2[i].is_none() {
            gone += 1;
            check!(i == m - 1);
            check!(m == c.own_cap);
            check!(c.posted.is_some());
            let w = &c.own.o[i];
            check!(if c.bid { w.price < c.limit } else { w.price > c.limit });
            // the owner hears about it
            let mut heard = 0;
            let mut k = 0;
            while k < c.nev {
                if c.who[k] == 100 + i {
                    heard += 1;
                    check!(c.ev[k].is_out());
                    check!(c.ev[k].side == !c.bid as u8);
                    check!(c.ev[k].base == w.qty);
                    check!(c.cbs[k][0] == w.cb);
                }
                k += 1;
            }
            check!(heard == 1);
        }
        i += 1;
    }
    check!(gone <= 1);
    if m == c.own_cap {
        let base = (c.max_base as u128).wrapping_sub(c.fill_base()) as u64;
        let quote = (c.max_quote as u128).wrapping_sub(c.fill_quote()) as u64;
        let crossing = match c.left() {
            Some(o) => c.crosses(o.price),
            None => false,
        };
        let enough = (base >= c.min_base) & (wmul(c.min_base, c.limit) <= (quote as u128) << 32);
        let worst = &c.own.o[m - 1];
        let better = if c.bid { worst.price < c.limit } else { worst.price > c.limit };
        let want = !(c.steps() == c.match_limit) & !crossing & c.post_allowed & enough & better;
        check!(c.posted.is_some() == want);
        check!(c.posted_some == want);
        if c.posted.is_none() {
            check!(c.own2.n == m);
            check!((c.total_posted == 0) & (c.total_base as u128 == c.fill_base()) & (c.total_quote as u128 == c.fill_quote()));
        } else {
            check!(c.own2.n == m);
            check!(gone == 1);
        }
    }
}

/// params: 1 = opposite orders, 2 = own orders, 3 = queue mode, 4 = layout of both sides
pub fn match_small() {
    let bid = choose(2) == 0;
    let n = param(1);
    let m = param(2);
    let lay = param(4);
    let c = build::<4, 3, 4, 3, 8>(n, m, lay, lay, param(3), bid, None);
    judge(&c);
}

/// As match_small, through the instruction processor. params: 5 = binary logarithm of the tick size
pub fn match_proc() {
    let bid = choose(2) == 0;
    let lay = param(4);
    let c = build::<4, 3, 4, 3, 8>(param(1), param(2), lay, lay, param(3), bid, Some(1 << param(5)));
    judge(&c);
}

/// A larger book, whose keys (and, from layout 60, quantities and owners) are fixed. params as match_small
pub fn match_wide() {
    let bid = choose(2) == 0;
    let c = build::<8, 7, 8, 7, 20>(param(1), param(2), param(4), param(4), param(3), bid, None);
    judge(&c);
}

/// As match_small, with an own side of as many slots as it holds orders (1 to 3).
pub fn match_full() {
    let bid = choose(2) == 0;
    let n = param(1);
    let m = param(2);
    let lay = param(4);
    let c = match m {
        1 => build::<3, 2, 1, 0, 8>(n, m, lay, lay, param(3), bid, None),
        2 => build::<3, 2, 2, 1, 8>(n, m, lay, lay, param(3), bid, None),
        _ => build::<3, 2, 3, 2, 8>(n, 3, lay, lay, param(3), bid, None),
    };
    judge(&c);
}

/// As match_small, with an event queue in any state. params: 1 = opposite orders, 2 = own orders, 3 = queue slots, 4 = layout
pub fn match_ring() {
    let bid = choose(2) == 0;
    let n = param(1);
    let m = param(2);
    let lay = param(4);
    let c = match param(3) {
        1 => build::<3, 2, 3, 2, 1>(n, m, lay, lay, 5, bid, None),
        2 => build::<3, 2, 3, 2, 2>(n, m, lay, lay, 5, bid, None),
        3 => build::<3, 2, 3, 2, 3>(n, m, lay, lay, 5, bid, None),
        4 => build::<3, 2, 3, 2, 4>(n, m, lay, lay, 5, bid, None),
        _ => build::<3, 2, 3, 2, 5>(n, m, lay, lay, 5, bid, None),
    };
    judge(&c);
}

// ------------------------------------------------------------------------------------------------ the program's own owner information
#[derive(Clone, Copy, PartialEq)]
#[repr(C)]
struct Wide([u64; 4]);
#[repr(C)]
struct WideSide {
    head: [u64; 5],
    leaves: [Leaf; 2],
    inners: [Inner; 1],
    cbs: [Wide; 2],
}
#[repr(C)]
struct WideQueue {
    head: [u64; 4],
    ev: [Ev; 3],
    cbs: [[Wide; 2]; 3],
}
impl WideSide {
    fn new(tag: u64, leaf: Option<(Leaf, Wide)>) -> Self {
        let one = leaf.is_some() as u64;
        let (l, c) = leaf.unwrap_or((Leaf { lo: 0, hi: 0, qty: 0 }, Wide([0; 4])));
        // no free leaf, one leaf ever used, no inner node, root 0
        WideSide { head: [tag, 0, one, 0, one << 32], leaves: [l, Leaf { lo: 0, hi: 0, qty: 0 }], inners: [Inner { lo: 0, hi: 0, prefix_len: 0, children: [0; 2] }], cbs: [c, Wide([0; 4])] }
    }
    fn count(&self) -> u64 {
        self.head[4] >> 32
    }
}

/// C09, C10 with the 32-byte owner information of the program: one order against one resting order.
pub fn self32() {
    let bid = choose(2) == 0;
    let (maker, taker) = (Wide([any_u64(), any_u64(), any_u64(), any_u64()]), Wide([any_u64(), any_u64(), any_u64(), any_u64()]));
    let price = any_pinned(&opp_pins(bid, 0));
    assume(price >= 1);
    let seq = any_u64();
    assume(seq < 1 << 62);
    let leaf = Leaf { lo: if bid { seq } else { !seq }, hi: price, qty: any_u64() };
    let min = any_u64();
    assume((min >= 1) & (leaf.qty >= min));
    let limit = any_pinned(&limit_pins(bid, 0));
    let (max_base, max_quote, match_limit) = (any_u64(), any_u64(), any_u64());
    let (post_only, post_allowed) = (any_bool(), any_bool());
    let mode = choose(3) as u8;
    assume(!post_allowed | (limit >= 1));
    let mut opp = WideSide::new(if bid { TAG_ASKS } else { TAG_BIDS }, Some((leaf, maker)));
    let mut own = WideSide::new(if bid { TAG_BIDS } else { TAG_ASKS }, None);
    let mut q = WideQueue { head: [TAG_EQ, 0, 0, seq + 1], ev: [EV0; 3], cbs: [[Wide([0; 4]); 2]; 3] };
    let (asks, bids) = if bid { (bytes_of(&mut opp), bytes_of(&mut own)) } else { (bytes_of(&mut own), bytes_of(&mut opp)) };
    let mut book = OrderBookState::<[u8; 32]> {
        bids: Slab::from_buffer(bids, AccountTag::Bids).unwrap(),
        asks: Slab::from_buffer(asks, AccountTag::Asks).unwrap(),
    };
    let mut eq = EventQueue::<[u8; 32]>::from_buffer(bytes_of(&mut q), AccountTag::EventQueue).unwrap();
    let params = Params {
        max_base_qty: max_base,
        max_quote_qty: max_quote,
        limit_price: limit,
        side: if bid { Side::Bid } else { Side::Ask },
        match_limit,
        callback_info: unsafe { std::mem::transmute::<Wide, [u8; 32]>(taker) },
        post_only,
        post_allowed,
        self_trade_behavior: stb(mode),
    };
    panic_ok(true);
    let r = book.new_order(params, &mut eq, min);
    panic_ok(false);
    drop(book);
    let me = maker == taker;
    let crosses = if bid { limit >= price } else { limit <= price };
    let p = prop();
    match r {
        Err(AoError::WouldSelfTrade) => {
            cover(2);
            if p == 10 {
                check!((mode == ABORT) & me & crosses & !post_only);
            }
        }
        Err(_) => {}
        Ok(_) => {
            let n = q.head[2] as usize;
            trace(n as u64);
            if n > 3 {
                check!(false);
                return;
            }
            let filled = n > 0 && q.ev[0].is_fill();
            let mut k = 0;
            while k < n {
                let (e, c) = (&q.ev[k], &q.cbs[k]);
                if p == 9 && e.is_fill() {
                    check!(e.id() == ((price as u128) << 64) | leaf.lo as u128);
                    check!(e.side == !bid as u8);
                    check!(c[0] == maker);
                    check!(c[1] == taker);
                    cover(3);
                }
                if p == 10 {
                    if e.is_fill() {
                        check!(!me | (mode == DECR));
                        cover(4);
                    } else if !filled {
                        check!(me & (mode == CANCEL) & (e.base == leaf.qty));
                        cover(5);
                    }
                }
                k += 1;
            }
            if p == 10 && opp.count() == 1 {
                check!(!me | (mode == DECR) | (opp.leaves[0].qty == leaf.qty));
            }
        }
    }
    cover(1);
}
