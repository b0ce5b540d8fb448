//! Client-side builders, decoding, dispatch and the return register: an instruction built by the library and run
//! through the program entrypoint does what the operation of that name does to the same accounts.
use crate::book::*;
use crate::h_proc::*;
use crate::v::*;
use asset_agnostic_orderbook::instruction::{self as ins, cancel_order, close_market, consume_events, create_market, mass_cancel_orders, new_order};
use asset_agnostic_orderbook::state::orderbook::OrderSummary;
use asset_agnostic_orderbook::state::{SelfTradeBehavior, Side};
use solana_program::account_info::AccountInfo;
use solana_program::instruction::Instruction;

const L: usize = 3;
const I: usize = 2;
const NQ: usize = 5;
pub const REG: usize = 5;

/// the program's own owner information: 32 bytes
#[derive(Clone, Copy, PartialEq)]
#[repr(C)]
struct K32([u64; 4]);
type CI = [u8; 32];
/// the same bytes, with the size the client-side builder asks for
#[derive(Clone, Copy, borsh::BorshSerialize, borsh::BorshDeserialize)]
struct B32([u8; 32]);
impl bonfida_utils::BorshSize for B32 {
    fn borsh_len(&self) -> usize {
        32
    }
}

#[derive(Clone, Copy)]
#[repr(C)]
struct Side32 {
    head: [u64; 5],
    leaves: [Leaf; L],
    inners: [Inner; I],
    cbs: [K32; L],
}
#[derive(Clone, Copy)]
#[repr(C)]
struct Queue32 {
    head: [u64; 4],
    ev: [Ev; NQ],
    cbs: [[K32; 2]; NQ],
}
#[derive(Clone, Copy)]
struct State {
    market: MarketMem,
    q: Queue32,
    bids: Side32,
    asks: Side32,
    lam: [u64; 6],
}

fn wide(c: &Cb) -> K32 {
    K32([c.id, c.aux, any_u64(), c.id ^ c.aux])
}
fn side32(m: &SlabMem<L, I, Cb>) -> Side32 {
    let two = |a: u32, b: u32| (a as u64) | ((b as u64) << 32);
    Side32 {
        head: [m.tag, two(m.leaf_free_len, m.leaf_free_head), two(m.leaf_bump, m.inner_free_len), two(m.inner_free_head, m.inner_bump), two(m.root, m.leaf_count)],
        leaves: m.leaves,
        inners: m.inners,
        cbs: [wide(&m.cbs[0]), wide(&m.cbs[1]), wide(&m.cbs[2])],
    }
}
fn same_side(a: &Side32, b: &Side32) -> bool {
    let mut r = a.head == b.head;
    let mut i = 0;
    while i < L {
        let (x, y) = (&a.leaves[i], &b.leaves[i]);
        r &= (x.lo == y.lo) & (x.hi == y.hi) & (x.qty == y.qty);
        r &= a.cbs[i] == b.cbs[i];
        i += 1;
    }
    let mut i = 0;
    while i < I {
        let (x, y) = (&a.inners[i], &b.inners[i]);
        r &= (x.lo == y.lo) & (x.hi == y.hi) & (x.prefix_len == y.prefix_len) & (x.children == y.children);
        i += 1;
    }
    r
}
fn same_queue(a: &Queue32, b: &Queue32) -> bool {
    let mut r = a.head == b.head;
    let mut i = 0;
    while i < NQ {
        r &= crate::h_slab::same_ev(&a.ev[i], &b.ev[i]);
        r &= (a.cbs[i][0] == b.cbs[i][0]) & (a.cbs[i][1] == b.cbs[i][1]);
        i += 1;
    }
    r
}
fn same_market(a: &MarketMem, b: &MarketMem) -> bool {
    (a.tag == b.tag) & (a.eq == b.eq) & (a.bids == b.bids) & (a.asks == b.asks) & (a.min_base == b.min_base) & (a.tick == b.tick)
}
impl State {
    fn same(&self, o: &State, i: usize) -> bool {
        let l = self.lam[i] == o.lam[i];
        l & match i {
            MARKET => same_market(&self.market, &o.market),
            QUEUE => same_queue(&self.q, &o.q),
            BIDS => same_side(&self.bids, &o.bids),
            ASKS => same_side(&self.asks, &o.asks),
            _ => true,
        }
    }
    fn info(&mut self, i: usize, key: &Key, owner: &Key, reg: &mut [u8]) -> AccountInfo<'static> {
        let l = &mut self.lam[i];
        match i {
            MARKET => info(key, owner, l, bytes_of(&mut self.market)),
            QUEUE => info(key, owner, l, bytes_of(&mut self.q)),
            BIDS => info(key, owner, l, bytes_of(&mut self.bids)),
            ASKS => info(key, owner, l, bytes_of(&mut self.asks)),
            TARGET => info(key, owner, l, &mut []),
            _ => info(key, owner, l, reg),
        }
    }
}

fn u64_at(b: &[u8], i: usize) -> u64 {
    let mut x = [0u8; 8];
    x.copy_from_slice(&b[i..i + 8]);
    u64::from_le_bytes(x)
}
/// the register holds the encoding of the summary
fn register_is(r: &[u8], s: &Option<OrderSummary>) {
    match s {
        None => check!(r[0] == 0),
        Some(s) => {
            check!(r[0] == 1);
            let p = match s.posted_order_id {
                None => {
                    check!(r[1] == 0);
                    2
                }
                Some(id) => {
                    check!(r[1] == 1);
                    check!((u64_at(r, 2) == id as u64) & (u64_at(r, 10) == (id >> 64) as u64));
                    cover(5);
                    18
                }
            };
            check!(u64_at(r, p) == s.total_base_qty);
            check!(u64_at(r, p + 8) == s.total_quote_qty);
            check!(u64_at(r, p + 16) == s.total_base_qty_posted);
            cover(4);
        }
    }
}

/// C30: settings, tags and lamports stay as they are, unless the market is being closed or created
fn frame(op: usize, before: &State, a: &State) {
    if op != 4 {
        let mut i = 0;
        while i < 6 {
            check!(a.lam[i] == before.lam[i]);
            i += 1;
        }
    }
    if op < 4 {
        check!(same_market(&a.market, &before.market));
        check!((a.q.head[0] == before.q.head[0]) & (a.bids.head[0] == before.bids.head[0]) & (a.asks.head[0] == before.asks.head[0]));
    }
    if op == 1 || op == 2 {
        check!(same_queue(&a.q, &before.q));
    }
    if op == 3 {
        check!(same_side(&a.bids, &before.bids) & same_side(&a.asks, &before.asks));
    }
}

/// C24, C28, C30. params: 1 = operation (0 new, 1 cancel, 2 mass cancel, 3 consume, 4 close, 5 create), 2 = bids, 3 = asks, 4 = ids
pub fn route() {
    let op = param(1);
    let mut w = World::<L, I, NQ>::new(param(2), param(3), LAYOUT_FRESH, true);
    // the accounts are told apart by the first word of their key
    let mut key = [[0u64; 4]; 6];
    let mut i = 0;
    while i < 6 {
        key[i] = [i as u64 + 1, any_u64(), any_u64(), any_u64()];
        i += 1;
    }
    w.market.eq = key[QUEUE];
    w.market.bids = key[BIDS];
    w.market.asks = key[ASKS];
    let total = w.lam[0] as u128 + w.lam[1] as u128 + w.lam[2] as u128 + w.lam[3] as u128 + w.lam[4] as u128;
    assume(total <= u64::MAX as u128);
    if op == 3 {
        w.q.head = choose(NQ) as u64;
        w.q.count = choose(NQ + 1) as u64;
    }
    if op == 5 {
        w.market = MarketMem { tag: 0, eq: [0; 4], bids: [0; 4], asks: [0; 4], min_base: 0, tick: 0 };
        w.q.tag = 0;
        w.q.seq = 0;
        w.bids.tag = 0;
        w.asks.tag = 0;
    }
    let mut q = Queue32 { head: [w.q.tag, w.q.head, w.q.count, w.q.seq], ev: w.q.ev, cbs: [[K32([0; 4]); 2]; NQ] };
    if op == 3 {
        let mut i = 0;
        while i < NQ {
            q.ev[i] = any_ev();
            i += 1;
        }
    }
    let before = State { market: w.market, q, bids: side32(&w.bids), asks: side32(&w.asks), lam: [w.lam[0], w.lam[1], w.lam[2], w.lam[3], w.lam[4], any_u64()] };
    let mut a = before;
    let mut b = before;
    let owner = [w.prog, w.prog, w.prog, w.prog, w.owner[4], w.prog];
    let k = |i: usize| pk(unsafe { &*(&key[i] as *const Key) });
    let reg_key = *k(REG);
    let mut reg = [7u8; 64];
    let mut reg_b = [0u8; 1];

    // the parameters
    let own = wide(&any_cb());
    let np = new_order::Params::<CI> {
        max_base_qty: any_u64(),
        max_quote_qty: any_u64(),
        limit_price: any_u64(),
        side: if choose(2) == 0 { Side::Bid } else { Side::Ask },
        match_limit: any_u64(),
        callback_info: unsafe { std::mem::transmute(own) },
        post_only: any_bool(),
        post_allowed: any_bool(),
        self_trade_behavior: match if op == 0 { choose(3) } else { 0 } {
            0 => SelfTradeBehavior::DecrementTake,
            1 => SelfTradeBehavior::CancelProvide,
            _ => SelfTradeBehavior::AbortTransaction,
        },
    };
    let mut ids = [0u128; 4];
    let mut i = 0;
    while i < param(4) {
        ids[i] = ((any_u64() as u128) << 64) | any_u64() as u128;
        i += 1;
    }
    let (x, y) = (any_u64(), any_u64());
    let nids = param(4);

    // built by the client
    let want: &[usize] = match op {
        3 => &[MARKET, QUEUE, REG],
        4 => &[MARKET, QUEUE, BIDS, ASKS, TARGET, REG],
        _ => &[MARKET, QUEUE, BIDS, ASKS, REG],
    };
    let ix: Instruction = match op {
        0 => ins::new_order(new_order::Accounts { market: k(MARKET), event_queue: k(QUEUE), bids: k(BIDS), asks: k(ASKS) }, reg_key, new_order::Params::<B32> {
            max_base_qty: np.max_base_qty,
            max_quote_qty: np.max_quote_qty,
            limit_price: np.limit_price,
            side: np.side,
            match_limit: np.match_limit,
            callback_info: B32(np.callback_info),
            post_only: np.post_only,
            post_allowed: np.post_allowed,
            self_trade_behavior: np.clone().self_trade_behavior,
        }),
        1 => ins::cancel_order(cancel_order::Accounts { market: k(MARKET), event_queue: k(QUEUE), bids: k(BIDS), asks: k(ASKS) }, reg_key, cancel_order::Params { order_id: ids[0] }),
        2 => ins::mass_cancel_orders(
            mass_cancel_orders::Accounts { market: k(MARKET), event_queue: k(QUEUE), bids: k(BIDS), asks: k(ASKS) },
            reg_key,
            mass_cancel_orders::Params { order_ids: ids[..nids].to_vec() },
        ),
        3 => ins::consume_events(consume_events::Accounts { market: k(MARKET), event_queue: k(QUEUE) }, reg_key, consume_events::Params { number_of_entries_to_consume: x }),
        4 => ins::close_market(
            close_market::Accounts { market: k(MARKET), event_queue: k(QUEUE), bids: k(BIDS), asks: k(ASKS), lamports_target_account: k(TARGET) },
            reg_key,
            close_market::Params {},
        ),
        _ => ins::create_market(
            create_market::Accounts { market: k(MARKET), event_queue: k(QUEUE), bids: k(BIDS), asks: k(ASKS) },
            reg_key,
            create_market::Params { min_base_order_size: x, tick_size: y },
        ),
    };
    check!(ix.data.len() > 0 && ix.data[0] as usize == OPS[op]);
    check!(ix.program_id == asset_agnostic_orderbook::id());
    check!(ix.accounts.len() == want.len());
    let mut i = 0;
    while i < want.len() {
        let m = &ix.accounts[i];
        check!(m.pubkey == *k(want[i]));
        check!(!m.is_signer);
        i += 1;
    }

    // the operation itself, on the same state; what it panics on is not of interest here
    panic_ok(true);
    let prog = pk(&w.prog);
    let c: [AccountInfo<'static>; 5] = [
        b.info(MARKET, &key[MARKET], &owner[MARKET], &mut reg_b),
        b.info(QUEUE, &key[QUEUE], &owner[QUEUE], &mut reg_b),
        b.info(BIDS, &key[BIDS], &owner[BIDS], &mut reg_b),
        b.info(ASKS, &key[ASKS], &owner[ASKS], &mut reg_b),
        b.info(TARGET, &key[TARGET], &owner[TARGET], &mut reg_b),
    ];
    let d = match op {
        0 => new_order::process::<CI>(prog, new_order::Accounts { market: &c[0], event_queue: &c[1], bids: &c[2], asks: &c[3] }, np).map(Some),
        1 => cancel_order::process::<CI>(prog, cancel_order::Accounts { market: &c[0], event_queue: &c[1], bids: &c[2], asks: &c[3] }, cancel_order::Params { order_id: ids[0] }).map(Some),
        2 => mass_cancel_orders::process::<CI>(
            prog,
            mass_cancel_orders::Accounts { market: &c[0], event_queue: &c[1], bids: &c[2], asks: &c[3] },
            mass_cancel_orders::Params { order_ids: ids[..nids].to_vec() },
        )
        .map(Some),
        3 => consume_events::process::<CI>(prog, consume_events::Accounts { market: &c[0], event_queue: &c[1] }, consume_events::Params { number_of_entries_to_consume: x }).map(|_| None),
        4 => close_market::process::<CI>(
            prog,
            close_market::Accounts { market: &c[0], event_queue: &c[1], bids: &c[2], asks: &c[3], lamports_target_account: &c[4] },
            close_market::Params {},
        )
        .map(|_| None),
        _ => create_market::process::<CI>(
            prog,
            create_market::Accounts { market: &c[0], event_queue: &c[1], bids: &c[2], asks: &c[3] },
            create_market::Params { min_base_order_size: x, tick_size: y },
        )
        .map(|_| None),
    };
    panic_ok(false);
    // run by the program
    let n = want.len();
    let infos: [AccountInfo<'static>; 6] = [
        a.info(want[0], &key[want[0]], &owner[want[0]], &mut reg),
        a.info(want[1], &key[want[1]], &owner[want[1]], &mut reg),
        a.info(want[2], &key[want[2]], &owner[want[2]], &mut reg),
        a.info(want[3 % n], &key[want[3 % n]], &owner[want[3 % n]], &mut reg),
        a.info(want[4 % n], &key[want[4 % n]], &owner[want[4 % n]], &mut reg),
        a.info(want[5 % n], &key[want[5 % n]], &owner[want[5 % n]], &mut reg),
    ];
    let e = asset_agnostic_orderbook::entrypoint::process_instruction(prog, &infos[..n], &ix.data);

    check!(e.is_ok() == d.is_ok());
    cover(e.is_ok() as u32);
    trace(e.is_ok() as u64);
    let Ok(s) = d else { return };
    if prop() == 28 {
        register_is(&reg, &s);
        return;
    }
    if prop() == 30 {
        frame(op, &before, &a);
        return;
    }
    let mut i = 0;
    while i < 5 {
        check!(a.same(&b, i));
        i += 1;
    }
    // what the operation changes it was given to change
    let mut i = 0;
    while i < n {
        if want[i] == REG {
            check!(ix.accounts[i].is_writable);
        } else if !ix.accounts[i].is_writable {
            check!(a.same(&before, want[i]));
        }
        i += 1;
    }
    std::mem::forget(ix);
}

/// first byte of each operation, in the order `route` numbers them: what existing clients send
const OPS: [usize; 6] = [1, 3, 5, 2, 4, 0];

/// C24: bytes that name no instruction, and data cut short, are refused. params: 1 = operation or 6, 2 = length of the data
pub fn unknown() {
    let w = World::<L, I, NQ>::new(0, 0, LAYOUT_FRESH, true);
    let mut st = State { market: w.market, q: Queue32 { head: [w.q.tag, 0, 0, w.q.seq], ev: w.q.ev, cbs: [[K32([0; 4]); 2]; NQ] }, bids: side32(&w.bids), asks: side32(&w.asks), lam: [0; 6] };
    let mut reg = [7u8; 64];
    let key = w.key;
    let o = w.prog;
    let x: [AccountInfo<'static>; 6] = [
        st.info(0, &key[0], &o, &mut reg),
        st.info(1, &key[1], &o, &mut reg),
        st.info(2, &key[2], &o, &mut reg),
        st.info(3, &key[3], &o, &mut reg),
        st.info(4, &key[4], &o, &mut reg),
        st.info(5, &key[4], &o, &mut reg),
    ];
    let mut data = [0u8; 100];
    let n = param(2);
    let mut i = 0;
    while i < n {
        data[i] = any_u8();
        i += 1;
    }
    assume(if param(1) == 6 { data[0] >= 6 } else { data[0] as usize == OPS[param(1)] });
    if param(1) == 2 && n >= 5 {
        // a list of one to four ids, of which the last is incomplete
        assume((data[1] >= 1) & (data[1] <= 4) & (data[2] == 0) & (data[3] == 0) & (data[4] == 0));
    }
    panic_ok(true);
    let r = asset_agnostic_orderbook::entrypoint::process_instruction(pk(&w.prog), &x, &data[..n]);
    panic_ok(false);
    check!(r.is_err());
    cover(1);
}
