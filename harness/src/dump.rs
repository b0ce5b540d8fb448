//! Accounts written by the program, with what its own readers say is in them, as JSON (C32: the TypeScript
//! client must read the same).
use asset_agnostic_orderbook::instruction::{cancel_order, consume_events, create_market, new_order};
use asset_agnostic_orderbook::state::critbit::Slab;
use asset_agnostic_orderbook::state::event_queue::{EventQueue, EventRef};
use asset_agnostic_orderbook::state::orderbook::CallbackInfo;
use asset_agnostic_orderbook::state::{AccountTag, SelfTradeBehavior, Side};
use solana_program::account_info::AccountInfo;
use solana_program::pubkey::Pubkey;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, borsh::BorshSerialize, borsh::BorshDeserialize)]
#[repr(C)]
struct Cb([u64; 2]);
unsafe impl bytemuck::Zeroable for Cb {}
unsafe impl bytemuck::Pod for Cb {}
impl CallbackInfo for Cb {
    type CallbackId = u64;
    fn as_callback_id(&self) -> &u64 {
        &self.0[0]
    }
}
struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut solana_program::rent::Rent) = solana_program::rent::Rent::default() };
        0
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn id(k: &[u64; 2]) -> u128 {
    k[0] as u128 | (k[1] as u128) << 64
}
const EVENTS: usize = 8;
const ORDERS: usize = 6;

struct W {
    prog: Pubkey,
    infos: Vec<AccountInfo<'static>>,
    cbs: HashMap<u128, Cb>,
    out: Vec<String>,
}
impl W {
    fn order(&mut self, side: Side, price: u64, qty: u64, cb: [u64; 2]) {
        let a = &self.infos;
        let s = new_order::process::<Cb>(
            &self.prog,
            new_order::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3] },
            new_order::Params {
                max_base_qty: qty,
                max_quote_qty: u64::MAX,
                limit_price: price,
                side,
                match_limit: 10,
                callback_info: Cb(cb),
                post_only: false,
                post_allowed: true,
                self_trade_behavior: SelfTradeBehavior::CancelProvide,
            },
        )
        .unwrap();
        if let Some(i) = s.posted_order_id {
            self.cbs.insert(i, Cb(cb));
        }
    }
    fn consume(&mut self, n: u64) {
        let a = &self.infos;
        consume_events::process::<Cb>(
            &self.prog,
            consume_events::Accounts { market: &a[0], event_queue: &a[1] },
            consume_events::Params { number_of_entries_to_consume: n },
        )
        .unwrap();
    }
    fn cancel(&mut self, order_id: u128) {
        let a = &self.infos;
        cancel_order::process::<Cb>(
            &self.prog,
            cancel_order::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3] },
            cancel_order::Params { order_id },
        )
        .unwrap();
    }
    fn lowest(&self, i: usize) -> u128 {
        let mut d = self.infos[i].data.borrow().to_vec();
        Slab::<Cb>::from_buffer(&mut d, if i == 2 { AccountTag::Bids } else { AccountTag::Asks }).unwrap().into_iter(true).next().unwrap().order_id()
    }
    fn snap(&mut self) {
        for i in [2usize, 3] {
            let tag = if i == 2 { AccountTag::Bids } else { AccountTag::Asks };
            let d = self.infos[i].data.borrow().to_vec();
            let mut e = d.clone();
            let o: Vec<String> = Slab::<Cb>::from_buffer(&mut e, tag)
                .unwrap()
                .into_iter(true)
                .map(|l| format!("[\"{}\",\"{}\",\"{}\"]", l.order_id(), l.base_quantity, hex(bytemuck::bytes_of(&self.cbs[&l.order_id()]))))
                .collect();
            self.out.push(format!(
                "{{\"what\":\"side\",\"tag\":{},\"cb\":16,\"capacity\":{},\"size\":{},\"orders\":[{}],\"hex\":\"{}\"}}",
                tag as u64, ORDERS, Slab::<Cb>::compute_allocation_size(ORDERS), o.join(","), hex(&d)
            ));
        }
        let d = self.infos[1].data.borrow().to_vec();
        let mut e = d.clone();
        let q = EventQueue::<Cb>::from_buffer(&mut e, AccountTag::EventQueue).unwrap();
        let v: Vec<String> = q
            .iter()
            .map(|x| match x {
                EventRef::Fill(f) => format!(
                    "\"fill,{},{},{},{},{},{}\"", f.event.taker_side, f.event.quote_size, id(&f.event.maker_order_id), f.event.base_size,
                    hex(bytemuck::bytes_of(f.maker_callback_info)), hex(bytemuck::bytes_of(f.taker_callback_info))
                ),
                EventRef::Out(f) => format!("\"out,{},{},{},{}\"", f.event.side, id(&f.event.order_id), f.event.base_size, hex(bytemuck::bytes_of(f.callback_info))),
            })
            .collect();
        let head = u64::from_le_bytes(d[8..16].try_into().unwrap());
        self.out.push(format!(
            "{{\"what\":\"queue\",\"cb\":16,\"capacity\":{},\"size\":{},\"head\":\"{}\",\"events\":[{}],\"hex\":\"{}\"}}",
            EVENTS, EventQueue::<Cb>::compute_allocation_size(EVENTS), head, v.join(","), hex(&d)
        ));
    }
}

fn main() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    let prog = Pubkey::new_from_array([9; 32]);
    let sizes = [128 - 8, EventQueue::<Cb>::compute_allocation_size(EVENTS), Slab::<Cb>::compute_allocation_size(ORDERS), Slab::<Cb>::compute_allocation_size(ORDERS)];
    let mut keys = vec![];
    let infos = (0..4)
        .map(|i| {
            let mut k = [0u8; 32];
            k.iter_mut().enumerate().for_each(|(j, x)| *x = (37 * i + 5 * j + 1) as u8);
            keys.push(k);
            let n = sizes[i];
            // eight-byte aligned account data
            let d: &'static mut [u64] = Box::leak(vec![0u64; n / 8 + 1].into_boxed_slice());
            let d = &mut bytemuck::cast_slice_mut::<u64, u8>(d)[..n];
            AccountInfo::new(
                Box::leak(Box::new(Pubkey::new_from_array(k))), false, true, Box::leak(Box::new(1_000_000_000_000u64)), d, Box::leak(Box::new(prog)), false, 0,
            )
        })
        .collect::<Vec<_>>();
    let mut w = W { prog, infos, cbs: HashMap::new(), out: vec![] };
    let (min, tick) = (3u64, 1u64 << 20);
    {
        let a = &w.infos;
        create_market::process::<Cb>(
            &w.prog,
            create_market::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3] },
            create_market::Params { min_base_order_size: min, tick_size: tick },
        )
        .unwrap();
    }
    w.consume(0);
    w.snap();
    let m = w.infos[0].data.borrow().to_vec();
    w.out.push(format!(
        "{{\"what\":\"market\",\"cb\":16,\"tag\":{},\"keys\":[{}],\"min\":{},\"tick\":{},\"hex\":\"{}\"}}",
        AccountTag::Market as u64, [1, 2, 3].map(|i| format!("\"{}\"", hex(&keys[i]))).join(","), min, tick, hex(&m)
    ));
    let t = tick;
    for (i, (p, q)) in [(300, 50), (305, 70), (300, 90), (290, 1 << 60), (4096 * 4096, 11)].iter().enumerate() {
        if i < 4 {
            w.order(Side::Bid, p * t, *q, [100 + i as u64, u64::MAX - i as u64]);
        }
        w.order(Side::Ask, (p + 20) * t, *q + 1, [200 + i as u64, 7 << (8 * i)]);
    }
    w.snap();
    w.order(Side::Ask, 300 * t, 100, [300, 1]);
    w.order(Side::Bid, 320 * t, 60, [301, 2]);
    w.order(Side::Bid, 320 * t, 30, [200, 3]);
    w.snap();
    w.consume(3);
    w.snap();
    w.order(Side::Bid, 330 * t, 200, [302, 4]);
    w.snap();
    w.consume(2);
    let id = w.lowest(3);
    w.cancel(id);
    w.order(Side::Ask, 280 * t, 120, [303, 5]);
    w.snap();
    println!("[{}]", w.out.join(",\n"));
}
