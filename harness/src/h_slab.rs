//! The order tree and the event queue through their public interface.
use crate::book::*;
use crate::v::*;
use asset_agnostic_orderbook::state::critbit::Slab;
use asset_agnostic_orderbook::state::event_queue::{EventQueue, EventRef};
use asset_agnostic_orderbook::state::AccountTag;

fn gen(bid: bool) -> Gen {
    Gen { bid, next_seq: 0, min_qty: 0, coded: false, taker_bid: true, pins: no_pins }
}

fn same(a: &Ord, b: &Ord) -> bool {
    (a.lo == b.lo) & (a.price == b.price) & (a.qty == b.qty) & (a.cb.id == b.cb.id) & (a.cb.aux == b.cb.aux)
}

#[inline(never)]
fn remove<const L: usize, const I: usize>(n: usize, lay: usize) {
    let bid = choose(2) == 0;
    let mut mem = SlabMem::<L, I, Cb>::zeroed(if bid { TAG_BIDS } else { TAG_ASKS });
    let o = mem.generate(n, lay, &gen(bid));
    let (klo, khi) = (any_u64(), any_u64());
    let key = ((khi as u128) << 64) | klo as u128;
    let want = o.find(key);
    let tag = if bid { AccountTag::Bids } else { AccountTag::Asks };
    {
        let mut slab = Slab::<Cb>::from_buffer(bytes_of(&mut mem), tag).unwrap();
        let r = slab.remove_by_key(key);
        match r {
            None => {
                check!(want.is_none());
                cover(1);
            }
            Some((leaf, cb)) => {
                cover(2);
                match want {
                    None => check!(false),
                    Some(i) => {
                        check!(leaf.order_id() == key);
                        check!(leaf.price() == o.o[i].price);
                        check!(leaf.base_quantity == o.o[i].qty);
                        check!((cb.id == o.o[i].cb.id) & (cb.aux == o.o[i].cb.aux));
                        trace(leaf.base_quantity);
                    }
                }
            }
        }
    }
    mem.check_valid();
    let Some(o2) = mem.read() else {
        check!(false);
        return;
    };
    // the other orders are untouched
    let mut j = 0;
    let mut i = 0;
    while i < n {
        if want != Some(i) {
            if j >= o2.n {
                check!(false);
                return;
            }
            check!(same(&o.o[i], &o2.o[j]));
            check!(o.o[i].slot == o2.o[j].slot);
            j += 1;
        }
        i += 1;
    }
    check!(j == o2.n);
}
/// params: 1 = orders, 2 = layout, 3 = capacity
pub fn slab_remove() {
    let (n, lay) = (param(1), param(2));
    match param(3) {
        3 => remove::<3, 2>(n, lay),
        5 => remove::<5, 4>(n, lay),
        8 => remove::<8, 7>(n, lay),
        _ => remove::<4, 3>(n, lay),
    }
}

#[inline(never)]
fn read<const L: usize, const I: usize>(n: usize, lay: usize) {
    let bid = choose(2) == 0;
    let mut mem = SlabMem::<L, I, Cb>::zeroed(if bid { TAG_BIDS } else { TAG_ASKS });
    let o = mem.generate(n, lay, &gen(bid));
    let tag = if bid { AccountTag::Bids } else { AccountTag::Asks };
    let asc = choose(2) == 0;
    let mut slab = Slab::<Cb>::from_buffer(bytes_of(&mut mem), tag).unwrap();
    check!(slab.leaf_nodes.len() == L);
    check!(slab.inner_nodes.len() == I);
    check!(slab.callback_infos.len() == L);
    check!(slab.root().is_some() == (n > 0));
    match slab.find_min() {
        None => check!(n == 0),
        Some(h) => {
            check!(n > 0);
            if n > 0 {
                check!(h == o.o[0].slot);
                check!(slab.leaf_nodes[h as usize].order_id() == o.o[0].key());
            }
            cover(1);
        }
    }
    match slab.find_max() {
        None => check!(n == 0),
        Some(h) => {
            check!(n > 0);
            if n > 0 {
                check!(h == o.o[n - 1].slot);
                check!(slab.leaf_nodes[h as usize].order_id() == o.o[n - 1].key());
            }
        }
    }
    let (klo, khi) = (any_u64(), any_u64());
    let key = ((khi as u128) << 64) | klo as u128;
    let want = o.find(key);
    match (slab.find_by_key(key), want) {
        (None, None) => cover(2),
        (Some(h), Some(i)) => {
            check!(h == o.o[i].slot);
            cover(3);
        }
        _ => check!(false),
    }
    let mut i = 0;
    while i < n {
        let c = *slab.get_callback_info(o.o[i].slot);
        check!((c.id == o.o[i].cb.id) & (c.aux == o.o[i].cb.aux));
        let c = *slab.get_callback_info_mut(o.o[i].slot);
        check!((c.id == o.o[i].cb.id) & (c.aux == o.o[i].cb.aux));
        i += 1;
    }
    let mut it = slab.into_iter(asc);
    let mut i = 0;
    while i < n {
        let w = if asc { &o.o[i] } else { &o.o[n - 1 - i] };
        match it.next() {
            None => check!(false),
            Some(l) => {
                check!(l.order_id() == w.key());
                check!(l.price() == w.price);
                check!(l.base_quantity == w.qty);
                trace(l.base_quantity);
            }
        }
        i += 1;
    }
    check!(it.next().is_none());
    check!(it.next().is_none());
    cover(4);
}
/// params: 1 = orders, 2 = layout
pub fn slab_read() {
    match param(1) {
        0..=4 => read::<4, 3>(param(1), param(2)),
        _ => read::<8, 7>(param(1), param(2)),
    }
}

// ------------------------------------------------------------------------------------------------ event queue
pub fn ev_is(r: &EventRef<Cb>, e: &Ev, c: &[Cb; 2]) -> bool {
    match r {
        EventRef::Fill(f) => {
            (e.tag == 0)
                & (f.event.tag == 0)
                & (f.event.taker_side == e.side)
                & (f.event.quote_size == e.quote)
                & (f.event.maker_order_id[0] == e.id_lo)
                & (f.event.maker_order_id[1] == e.id_hi)
                & (f.event.base_size == e.base)
                & (*f.maker_callback_info == c[0])
                & (*f.taker_callback_info == c[1])
        }
        EventRef::Out(f) => {
            (e.tag == 1)
                & (f.event.side == e.side)
                & (f.event.order_id[0] == e.id_lo)
                & (f.event.order_id[1] == e.id_hi)
                & (f.event.base_size == e.base)
                & (*f.callback_info == c[0])
        }
    }
}
pub fn any_queue<const N: usize>() -> QueueMem<N, Cb> {
    let mut q = QueueMem::<N, Cb>::new(choose(N), any_u64());
    q.count = choose(N + 1) as u64;
    let mut i = 0;
    while i < N {
        q.ev[i] = any_ev();
        q.cbs[i] = [any_cb(), any_cb()];
        i += 1;
    }
    q
}
pub fn same_ev(a: &Ev, b: &Ev) -> bool {
    (a.tag == b.tag) & (a.side == b.side) & (a.quote == b.quote) & (a.id_lo == b.id_lo) & (a.id_hi == b.id_hi) & (a.base == b.base)
}

/// the n events left start at slot `head` and are as before; where an empty queue starts is its own business
pub fn live_same<const N: usize>(q: &QueueMem<N, Cb>, ev: &[Ev; N], cbs: &[[Cb; 2]; N], head: usize, n: usize) {
    if n == 0 {
        check!(q.head < N as u64);
        return;
    }
    check!(q.head as usize == head);
    let mut i = 0;
    while i < n {
        let k = (head + i) % N;
        check!(same_ev(&q.ev[k], &ev[k]));
        check!((q.cbs[k][0] == cbs[k][0]) & (q.cbs[k][1] == cbs[k][1]));
        i += 1;
    }
}

#[inline(never)]
fn queue<const N: usize>() {
    let mut q = any_queue::<N>();
    let (head, count, seq) = (q.head as usize, q.count as usize, q.seq);
    let (ev, cbs) = (q.ev, q.cbs);
    let n = any_u64();
    let idx = any_u64();
    {
        let mut eq = EventQueue::<Cb>::from_buffer(bytes_of(&mut q), AccountTag::EventQueue).unwrap();
        check!(eq.len() == count as u64);
        check!(eq.is_empty() == (count == 0));
        // random access
        match eq.peek_at(idx) {
            None => check!(idx >= count as u64),
            Some(e) => {
                check!(idx < count as u64);
                let mut i = 0;
                while i < count {
                    if decide(idx == i as u64) {
                        let k = (head + i) % N;
                        check!(ev_is(&e, &ev[k], &cbs[k]));
                        cover(1);
                    }
                    i += 1;
                }
            }
        }
        // in order
        let mut it = eq.iter();
        let mut i = 0;
        while i < count {
            let k = (head + i) % N;
            match it.next() {
                None => check!(false),
                Some(e) => check!(ev_is(&e, &ev[k], &cbs[k])),
            }
            i += 1;
        }
        check!(it.next().is_none());
        eq.pop_n(n);
        let left = if n < count as u64 { count as u64 - n } else { 0 };
        check!(eq.len() == left);
        check!(eq.is_empty() == (left == 0));
    }
    trace(q.count);
    let mut i = 0;
    while i <= count {
        // the case where i events are popped
        if decide(if i == count { n >= count as u64 } else { n == i as u64 }) {
            check!(q.count as usize == count - i);
            live_same(&q, &ev, &cbs, (head + i) % N, count - i);
            cover(2);
        }
        i += 1;
    }
    check!(q.seq == seq);
    check!(q.tag == TAG_EQ);
}
/// params: 1 = capacity
pub fn queue_ops() {
    match param(1) {
        1 => queue::<1>(),
        2 => queue::<2>(),
        3 => queue::<3>(),
        5 => queue::<5>(),
        _ => queue::<7>(),
    }
}
