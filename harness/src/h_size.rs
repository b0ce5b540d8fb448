//! Computed account sizes.
use crate::book::*;
use crate::v::*;
use asset_agnostic_orderbook::state::critbit::{InnerNode, LeafNode, Slab};
use asset_agnostic_orderbook::state::event_queue::EventQueue;
use asset_agnostic_orderbook::state::AccountTag;

fn bytes<T>(m: &mut T, len: usize) -> &'static mut [u8] {
    // nothing beyond the header is touched
    unsafe { std::slice::from_raw_parts_mut(m as *mut T as *mut u8, len) }
}
fn range<T>(s: &[T], base: usize) -> (usize, usize) {
    let a = (s.as_ptr() as usize).wrapping_sub(base);
    (a, a.wrapping_add(s.len() * std::mem::size_of::<T>()))
}

#[inline(never)]
fn slab<C: bytemuck::Pod>() {
    let n = any_u64() as usize;
    assume((n >= 1) & (n < 1 << 31));
    let len = Slab::<C>::compute_allocation_size(n);
    let mut mem = SlabMem::<1, 0, Cb>::zeroed(TAG_BIDS);
    let base = &mem as *const _ as usize;
    match Slab::<C>::from_buffer(bytes(&mut mem, len), AccountTag::Bids) {
        Err(_) => check!(false),
        Ok(s) => {
            cover(1);
            // n orders and the nodes between them
            check!(s.leaf_nodes.len() == n);
            check!(s.inner_nodes.len() == n - 1);
            check!(s.callback_infos.len() == n);
            trace(s.leaf_nodes.len() as u64);
            // no two parts overlap, nothing lies outside
            let h = (s.header as *const _ as usize).wrapping_sub(base);
            check!(h == 8);
            let l = range(&s.leaf_nodes[..], base);
            let i = range(&s.inner_nodes[..], base);
            let c = range(&s.callback_infos[..], base);
            let apart = |a: (usize, usize), b: (usize, usize)| (a.1 <= b.0) | (b.1 <= a.0);
            check!((l.0 >= 40) & (i.0 >= 40) & (c.0 >= 40));
            check!((l.1 <= len) & (i.1 <= len) & (c.1 <= len));
            check!(apart(l, i) & apart(l, c) & apart(i, c));
            check!((LeafNode::LEN == 24) & (InnerNode::LEN == 32));
        }
    }
}

#[inline(never)]
fn queue<C: bytemuck::Pod>() {
    let n = any_u64() as usize;
    assume((n >= 3) & (n < 1 << 31));
    let len = EventQueue::<C>::compute_allocation_size(n);
    let mut q = QueueMem::<1, Cb>::new(n - 2, 0);
    q.count = 3;
    match EventQueue::<C>::from_buffer(bytes(&mut q, len), AccountTag::EventQueue) {
        Err(_) => check!(false),
        Ok(mut e) => {
            cover(2);
            // two events at the end of the ring, one at its start: the ring has n slots
            e.pop_n(1);
            check!(q.head == n as u64 - 1);
            e.pop_n(1);
            check!((q.head == 0) & (q.count == 1));
            trace(q.head);
        }
    }
}

/// the slots the events of a queue of n really occupy, and the owner information that goes with each
#[inline(never)]
fn queue_slots<const N: usize>() {
    let mut q = QueueMem::<N, Cb>::new(0, any_u64());
    let mut i = 0;
    while i < N {
        q.ev[i] = any_ev();
        q.cbs[i] = [any_cb(), any_cb()];
        i += 1;
    }
    q.head = choose(N) as u64;
    q.count = N as u64;
    let len = EventQueue::<Cb>::compute_allocation_size(N);
    check!(len == std::mem::size_of::<QueueMem<N, Cb>>());
    let h = q.head as usize;
    let (ev, cbs) = (q.ev, q.cbs);
    match EventQueue::<Cb>::from_buffer(bytes(&mut q, len), AccountTag::EventQueue) {
        Err(_) => check!(false),
        Ok(e) => {
            let mut i = 0;
            while i < N {
                let k = (h + i) % N;
                match e.peek_at(i as u64) {
                    Some(r) => check!(crate::h_slab::ev_is(&r, &ev[k], &cbs[k])),
                    None => check!(false),
                }
                i += 1;
            }
            check!(e.peek_at(N as u64).is_none());
            cover(3);
        }
    }
}

/// C26. params: 1 = 0 slab, 1 queue, with owner information of 1, 16, 32 or 40 bytes; 2: queue of 2nd param slots
pub fn sizes() {
    match param(1) {
        0 => match choose(4) {
            0 => slab::<u8>(),
            1 => slab::<Cb>(),
            2 => slab::<[u8; 32]>(),
            _ => slab::<[u64; 5]>(),
        },
        1 => match choose(4) {
            0 => queue::<u8>(),
            1 => queue::<Cb>(),
            2 => queue::<[u8; 32]>(),
            _ => queue::<[u64; 5]>(),
        },
        _ => match param(2) {
            1 => queue_slots::<1>(),
            2 => queue_slots::<2>(),
            5 => queue_slots::<5>(),
            _ => queue_slots::<8>(),
        },
    }
}
