//! Stateless helpers.
use crate::v::*;
use asset_agnostic_orderbook::state::Side;
use asset_agnostic_orderbook::utils::round_price;

/// C25
pub fn round() {
    let tick = any_u64();
    let price = any_u64();
    assume(tick >= 1);
    let bid = choose(2) == 0;
    let r;
    if bid {
        r = round_price(tick, price, Side::Bid);
        check!(r <= price);
        check!(price - r < tick);
    } else {
        // a multiple at or above the price exists below 2^64
        assume(tick * (u64::MAX / tick) >= price);
        r = round_price(tick, price, Side::Ask);
        check!(r >= price);
        check!(r - price < tick);
    }
    check!(r % tick == 0);
    cover(bid as u32);
}
