//! Harnesses: each builds an arbitrary state of the order book program within its stated bounds, runs the real code
//! once, and states a property of the outcome.
#[macro_use]
pub mod v;
pub mod book;
pub mod h_deep;
pub mod h_match;
pub mod h_proc;
pub mod h_size;
pub mod h_route;
pub mod h_slab;
pub mod h_util;
pub mod h_wasm;
pub mod h_wdeep;

macro_rules! harnesses {
    ($($m:ident :: $n:ident),* $(,)?) => {
        $( #[no_mangle] pub extern "C" fn $n() { $m::$n() } )*
        pub fn harness(name: &str) -> Option<fn()> {
            match name {
                $( stringify!($n) => Some($m::$n as fn()), )*
                _ => None,
            }
        }
    };
}

harnesses! {
    h_match::match_small,
    h_match::match_full,
    h_match::match_proc,
    h_match::match_wide,
    h_match::match_ring,
    h_match::self32,
    h_deep::slab_deep,
    h_deep::full_deep,
    h_deep::mass_deep,
    h_deep::consume_deep,
    h_deep::match_sweep,
    h_slab::slab_remove,
    h_slab::slab_read,
    h_slab::queue_ops,
    h_proc::p_cancel,
    h_proc::p_mass_cancel,
    h_proc::p_mass_cancel_total,
    h_proc::p_consume,
    h_proc::p_close,
    h_proc::p_auth,
    h_proc::p_cause,
    h_proc::p_tick,
    h_proc::p_create,
    h_proc::p_bbo,
    h_util::round,
    h_size::sizes,
    h_route::route,
    h_route::unknown,
    h_wasm::reader,
    h_wdeep::reader_deep,
}
