//! Interface between the harnesses and whatever executes them: the symbolic executor (which gives every value an
//! arbitrary symbolic term) or the native replay binary (which reads the values of a counterexample from a file).
extern "C" {
    fn __v_u64() -> u64;
    fn __v_pinned(v: *const u64, n: usize) -> u64;
    fn __v_u32() -> u32;
    fn __v_u8() -> u8;
    fn __v_bool() -> bool;
    fn __v_choose(n: u64) -> u64;
    fn __v_assume(c: bool);
    fn __v_check(c: bool, id: u32, file: *const u8, len: usize);
    fn __v_cover(id: u32);
    fn __v_panic_ok(c: bool);
    fn __v_decide(c: bool) -> bool;
    fn __v_param(i: u32) -> u64;
    fn __v_trace(x: u64);
}

#[inline(always)]
pub fn any_u64() -> u64 {
    unsafe { __v_u64() }
}
/// number of witness profiles
pub const NP: usize = 10;
/// An arbitrary u64; the listed values are only where the solver looks first for a witness.
#[inline(always)]
pub fn any_pinned(v: &[u64; NP]) -> u64 {
    unsafe { __v_pinned(v.as_ptr(), NP) }
}
#[inline(always)]
pub fn any_u32() -> u32 {
    unsafe { __v_u32() }
}
#[inline(always)]
pub fn any_u8() -> u8 {
    unsafe { __v_u8() }
}
#[inline(always)]
pub fn any_bool() -> bool {
    unsafe { __v_bool() }
}
/// A value in 0..n, each explored as a separate concrete case.
#[inline(always)]
pub fn choose(n: usize) -> usize {
    unsafe { __v_choose(n as u64) as usize }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { __v_assume(c) }
}
/// Splits the path on c.
#[inline(always)]
pub fn decide(c: bool) -> bool {
    unsafe { __v_decide(c) }
}
#[inline(always)]
pub fn cover(id: u32) {
    unsafe { __v_cover(id) }
}
/// While set, a panic of the code under test ends the path without being a violation.
#[inline(always)]
pub fn panic_ok(c: bool) {
    unsafe { __v_panic_ok(c) }
}
/// Parameters of the run: 0 = number of the property being decided, 1.. = bounds.
#[inline(always)]
pub fn param(i: u32) -> usize {
    unsafe { __v_param(i) as usize }
}
#[inline(always)]
pub fn prop() -> usize {
    param(0)
}
#[inline(always)]
pub fn check_at(c: bool, id: u32, file: &'static str) {
    unsafe { __v_check(c, id, file.as_ptr(), file.len()) }
}
/// An observation compared between the symbolic path and its native replay.
#[inline(always)]
pub fn trace(x: u64) {
    unsafe { __v_trace(x) }
}

#[macro_export]
macro_rules! check {
    ($c:expr) => {
        $crate::v::check_at($c, line!(), file!())
    };
}
