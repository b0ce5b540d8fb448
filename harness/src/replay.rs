//! Native execution of one harness on the concrete values of a counterexample (or of a sampled path).
//! usage: replay <values-file>
//!   line 1: harness name; line 2: parameters; following lines: one value each
//! exit 0: ran to completion, every check true; 1: a check was false; 2: the code under test panicked;
//! 3: an assumption was false or the values ran out (the file does not describe a path of this build)
use std::sync::atomic::{AtomicUsize, AtomicBool, Ordering::SeqCst};
static mut VALS: Vec<u64> = Vec::new();
static mut PARAMS: Vec<u64> = Vec::new();
static POS: AtomicUsize = AtomicUsize::new(0);
static PANIC_OK: AtomicBool = AtomicBool::new(false);

fn next() -> u64 {
    let p = POS.fetch_add(1, SeqCst);
    unsafe {
        if p >= (*std::ptr::addr_of!(VALS)).len() {
            println!("REPLAY out of values");
            std::process::exit(3);
        }
        (*std::ptr::addr_of!(VALS))[p]
    }
}
#[no_mangle]
pub extern "C" fn __v_u64() -> u64 { next() }
#[no_mangle]
pub extern "C" fn __v_pinned(_v: *const u64, _n: usize) -> u64 { next() }
#[no_mangle]
pub extern "C" fn __v_u32() -> u32 { next() as u32 }
#[no_mangle]
pub extern "C" fn __v_u8() -> u8 { next() as u8 }
#[no_mangle]
pub extern "C" fn __v_bool() -> bool { next() & 1 == 1 }
#[no_mangle]
pub extern "C" fn __v_choose(n: u64) -> u64 {
    let v = next();
    if v >= n {
        println!("REPLAY choice {} out of range {}", v, n);
        std::process::exit(3);
    }
    v
}
#[no_mangle]
pub extern "C" fn __v_assume(c: bool) {
    if !c {
        println!("REPLAY assumption false");
        std::process::exit(3);
    }
}
#[no_mangle]
pub extern "C" fn __v_decide(c: bool) -> bool { c }
#[no_mangle]
pub extern "C" fn __v_check(c: bool, id: u32, file: *const u8, len: usize) {
    if !c {
        let f = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(file, len)) };
        println!("REPLAY check failed at {}:{}", f, id);
        std::process::exit(1);
    }
}
#[no_mangle]
pub extern "C" fn __v_trace(x: u64) { println!("TRACE {}", x); }
#[no_mangle]
pub extern "C" fn __v_cover(id: u32) { println!("COVER {}", id); }
#[no_mangle]
pub extern "C" fn __v_panic_ok(c: bool) { PANIC_OK.store(c, SeqCst); }
#[no_mangle]
pub extern "C" fn __v_param(i: u32) -> u64 { unsafe { (*std::ptr::addr_of!(PARAMS)).get(i as usize).copied().unwrap_or(0) } }

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut solana_program::rent::Rent) = solana_program::rent::Rent::default() };
        0
    }
}

fn main() {
    let f = std::env::args().nth(1).unwrap();
    let s = std::fs::read_to_string(f).unwrap();
    let mut l = s.lines();
    let name = l.next().unwrap().trim().to_string();
    unsafe {
        PARAMS = l.next().unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect();
        VALS = l.filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect();
    }
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    std::panic::set_hook(Box::new(|i| {
        println!("REPLAY panic: {}", i.to_string().replace('\n', " "));
        std::process::exit(if PANIC_OK.load(SeqCst) { 0 } else { 2 });
    }));
    match aobv::harness(&name) {
        Some(h) => h(),
        None => {
            println!("REPLAY no such harness {}", name);
            std::process::exit(3);
        }
    }
    println!("REPLAY ok");
}
