//! Verification primitives. In the symbolic build they are interpreted by rsym; in the native build
//! they replay the concrete values of a solver model against the real code.
#![allow(dead_code)]

#[cfg(feature = "sym")]
mod imp {
    extern "C" {
        fn rs_nd(bits: u32) -> u64;
        fn rs_nd_bytes(p: *mut u8, n: usize);
        fn rs_assume(b: bool);
        fn rs_assert(b: bool, p: *const u8, n: usize);
        fn rs_reach(p: *const u8, n: usize);
        fn rs_expect_panic(x: u32);
        fn rs_observe(x: u64);
        fn rs_crc(p: *const u8, n: usize) -> u32;
        fn rs_pick(x: u64) -> u64;
        fn rs_known(b: bool) -> bool;
        fn rs_surely(b: bool) -> bool;
        fn rs_stop();
    }
    pub fn nd(bits: u32) -> u64 { unsafe { rs_nd(bits) } }
    pub fn nd_bytes(b: &mut [u8]) { unsafe { rs_nd_bytes(b.as_mut_ptr(), b.len()) } }
    pub fn assume(b: bool) { unsafe { rs_assume(b) } }
    pub fn check(b: bool, m: &'static str) { unsafe { rs_assert(b, m.as_ptr(), m.len()) } }
    pub fn reach(m: &'static str) { unsafe { rs_reach(m.as_ptr(), m.len()) } }
    pub fn expect_panic(x: bool) { unsafe { rs_expect_panic(x as u32) } }
    pub fn observe(x: u64) { unsafe { rs_observe(x) } }
    pub fn crc32(b: &[u8]) -> u32 { unsafe { rs_crc(b.as_ptr(), b.len()) } }
    pub fn pick(x: u64) -> u64 { unsafe { rs_pick(x) } }
    pub fn surely(b: bool) -> bool { unsafe { rs_surely(b) } }
    pub fn known(b: bool) -> bool { unsafe { rs_known(b) } }
    pub fn stop() -> ! { unsafe { rs_stop() }; loop {} }
}

#[cfg(not(feature = "sym"))]
pub mod imp {
    use std::cell::RefCell;
    pub struct Rt { pub nd: Vec<u64>, pub pos: usize, pub obs: Vec<u64>, pub viol: Vec<String>, pub expect_panic: bool, pub short: bool }
    thread_local! { pub static RT: RefCell<Rt> = RefCell::new(Rt { nd: vec![], pos: 0, obs: vec![], viol: vec![], expect_panic: false, short: false }); }
    pub struct Pruned;
    pub struct Stopped;
    fn next() -> u64 {
        RT.with(|r| { let mut r = r.borrow_mut(); let p = r.pos; r.pos += 1; if p < r.nd.len() { r.nd[p] } else { r.short = true; 0 } })
    }
    pub fn nd(bits: u32) -> u64 { let v = next(); if bits >= 64 { v } else { v & ((1u64 << bits) - 1) } }
    pub fn nd_bytes(b: &mut [u8]) { for x in b.iter_mut() { *x = next() as u8; } }
    pub fn assume(b: bool) { if !b { std::panic::panic_any(Pruned); } }
    pub fn check(b: bool, m: &'static str) { if !b { RT.with(|r| r.borrow_mut().viol.push(m.to_string())); } }
    pub fn reach(_m: &'static str) {}
    pub fn expect_panic(x: bool) { RT.with(|r| r.borrow_mut().expect_panic = x); }
    pub fn observe(x: u64) { RT.with(|r| r.borrow_mut().obs.push(x)); }
    pub fn crc32(b: &[u8]) -> u32 {
        let mut c = 0xffff_ffffu32;
        for &x in b { c ^= x as u32; for _ in 0..8 { c = if c & 1 == 1 { (c >> 1) ^ 0xedb8_8320 } else { c >> 1 }; } }
        !c
    }
    pub fn pick(x: u64) -> u64 { x }
    pub fn known(b: bool) -> bool { b }
    pub fn surely(b: bool) -> bool { b }
    pub fn stop() -> ! { std::panic::panic_any(Stopped) }
}
/// `known(b)` implies b; in the symbolic build it is true only if b is a constant, so it may only choose between equivalent ways;
/// `surely(b)` is true if b holds for all values of the path
pub use imp::{assume, check, crc32, expect_panic, known, nd, nd_bytes, observe, pick, reach, stop, surely};

pub fn nd_u64() -> u64 { nd(64) }
pub fn nd_u32() -> u32 { nd(32) as u32 }
pub fn nd_u16() -> u16 { nd(16) as u16 }
pub fn nd_u8() -> u8 { nd(8) as u8 }
pub fn nd_bool() -> bool { nd(1) == 1 }
/// value in 0..n
pub fn nd_below(n: u64) -> u64 { let x = nd(64); assume(x < n); x }
pub fn nd_arr<const N: usize>() -> [u8; N] { let mut b = [0u8; N]; nd_bytes(&mut b); b }
