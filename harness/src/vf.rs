//! Interface to the symbolic executor (and, on replay, to the native driver).
#![allow(dead_code)]
mod ffi {
    extern "C" {
        pub fn vf_f64(lo: f64, hi: f64) -> f64;
        pub fn vf_u64(lo: u64, hi: u64) -> u64;
        pub fn vf_bool() -> bool;
        pub fn vf_choice(n: u64) -> u64;
        pub fn vf_assume(c: bool);
        pub fn vf_check(c: bool, p: *const u8, l: usize);
        pub fn vf_close(a: f64, b: f64, p: *const u8, l: usize);
        pub fn vf_le(a: f64, b: f64, p: *const u8, l: usize);
        pub fn vf_cover(p: *const u8, l: usize);
        pub fn vf_allow_panic(a: u64);
        pub fn vf_flags(a: u64);
        pub fn vf_limit(w: u64, v: u64);
        pub fn vf_pick(a: u64) -> u64;
        pub fn vf_is_concrete(a: u64) -> bool;
        pub fn vf_debug(a: u64);
        pub fn vf_across(w: *const u64, k: u64, p: *const u8, l: usize);
    }
}
/// any finite f64 in [lo, hi]
pub fn f64_in(lo: f64, hi: f64) -> f64 { unsafe { ffi::vf_f64(lo, hi) } }
/// any u64 in [lo, hi]
pub fn u64_in(lo: u64, hi: u64) -> u64 { unsafe { ffi::vf_u64(lo, hi) } }
pub fn any_bool() -> bool { unsafe { ffi::vf_bool() } }
/// one of 0..n, each explored separately
pub fn choice(n: u64) -> u64 { unsafe { ffi::vf_choice(n) } }
pub fn assume(c: bool) { unsafe { ffi::vf_assume(c) } }
pub fn check(c: bool, m: &str) { unsafe { ffi::vf_check(c, m.as_ptr(), m.len()) } }
/// equal up to rounding
pub fn close(a: f64, b: f64, m: &str) { unsafe { ffi::vf_close(a, b, m.as_ptr(), m.len()) } }
/// a <= b up to rounding
pub fn le(a: f64, b: f64, m: &str) { unsafe { ffi::vf_le(a, b, m.as_ptr(), m.len()) } }
/// bit-equal (as values; NaN equals NaN)
pub fn same(a: f64, b: f64, m: &str) { check((a == b) | ((a != a) & (b != b)), m) }
pub fn cover(m: &str) { unsafe { ffi::vf_cover(m.as_ptr(), m.len()) } }
pub fn allow_panic(a: bool) { unsafe { ffi::vf_allow_panic(a as u64) } }
/// prune infeasible branches over linear real arithmetic as well
pub const LIN: u64 = 1;
pub const NOFP: u64 = 2;
/// integer arithmetic is decided over the integers first
pub const INT: u64 = 8;
pub fn flags(a: u64) { unsafe { ffi::vf_flags(a) } }
pub fn max_rng(n: u64) { unsafe { ffi::vf_limit(0, n) } }
/// random draws follow one fixed stream per seed
pub fn pinned_rng() { unsafe { ffi::vf_limit(2, 1) } }
/// mode: 0 UF, 1 LIN, 2 NRA, 3 FP
pub fn mode_timeout(mode: u64, ms: u64) { unsafe { ffi::vf_limit(10 + mode, ms) } }
/// explores every feasible value of v
pub fn pick(v: u64) -> u64 { unsafe { ffi::vf_pick(v) } }
pub fn debug(v: u64) { unsafe { ffi::vf_debug(v) } }
pub fn debugf(v: f64) { unsafe { ffi::vf_debug(v.to_bits()) } }
/// the same words come out of another process (other hash keys, other parallel schedule) given the same inputs
pub fn across(w: &[u64], m: &str) { unsafe { ffi::vf_across(w.as_ptr(), w.len() as u64, m.as_ptr(), m.len()) } }
