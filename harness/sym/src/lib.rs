//! Harness-side interface to the symbolic executor (engine/exec.py) and to the native replay runtime (symrt).
#![no_std]
mod ffi {
    extern "C" {
        pub fn __sym_f64(p: *const u8, n: usize, lo: f64, hi: f64) -> f64;
        pub fn __sym_f32(p: *const u8, n: usize, lo: f32, hi: f32) -> f32;
        pub fn __sym_i64(p: *const u8, n: usize, lo: i64, hi: i64) -> i64;
        pub fn __sym_u64(p: *const u8, n: usize, lo: u64, hi: u64) -> u64;
        pub fn __sym_bool(p: *const u8, n: usize) -> bool;
        pub fn __sym_unit(p: *const u8, n: usize, out: *mut f64, k: usize);
        pub fn __assume(b: bool);
        pub fn __assume_eq(a: f64, b: f64);
        pub fn __check(b: bool, p: *const u8, n: usize);
        pub fn __check_eq(a: f64, b: f64, p: *const u8, n: usize, scale: f64);
        pub fn __check_le(a: f64, b: f64, p: *const u8, n: usize);
        pub fn __check_lt(a: f64, b: f64, p: *const u8, n: usize);
        pub fn __check_ang(a: f64, b: f64, p: *const u8, n: usize);
        pub fn __check_ieq(a: i64, b: i64, p: *const u8, n: usize);
        pub fn __reach(p: *const u8, n: usize);
        pub fn __panic_ok(b: bool);
        pub fn __split(b: bool) -> bool;
        pub fn __fin(a: f64) -> bool;
    }
}
macro_rules! s { ($n:expr) => { ($n.as_ptr(), $n.len()) } }
/// Any real value.
#[inline(always)] pub fn real(n: &'static str) -> f64 { let (p, l) = s!(n); unsafe { ffi::__sym_f64(p, l, f64::NEG_INFINITY, f64::INFINITY) } }
/// Any real value in [lo, hi].
#[inline(always)] pub fn f(n: &'static str, lo: f64, hi: f64) -> f64 { let (p, l) = s!(n); unsafe { ffi::__sym_f64(p, l, lo, hi) } }
#[inline(always)] pub fn f32v(n: &'static str, lo: f32, hi: f32) -> f32 { let (p, l) = s!(n); unsafe { ffi::__sym_f32(p, l, lo, hi) } }
#[inline(always)] pub fn i(n: &'static str, lo: i64, hi: i64) -> i64 { let (p, l) = s!(n); unsafe { ffi::__sym_i64(p, l, lo, hi) } }
#[inline(always)] pub fn u(n: &'static str, lo: u64, hi: u64) -> u64 { let (p, l) = s!(n); unsafe { ffi::__sym_u64(p, l, lo, hi) } }
#[inline(always)] pub fn b(n: &'static str) -> bool { let (p, l) = s!(n); unsafe { ffi::__sym_bool(p, l) } }
/// K real components whose squares sum to one.
#[inline(always)] pub fn unit<const K: usize>(n: &'static str) -> [f64; K] { let mut o = [0.0; K]; let (p, l) = s!(n); unsafe { ffi::__sym_unit(p, l, o.as_mut_ptr(), K) }; o }
#[inline(always)] pub fn assume(b: bool) { unsafe { ffi::__assume(b) } }
#[inline(always)] pub fn assume_eq(a: f64, b: f64) { unsafe { ffi::__assume_eq(a, b) } }
#[inline(always)] pub fn check(b: bool, n: &'static str) { let (p, l) = s!(n); unsafe { ffi::__check(b, p, l) } }
#[inline(always)] pub fn eq(a: f64, b: f64, n: &'static str) { let (p, l) = s!(n); unsafe { ffi::__check_eq(a, b, p, l, 1.0) } }
/// Equality whose native replay tolerance is relative to `scale`.
#[inline(always)] pub fn eqs(a: f64, b: f64, scale: f64, n: &'static str) { let (p, l) = s!(n); unsafe { ffi::__check_eq(a, b, p, l, scale) } }
#[inline(always)] pub fn le(a: f64, b: f64, n: &'static str) { let (p, l) = s!(n); unsafe { ffi::__check_le(a, b, p, l) } }
#[inline(always)] pub fn lt(a: f64, b: f64, n: &'static str) { let (p, l) = s!(n); unsafe { ffi::__check_lt(a, b, p, l) } }
/// Equality of two angles modulo a full turn.
#[inline(always)] pub fn ang(a: f64, b: f64, n: &'static str) { let (p, l) = s!(n); unsafe { ffi::__check_ang(a, b, p, l) } }
#[inline(always)] pub fn ieq(a: i64, b: i64, n: &'static str) { let (p, l) = s!(n); unsafe { ffi::__check_ieq(a, b, p, l) } }
#[inline(always)] pub fn reach(n: &'static str) { let (p, l) = s!(n); unsafe { ffi::__reach(p, l) } }
#[inline(always)] pub fn panic_ok(b: bool) { unsafe { ffi::__panic_ok(b) } }
/// Forces a case split.
#[inline(always)] pub fn split(b: bool) -> bool { unsafe { ffi::__split(b) } }
/// Neither NaN nor infinite.
#[inline(always)] pub fn fin(a: f64) -> bool { unsafe { ffi::__fin(a) } }
/// Defines harness entry points and the table the replay binary looks them up in.
#[macro_export]
macro_rules! harness {
    ($(fn $n:ident() $b:block)*) => {
        $( #[no_mangle] pub extern "C" fn $n() $b )*
        pub static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}
