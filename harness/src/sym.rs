//! Harness-side interface: under the symbolic executor these are primitives, in the native
//! replay they read a recorded input tape and compare/record results.
mod ffi {
    extern "C-unwind" {
        pub fn sym_u8(max: u8) -> u8;
        pub fn sym_choice(n: u32) -> u32;
        pub fn sym_assume(b: bool);
        pub fn sym_check(b: bool, p: *const u8, n: usize);
        pub fn sym_check_known(b: bool, known: bool, p: *const u8, n: usize, q: *const u8, m: usize);
        pub fn sym_cover(p: *const u8, n: usize);
        pub fn sym_observe(p: *const u8, n: usize);
        pub fn sym_note(p: *const u8, n: usize);
    }
}
/// arbitrary byte in 0..=max
#[inline(always)]
pub fn byte(max: u8) -> u8 {
    unsafe { ffi::sym_u8(max) }
}
/// arbitrary choice in 0..n (the executor explores every alternative)
#[cfg(not(feature = "c25"))]
#[inline(always)]
pub fn choice(n: u32) -> u32 {
    unsafe { ffi::sym_choice(n) }
}
#[cfg(feature = "c25")]
pub fn choice(n: u32) -> u32 {
    let (m, i) = (twins::MODE.get(), twins::AT.get());
    if m == 2 {
        twins::AT.set(i + 1);
        return twins::MADE.with(|v| v[i].get());
    }
    let c = unsafe { ffi::sym_choice(n) };
    if m == 1 {
        twins::MADE.with(|v| v[i].set(c));
        twins::AT.set(i + 1);
    }
    c
}
#[cfg(feature = "c25")]
mod twins {
    use std::cell::Cell;
    thread_local! {
        pub static MODE: Cell<u8> = const { Cell::new(0) };
        pub static AT: Cell<usize> = const { Cell::new(0) };
        pub static MADE: [Cell<u32>; 96] = const { [const { Cell::new(0) }; 96] };
    }
}
/// two results of the same choices: they differ in their arbitrary bytes only
#[cfg(feature = "c25")]
pub fn twin<X>(f: impl Fn() -> X) -> (X, X) {
    twins::AT.set(0);
    twins::MODE.set(1);
    let a = f();
    twins::AT.set(0);
    twins::MODE.set(2);
    let b = f();
    twins::MODE.set(0);
    (a, b)
}
#[inline(always)]
pub fn assume(b: bool) {
    unsafe { ffi::sym_assume(b) }
}
#[inline(always)]
pub fn check(b: bool, l: &str) {
    unsafe { ffi::sym_check(b, l.as_ptr(), l.len()) }
}
/// a check that a listed finding (`finding`) is known to break on the inputs where `known` holds
#[inline(always)]
pub fn check_known(b: bool, known: bool, l: &str, finding: &str) {
    unsafe { ffi::sym_check_known(b, known, l.as_ptr(), l.len(), finding.as_ptr(), finding.len()) }
}
/// reachability witness
#[inline(always)]
pub fn cover(l: &str) {
    unsafe { ffi::sym_cover(l.as_ptr(), l.len()) }
}
/// value compared between the symbolic path (under its model) and the native run
#[inline(always)]
pub fn observe(b: &[u8]) {
    unsafe { ffi::sym_observe(b.as_ptr(), b.len()) }
}
/// input text, for samples
#[inline(always)]
pub fn note(b: &[u8]) {
    unsafe { ffi::sym_note(b.as_ptr(), b.len()) }
}
