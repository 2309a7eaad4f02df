//! Primitives the engine interprets (natively: src/bin/replay.rs).
mod ext {
    extern "C" {
        pub fn vp_sym(p: *mut u8, n: usize);
        pub fn vp_assert(c: bool, id: u32);
        pub fn vp_assume(c: bool);
        pub fn vp_cover(id: u32);
        pub fn vp_covers(n: u32);
        pub fn vp_conc(x: u64) -> u64;
        pub fn vp_trace(x: u64);
        pub fn vp_scale(small: u64, big: u64) -> u64;
        pub fn vp_draws(arbitrary: u64, pattern: u8);
    }
}

#[inline(always)]
pub fn fill(b: &mut [u8]) {
    unsafe { ext::vp_sym(b.as_mut_ptr(), b.len()) }
}
/// N arbitrary bytes
#[inline(always)]
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}
/// a vector of n arbitrary bytes (n concrete)
pub fn vec(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    fill(&mut b);
    b
}
#[inline(always)]
pub fn u8() -> u8 {
    bytes::<1>()[0]
}
#[inline(always)]
pub fn u16() -> u16 {
    u16::from_le_bytes(bytes())
}
#[inline(always)]
pub fn u32() -> u32 {
    u32::from_le_bytes(bytes())
}
#[inline(always)]
pub fn u64() -> u64 {
    u64::from_le_bytes(bytes())
}
#[inline(always)]
pub fn usize() -> usize {
    u64() as usize
}
#[inline(always)]
pub fn i64() -> i64 {
    u64() as i64
}
/// arbitrary boolean (not forked until it is used)
#[inline(always)]
pub fn boolean() -> bool {
    let b = u8();
    assume(b < 2);
    b != 0
}
/// one of 0..n: a separate path for each
pub fn pick(n: u8) -> usize {
    let b = u8();
    assume(b < n);
    conc(b as u64) as usize
}
/// every value lo..=hi: a separate path for each
pub fn range(lo: usize, hi: usize) -> usize {
    lo + pick((hi - lo + 1) as u8)
}
#[inline(always)]
pub fn conc(x: u64) -> u64 {
    unsafe { ext::vp_conc(x) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { ext::vp_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, line: u32) {
    unsafe { ext::vp_assert(c, line) }
}
#[inline(always)]
pub fn cover(id: u32) {
    unsafe { ext::vp_cover(id) }
}
#[inline(always)]
pub fn covers(n: u32) {
    unsafe { ext::vp_covers(n) }
}

/// the property's assertions; the source line identifies them
#[macro_export]
macro_rules! chk {
    ($c:expr) => {
        $crate::vp::check($c, line!())
    };
}

/// declares the entry points of a module
#[macro_export]
macro_rules! harnesses {
    ($($name:ident => $body:expr;)*) => {
        $(
            #[no_mangle]
            pub extern "C" fn $name() { $body }
        )*
        pub static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name as extern "C" fn()),)*];
    };
}

/// a value that a native run of the same path must show as well
#[inline(always)]
pub fn trace(x: u64) {
    unsafe { ext::vp_trace(x) }
}
/// a digest of bytes, for `trace`
pub fn digest(b: &[u8]) -> u64 {
    let mut h = b.len() as u64;
    for c in b {
        h = (h << 5) ^ (h >> 59) ^ *c as u64;
    }
    h
}

/// `small` in the engine, whose limits are small; `big` when a violation found
/// with it is reproduced against the limits of a native run
#[inline(always)]
pub fn scale(small: usize, big: usize) -> usize {
    unsafe { ext::vp_scale(small as u64, big as u64) as usize }
}

/// from now on only the outcome number `arbitrary` of the random source is
/// arbitrary; the others are the least (1), the greatest (2) or a fixed
/// sequence (3)
pub fn draws(arbitrary: usize, pattern: usize) {
    unsafe { ext::vp_draws(arbitrary as u64, pattern as u8) }
}
