//! Interface to the symbolic executor (engine/main.cpp) and to the native replayer (replay/driver.c).
//!
//! Every function below is undefined in this crate.  Under the executor `sym_u*` returns a fresh
//! solver variable; under the replayer it returns the next value of a recorded assignment.

use std::io;

extern "C" {
    fn sym_u8() -> u8;
    fn sym_u16() -> u16;
    fn sym_u32() -> u32;
    fn sym_u64() -> u64;
    fn sym_choose(n: u32) -> u32;
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, code: u32);
    fn sym_cover(code: u32);
    fn sym_observe(v: u64);
    fn sym_concretize(v: u64) -> u64;
    fn sym_deep() -> u32;
}

pub fn u8_() -> u8 { unsafe { sym_u8() } }
pub fn u16_() -> u16 { unsafe { sym_u16() } }
pub fn u32_() -> u32 { unsafe { sym_u32() } }
pub fn u64_() -> u64 { unsafe { sym_u64() } }
pub fn i8_() -> i8 { u8_() as i8 }
pub fn i16_() -> i16 { u16_() as i16 }
pub fn i32_() -> i32 { u32_() as i32 }
pub fn i64_() -> i64 { u64_() as i64 }
pub fn bool_() -> bool { u8_() & 1 == 1 }
/// A value below `n`; the executor explores one path per value.
pub fn choose(n: u32) -> u32 { unsafe { sym_choose(n) } }
pub fn assume(c: bool) { unsafe { sym_assume(c) } }
pub fn check(c: bool, code: u32) { unsafe { sym_assert(c, code) } }
pub fn cover(code: u32) { unsafe { sym_cover(code) } }
pub fn observe(v: u64) { unsafe { sym_observe(v) } }
pub fn concretize(v: u64) -> u64 { unsafe { sym_concretize(v) } }

/// 0 in the quick tier, 1 in the thorough one; for bounds that grow.
pub fn deep() -> u32 { unsafe { sym_deep() } }

pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(u8_());
    }
    v
}

/// Order-sensitive digest, for differential validation of sampled paths.
pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    for chunk in b[..b.len().min(1000)].chunks(8) {
        let mut w = 0u64;
        for (i, x) in chunk.iter().enumerate() {
            w |= (*x as u64) << (8 * i as u32);
        }
        observe(w);
    }
}

/// Byte-wise equality without a branch per byte, so one solver query decides it.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    if a.len() > 1000 {
        return a == b;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

macro_rules! harness {
    ($($name:ident => $body:block $(;)?)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $body })*
    };
}
