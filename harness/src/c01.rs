//! C01: integers and booleans on the wire.
use crate::sym::*;
use std::io::Read;
use steit::{de::*, ser::*, wire_fmt::*};

/// Reference encoder: shortest little-endian base-128.
fn leb(mut v: u64) -> Vec<u8> {
    let mut out = Vec::new();
    while v >= 128 {
        out.push((v % 128) as u8 + 128);
        v /= 128;
    }
    out.push(v as u8);
    out
}

fn zigzag(v: i64) -> u64 {
    if v < 0 { (!(v as u64)) * 2 + 1 } else { (v as u64) * 2 }
}

fn zagzig(v: u64) -> i64 {
    if v % 2 == 1 { !((v / 2) as i64) } else { (v / 2) as i64 }
}

fn encode<T: Serialize + Deserialize + PartialEq + Copy>(v: T, wire: u64) {
    let expected = leb(wire);
    let mut out = Vec::new();
    v.steit_serialize(&mut out).unwrap();
    check(same(&out, &expected), 1);
    check(v.compute_size() as usize == expected.len(), 2);
    check(v.cache_size() as usize == expected.len(), 3);
    check(v.cached_size() as usize == expected.len(), 4);
    check(T::WIRE_TYPE == WireType::Varint, 5);
    let mut cached = Vec::new();
    v.serialize_cached(&mut cached).unwrap();
    check(same(&cached, &expected), 6);
    observe_bytes(&out);

    // Two values back to back: each decode consumes exactly its own bytes.
    out.push(0xa5);
    let mut reader = Reader::new(&out[..]);
    let back = T::deserialize(&mut reader);
    check(back.is_ok(), 7);
    check(back.unwrap() == v, 8);
    let mut rest = Vec::new();
    reader.read_to_end(&mut rest).unwrap();
    check(same(&rest, &[0xa5]), 9);
    cover(1);
}

/// Any encoding of up to `n` bytes, including non-shortest ones, means the same as under the
/// reference; the encoding of values too wide for the type is left open, except that decoding
/// must not crash.
fn decode<T: Deserialize + PartialEq + Copy>(n: usize, fits: fn(u64) -> bool, conv: fn(u64) -> T) {
    let len = 1 + choose(n as u32) as usize;
    let mut b = bytes(len);
    let mut wire = 0u64;
    let mut wide = false;
    for i in 0..len {
        if i + 1 < len {
            b[i] |= 0x80;
        } else {
            b[i] &= 0x7f;
        }
        let low = (b[i] & 0x7f) as u64;
        if i < 9 {
            wire |= low << (7 * i as u32);
        } else if i == 9 {
            wire |= low << 63;
            wide |= low > 1;
        } else {
            wide |= low != 0;
        }
    }
    let mut reader = Reader::new(&b[..]);
    let got = T::deserialize(&mut reader);
    if wide || !fits(wire) {
        cover(3);
        return;
    }
    check(got.is_ok(), 20);
    check(got.unwrap() == conv(wire), 21);
    check(reader.eof().unwrap(), 22);
    cover(2);
}

/// A varint cut before its last byte is an error.
fn cut<T: Deserialize + PartialEq + Copy>(n: usize) {
    let len = choose(n as u32 + 1) as usize;
    let mut b = bytes(len);
    for x in b.iter_mut() {
        *x |= 0x80;
    }
    check(T::deserialize(&mut Reader::new(&b[..])).is_err(), 30);
    cover(4);
}

macro_rules! ints {
    ($($enc:ident $dec:ident $t:ty, $any:expr, $wire:expr, $fits:expr, $conv:expr;)*) => {
        $(
            #[no_mangle] pub extern "C" fn $enc() { let v: $t = $any; encode(v, $wire(v)); }
            #[no_mangle] pub extern "C" fn $dec() {
                if choose(2) == 0 { decode::<$t>(10, $fits, $conv) } else { cut::<$t>(10) }
            }
        )*
    };
}

ints! {
    c01_enc_u8 c01_dec_u8 u8, u8_(), |v: u8| v as u64, |w| w <= 0xff, |w| w as u8;
    c01_enc_u16 c01_dec_u16 u16, u16_(), |v: u16| v as u64, |w| w <= 0xffff, |w| w as u16;
    c01_enc_u32 c01_dec_u32 u32, u32_(), |v: u32| v as u64, |w| w <= 0xffff_ffff, |w| w as u32;
    c01_enc_u64 c01_dec_u64 u64, u64_(), |v: u64| v, |_| true, |w| w;
    c01_enc_i8 c01_dec_i8 i8, i8_(), |v: i8| zigzag(v as i64), |w| w <= 0xff, |w| zagzig(w) as i8;
    c01_enc_i16 c01_dec_i16 i16, i16_(), |v: i16| zigzag(v as i64), |w| w <= 0xffff, |w| zagzig(w) as i16;
    c01_enc_i32 c01_dec_i32 i32, i32_(), |v: i32| zigzag(v as i64), |w| w <= 0xffff_ffff, |w| zagzig(w) as i32;
    c01_enc_i64 c01_dec_i64 i64, i64_(), |v: i64| zigzag(v), |_| true, |w| zagzig(w);
    c01_enc_bool c01_dec_bool bool, bool_(), |v: bool| v as u64, |_| true, |w| w != 0;
}
