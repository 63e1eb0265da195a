//! C09: tags carry field number and wire type without loss, for every field number.
use crate::{common::*, gen::*, sym::*, types::*};
use std::{collections::HashMap, io};
use steit::{de::*, log::LogEntry, rt::*, ser::*, state::*, types::*, wire_fmt::*};

fn wire(t: WireType) -> u32 {
    match t {
        WireType::Varint => 0,
        WireType::Sized => 2,
    }
}

#[no_mangle]
pub extern "C" fn c09_parse() {
    let t = u32_();
    match parse_tag(t) {
        Ok((n, w)) => {
            check(n == t >> 3 && wire(w) == t & 7, 1);
            check(n <= FIELD_NUMBER_MAX && validate_field_number(n).is_ok(), 2);
            cover(1);
        }
        Err(e) => {
            check(t & 7 != 0 && t & 7 != 2 && e.kind() == io::ErrorKind::InvalidData, 3);
            cover(2);
        }
    }
}
#[no_mangle]
pub extern "C" fn c09_validate() {
    let n = u32_();
    check(validate_field_number(n).is_ok() == (n < 1 << 29), 4);
    check(FIELD_NUMBER_MAX == (1 << 29) - 1, 5);
    cover(1);
    cover(2);
}
#[no_mangle]
pub extern "C" fn c09_wire_value() {
    let b = u32_();
    match WireType::from_value(b) {
        Ok(w) => {
            check(wire(w) == b, 6);
            cover(1);
        }
        Err(e) => {
            check(b != 0 && b != 2 && e.kind() == io::ErrorKind::InvalidData, 7);
            cover(2);
        }
    }
}
/// What is read is what the shortest encoding of any tag says.
#[no_mangle]
pub extern "C" fn c09_read() {
    let t = u32_();
    let mut b = Vec::new();
    put_padded(&mut b, t as u64, choose(3));
    match Reader::new(&b[..]).read_tag() {
        Ok((n, w)) => {
            check(n == t >> 3 && wire(w) == t & 7, 8);
            cover(1);
        }
        Err(_) => {
            check(t & 7 != 0 && t & 7 != 2, 9);
            cover(2);
        }
    }
}
fn written<T: Serialize>(v: T, w: u32) {
    let n = u32_();
    assume(n <= FIELD_NUMBER_MAX);
    let mut out = Vec::new();
    v.cache_size();
    v.serialize_nested(n, false, &mut out).unwrap();
    check(v.compute_size_nested(n, false).unwrap() as usize == out.len(), 10);
    let mut i = 0;
    let t = leb(&out, &mut i);
    check(t == (n as u64) << 3 | w as u64, 11);
    let mut e = Vec::new();
    put(&mut e, t);
    check(same(&out[..i], &e), 12);
    let value = v.to_bytes();
    let at = i;
    if w == 2 {
        check(leb(&out, &mut i) as usize == value.len(), 13);
    }
    check(at < out.len() && same(&out[i..], &value), 14);
    cover(1);
    cover(2);
}
macro_rules! written {
    ($($name:ident $w:literal $e:expr;)*) => { $(#[no_mangle] pub extern "C" fn $name() { written($e, $w) })* };
}
written! {
    c09_write_u8 0 u8_();
    c09_write_i64 0 t16() as i64;
    c09_write_bool 0 bool_();
    c09_write_string 2 string(1);
    c09_write_bytes 2 Bytes::from_raw(any(1));
    c09_write_foo 2 foo();
    c09_write_act 2 Act::new_unit();
    c09_write_vec 2 vec_of(1, u8_);
    c09_write_option 2 opt(u8_);
    c09_write_box 0 Box::new(u8_());
    c09_write_point 2 small_point();
    c09_write_list 2 list(1, u8_);
    c09_write_map 2 map_u8(1, z8);
    c09_write_maybe 2 maybe(z8);
    c09_write_entry 2 rt().entry_list_pop();
}
/// Numbers that are no field numbers are refused, not truncated.
#[no_mangle]
pub extern "C" fn c09_refused() {
    let n = u32_();
    let (x, mut out) = (t8(), Vec::new());
    let size = x.compute_size_nested(n, false);
    let written = x.serialize_nested(n, false, &mut out);
    check(size.is_ok() == (n <= FIELD_NUMBER_MAX), 15);
    check(written.is_ok() == (n <= FIELD_NUMBER_MAX), 16);
    if n <= FIELD_NUMBER_MAX {
        cover(1);
    } else {
        check(out.is_empty(), 17);
        cover(2);
    }
}
/// The wire type of every kind of value is fixed: numbers are varints, all the rest is sized.
#[no_mangle]
pub extern "C" fn c09_types() {
    let mut n = 0;
    macro_rules! is { ($w:ident $($t:ty),* $(,)?) => { $(check(<$t>::WIRE_TYPE == WireType::$w, 20); n += 1;)* } }
    is!(Varint u8, u16, u32, u64, i8, i16, i32, i64, bool, Box<u8>, Box<bool>);
    is!(Sized String, Bytes, Vec<u8>, Vec<String>, Option<u8>, Option<Foo>, [u8; 3], (u8, u8), (u8, u8, u8), Box<Foo>,
        HashMap<u8, u8>, Foo, Flat, Act, Unit, Pair<u8, u8>, Either<u8, u8>, Point, Shape, List<u8>, Map<u8, u8>,
        Maybe<u8>, LogEntry);
    check(n == 34, 21);
    check(u8_().wire_type() == WireType::Varint && string(1).wire_type() == WireType::Sized, 22);
    cover(1);
    cover(2);
}
