//! C06: decoding arbitrary bytes never panics, hangs or allocates out of proportion; what it accepts is a
//! proper value.
use crate::{common::*, gen::*, sym::*, types::*};
use std::{collections::HashMap, io};
use steit::{de::*, log::LogEntry, rt::*, ser::*, state::*, types::*, wire_fmt::*};

fn decode<T: Serialize + Deserialize>(b: &[u8]) -> Option<T> {
    let mut reader = Reader::new(b);
    match T::deserialize(&mut reader) {
        Ok(v) => {
            check(T::WIRE_TYPE == WireType::Varint || reader.eof().unwrap(), 1);
            Some(v)
        }
        Err(e) => {
            check(e.kind() == io::ErrorKind::InvalidData || e.kind() == io::ErrorKind::UnexpectedEof, 2);
            cover(2);
            None
        }
    }
}

fn total<T: Serialize + Deserialize + PartialEq>(n: u32) {
    let b = any(n + deep());
    if let Some(v) = decode::<T>(&b) {
        let out = v.to_bytes();
        observe(out.len() as u64);
        check(v.compute_size() as usize == out.len(), 3);
        let back = decode::<T>(&out);
        check(back.is_some(), 4);
        check(back.unwrap() == v, 5);
        cover(1);
    }
}

macro_rules! total {
    ($($name:ident $n:literal $type:ty;)*) => { $(#[no_mangle] pub extern "C" fn $name() { total::<$type>($n) })* };
}

total! {
    c06_string 4 String;
    c06_bytes 4 Bytes;
    c06_vec_u8 4 Vec<u8>;
    c06_vec_i64 5 Vec<i64>;
    c06_vec_bool 4 Vec<bool>;
    c06_vec_string 4 Vec<String>;
    c06_vec_vec 5 Vec<Vec<u8>>;
    c06_vec_foo 6 Vec<Foo>;
    c06_opt_u16 4 Option<u16>;
    c06_opt_foo 6 Option<Foo>;
    c06_opt_opt 5 Option<Option<u8>>;
    c06_arr1 4 [u16; 1];
    c06_arr3 4 [u8; 3];
    c06_arr7 4 [u8; 7];
    c06_arr_foo 6 [Foo; 2];
    c06_tup2 5 (u8, Foo);
    c06_tup3 5 (u8, String, bool);
    c06_tup7 9 (u8, bool, u8, bool, u8, bool, u8);
    c06_hash 5 HashMap<u8, u8>;
    c06_hash_str 5 HashMap<String, bool>;
    c06_box_foo 5 Box<Foo>;
    c06_unit 5 Unit;
    c06_foo 6 Foo;
    c06_flat 6 Flat;
    c06_wide 6 Wide;
    c06_act 6 Act;
    c06_msg 5 Msg;
    c06_pair 6 Pair<u8, Vec<Foo>>;
    c06_either 6 Either<u16, Pair<u8, i8>>;
    c06_wrap 6 W<Option<Slim<bool>>>;
    c06_point 6 Point;
    c06_shape 6 Shape;
    c06_world 5 World;
    c06_lean 6 Lean;
    c06_tuple 6 Tuple;
    c06_kind 6 Kind;
    c06_holder 5 Holder;
    c06_tree 6 Tree;
    c06_list_u8 4 List<u8>;
    c06_list_point 6 List<Point>;
    c06_list_list 6 List<List<bool>>;
    c06_map_u8 5 Map<u8, u8>;
    c06_map_u16 6 Map<u16, Point>;
    c06_map_u32 7 Map<u32, bool>;
    c06_map_map 6 Map<u8, Map<u8, u8>>;
    c06_maybe_u8 5 Maybe<u8>;
    c06_maybe_maybe 6 Maybe<Maybe<u8>>;
    c06_maybe_list 6 Maybe<List<u8>>;
}

/// Strings are only ever made of valid UTF-8, and of nothing but what was there.
fn utf8(s: &str) {
    check(std::str::from_utf8(std::hint::black_box(s).as_bytes()).is_ok(), 20);
}
#[no_mangle]
pub extern "C" fn c06_utf8() {
    let b = any(4 + deep());
    match decode::<String>(&b) {
        Some(s) => {
            utf8(&s);
            check(same(s.as_bytes(), &b), 21);
            cover(1);
        }
        None => check(std::str::from_utf8(&b).is_err(), 22),
    }
}
#[no_mangle]
pub extern "C" fn c06_utf8_inner() {
    let b = any(3);
    let n = b.len() as u8;
    let mut e = vec![n];
    e.extend_from_slice(&b);
    match choose(5) {
        0 => if let Some(v) = decode::<Vec<String>>(&e) { utf8(&v[0]); cover(1) },
        1 => if let Some(v) = decode::<Option<String>>(&e) { utf8(v.as_ref().unwrap()) },
        2 => if let Some(v) = decode::<Box<String>>(&b) { utf8(&v) },
        3 => {
            e.push(1);
            if let Some(v) = decode::<HashMap<String, bool>>(&[&[e.len() as u8][..], &e].concat()) {
                for (k, _) in &v {
                    utf8(k);
                }
            }
        }
        _ => {
            e.insert(0, 2);
            let mut v = Msg::new();
            if v.merge(&mut Reader::new(&e[..])).is_ok() {
                utf8(&v.name);
            } else {
                cover(2);
            }
        }
    }
}

/// Keys that came in from the wire are keys of the map's type.
#[no_mangle]
pub extern "C" fn c06_map_keys() {
    let b = any(5);
    if let Some(m) = decode::<Map<u8, u8>>(&b) {
        let mut n = 0;
        for (k, v) in &m {
            check(m.get(&k) == Some(v), 10);
            n += 1;
        }
        check(n == m.len(), 11);
        cover(1);
    }
}

#[no_mangle]
pub extern "C" fn c06_log_entry() {
    let b = any(6);
    if let Some(e) = decode::<LogEntry>(&b) {
        let out = e.to_bytes();
        check(e.compute_size() as usize == out.len(), 12);
        let back = decode::<LogEntry>(&out);
        check(back.is_some(), 13);
        let back = back.unwrap();
        check(same(&back.to_bytes(), &out) && back.kind() == e.kind(), 14);
        cover(1);
    }
}

/// Whatever the declared size of a nested value, only the bytes that are there are used.
#[no_mangle]
pub extern "C" fn c06_nested() {
    let b = any(12 + 8 * deep());
    let mut reader = Reader::new(&b[..]);
    match Vec::<u8>::deserialize_nested(WireType::Sized, &mut reader) {
        Ok(v) => {
            check(v.len() < b.len(), 15);
            cover(1);
        }
        Err(_) => cover(2),
    }
}

#[no_mangle]
pub extern "C" fn c06_skip() {
    let b = any(12 + 8 * deep());
    let mut reader = Reader::new(&b[..]);
    let wire_type = if choose(2) == 0 { WireType::Varint } else { WireType::Sized };
    match reader.skip_field(wire_type) {
        Ok(()) => cover(1),
        Err(e) => {
            check(e.kind() == io::ErrorKind::UnexpectedEof, 16);
            cover(2);
        }
    }
}

#[no_mangle]
pub extern "C" fn c06_tag() {
    let b = any(6);
    match Reader::new(&b[..]).read_tag() {
        Ok((n, _)) => {
            check(n <= FIELD_NUMBER_MAX, 17);
            cover(1);
        }
        Err(_) => cover(2),
    }
}

/// Merging garbage into an existing value leaves a value that can still be written and read.
#[no_mangle]
pub extern "C" fn c06_merge_world() {
    let mut w = World::new(rt());
    world_part(&mut w, choose(9));
    let b = any(3 + deep());
    let r = w.merge(&mut Reader::new(&b[..]));
    let out = w.to_bytes();
    check(out.len() == w.compute_size() as usize, 18);
    check(World::deserialize(&mut Reader::new(&out[..])).unwrap() == w, 19);
    match r {
        Ok(()) => cover(1),
        Err(_) => cover(2),
    }
}
