//! Checks shared by several properties.
use crate::{gen::*, sym::*, types::*};
use std::io::Read;
use steit::{de::*, ser::*, wire_fmt::*};

const FIELDS: [u32; 6] = [0, 15, 16, 2047, 2048, FIELD_NUMBER_MAX];

pub fn agree<T: Serialize>(v: &T) {
    let (size, out) = sizes(v);
    nested_sizes(v, size, &out);
    cover(1);
}

/// Every way to ask for the size of a value and to write it, on its own.
pub fn sizes<T: Serialize>(v: &T) -> (usize, Vec<u8>) {
    let size = v.compute_size() as usize;
    let mut out = Vec::new();
    v.steit_serialize(&mut out).unwrap();
    check(out.len() == size, 1);
    check(v.cached_size() as usize == size, 2);
    check(v.cache_size() as usize == size, 3);
    let mut again = Vec::new();
    v.serialize_cached(&mut again).unwrap();
    check(same(&out, &again), 4);
    check(same(&v.to_bytes(), &out), 5);
    observe_bytes(&out);
    (size, out)
}

pub fn nested_sizes<T: Serialize>(v: &T, size: usize, out: &[u8]) {
    // As a list item: size prefix if sized, no tag, never omitted.
    let n = v.compute_size_nested(None, false).unwrap() as usize;
    let mut item = Vec::new();
    v.serialize_nested(None, false, &mut item).unwrap();
    check(item.len() == n, 6);
    check(n >= size && same(&item[n - size..], out), 7);

    // As a field.
    let field = FIELDS[choose(6) as usize];
    let omissible = choose(2) == 1;
    let m = v.compute_size_nested(field, omissible).unwrap() as usize;
    let mut f = Vec::new();
    v.serialize_nested(field, omissible, &mut f).unwrap();
    check(f.len() == m, 8);
    if m == 0 {
        check(omissible, 9);
        check(v.is_omissible(None) && v.is_omissible(Some(size as u32)), 10);
    } else {
        check(m > n && same(&f[m - n..], &item), 11);
        check(m - n == if field < 16 { 1 } else if field < 2048 { 2 } else if field < 1 << 18 { 3 } else { 5 }, 12);
    }
}

pub fn round<T: Serialize + Deserialize + PartialEq>(v: T) {
    let out = v.to_bytes();
    let mut reader = Reader::new(&out[..]);
    let back = T::deserialize(&mut reader);
    check(back.is_ok(), 1);
    let back = back.unwrap();
    check(back == v, 2);
    check(reader.eof().unwrap(), 3);
    // Re-encoding gives the same size (and bytes, unless the type is unordered).
    check(back.compute_size() as usize == out.len(), 4);
    observe(out.len() as u64);
    cover(1);

    // As one of two consecutive items: decoding stops exactly at the end of the item.
    let mut items = Vec::new();
    v.serialize_nested(None, false, &mut items).unwrap();
    items.push(0x5a);
    let mut reader = Reader::new(&items[..]);
    let item = T::deserialize_nested(T::WIRE_TYPE, &mut reader);
    check(item.is_ok(), 5);
    check(item.unwrap() == v, 6);
    let mut rest = Vec::new();
    reader.read_to_end(&mut rest).unwrap();
    check(same(&rest, &[0x5a]), 7);
}

/// As a field of a message with another field behind it.
pub fn field<T: Serialize + Deserialize + PartialEq>(v: T) {
    let w = wrap(v);
    let back = W::<T>::deserialize(&mut Reader::new(&w.to_bytes()[..]));
    check(back.is_ok(), 10);
    let back = back.unwrap();
    check(back.v == w.v, 11);
    check(back.after == w.after, 12);
    cover(2);
}

/// Splits the encoding of a message into its fields with an independent reader.
pub fn walk(b: &[u8]) -> Vec<(u32, u8, Vec<u8>)> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let tag = leb(b, &mut i);
        let (field, wt) = ((tag >> 3) as u32, (tag & 7) as u8);
        let start = i;
        if wt == 0 {
            leb(b, &mut i);
            out.push((field, wt, b[start..i].to_vec()));
        } else {
            check(wt == 2, 90);
            let n = leb(b, &mut i) as usize;
            check(n <= b.len() - i, 91);
            out.push((field, wt, b[i..i + n].to_vec()));
            i += n;
        }
    }
    out
}

pub fn leb(b: &[u8], i: &mut usize) -> u64 {
    let mut v = 0u64;
    let mut shift = 0u32;
    loop {
        check(*i < b.len() && shift < 64, 92);
        let x = b[*i];
        *i += 1;
        v |= ((x & 0x7f) as u64) << shift;
        if x < 128 {
            return v;
        }
        shift += 7;
    }
}

/// The fields of a message, by number: present exactly if expected, with the expected payload.
pub fn fields(b: &[u8], expected: &[(u32, u8, bool, Vec<u8>)]) {
    let got = walk(b);
    let mut n = 0;
    for (field, wt, present, payload) in expected {
        let found = got.iter().find(|g| g.0 == *field);
        check(found.is_some() == *present, 93);
        if let Some(g) = found {
            n += 1;
            check(g.1 == *wt, 94);
            check(same(&g.2, payload), 95);
        }
    }
    check(n == got.len(), 96);
}

pub fn put(out: &mut Vec<u8>, mut v: u64) {
    while v >= 128 {
        out.push(v as u8 & 0x7f | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

/// The same number in `pad` bytes more than needed.
pub fn put_padded(out: &mut Vec<u8>, v: u64, pad: u32) {
    put(out, v);
    for _ in 0..pad {
        let n = out.len();
        out[n - 1] |= 0x80;
        out.push(0);
    }
}

pub fn put_field(out: &mut Vec<u8>, f: &(u32, u8, Vec<u8>)) {
    put(out, (f.0 as u64) << 3 | f.1 as u64);
    if f.1 == 2 {
        put(out, f.2.len() as u64);
    }
    out.extend_from_slice(&f.2);
}
