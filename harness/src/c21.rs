//! C21: what is left of an encoding that was cut off is refused, or is what its complete fields say.
use crate::{common::*, gen::*, ops::*, sym::*, types::*};
use std::{collections::HashMap, io::ErrorKind};
use steit::{de::*, log::LogEntry, rt::*, ser::*, state::*, types::*, wire_fmt::*};

fn read<T: Deserialize>(b: &[u8]) -> Option<T> {
    match T::deserialize(&mut Reader::new(b)) {
        Ok(v) => Some(v),
        Err(e) => {
            check(refusal(e), 1);
            None
        }
    }
}

/// Text may be cut inside a character, which is found first.
fn refusal(e: std::io::Error) -> bool {
    e.kind() == ErrorKind::UnexpectedEof || e.kind() == ErrorKind::InvalidData
}

fn cut(n: usize) -> usize {
    choose(n as u32) as usize
}

/// A sized or numeric value, as an item: every proper prefix is refused.
fn item<T: Serialize + Deserialize>(v: T) {
    let mut out = Vec::new();
    v.cache_size();
    v.serialize_nested(None, false, &mut out).unwrap();
    let k = cut(out.len());
    let r = T::deserialize_nested(T::WIRE_TYPE, &mut Reader::new(&out[..k]));
    check(r.is_err(), 2);
    check(refusal(r.err().unwrap()), 3);
    cover(1);

    // Behind other complete fields, too; the field cut off may be one nobody knows.
    let mut msg = Vec::new();
    put(&mut msg, (2 << 3) | 0);
    put(&mut msg, 7);
    let start = msg.len();
    let known = choose(2) == 1;
    v.serialize_nested(if known { 1 } else { 9 }, false, &mut msg).unwrap();
    let k = start + k + choose(2) as usize;
    match W::<T2<T>>::deserialize(&mut Reader::new(&msg[..k])) {
        Ok(w) => {
            check(k == start, 4);
            check(w.after == 7, 5);
        }
        Err(e) => check(k > start && refusal(e), 6),
    }
}

/// `T` with the equality that `W` asks for.
struct T2<T>(T);
impl<T> PartialEq for T2<T> { fn eq(&self, _: &Self) -> bool { true } }
impl<T> Clone for T2<T> { fn clone(&self) -> Self { unreachable!() } }
impl<T> std::fmt::Debug for T2<T> { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl<T: Default> Default for T2<T> { fn default() -> Self { T2(T::default()) } }
impl<T: HasWireType> HasWireType for T2<T> { const WIRE_TYPE: WireType = T::WIRE_TYPE; }
impl<T: Serialize> Serialize for T2<T> {
    fn compute_size(&self) -> u32 { self.0.compute_size() }
    fn serialize_cached(&self, w: &mut impl std::io::Write) -> std::io::Result<()> { self.0.serialize_cached(w) }
    fn size_cache(&self) -> Option<&SizeCache> { self.0.size_cache() }
}
impl<T: Deserialize> Deserialize for T2<T> {
    fn merge(&mut self, r: &mut Reader<impl std::io::Read>) -> std::io::Result<()> { self.0.merge(r) }
}

/// A message: the prefix is accepted exactly at the end of a field, as the message of those fields.
/// `part` gives the encoding of the message with the fields numbered below the given ones only.
fn message<T: Serialize + Deserialize + PartialEq>(v: T, without: impl Fn(&mut T, u32)) {
    let out = v.to_bytes();
    // Ends of fields, and their numbers.
    let mut ends = vec![0];
    let mut numbers = Vec::new();
    for f in walk(&out) {
        let mut b = Vec::new();
        put_field(&mut b, &f);
        ends.push(ends[ends.len() - 1] + b.len());
        numbers.push(f.0);
    }
    check(ends[ends.len() - 1] == out.len(), 10);
    let k = cut(out.len() + 1);
    match (read::<T>(&out[..k]), ends.iter().position(|e| *e == k)) {
        (Some(got), Some(n)) => {
            let mut want = v;
            for f in &numbers[n..] {
                without(&mut want, *f);
            }
            check(got == want, 11);
            cover(1);
        }
        (None, None) => cover(2),
        _ => check(false, 12),
    }
}

/// A collection of items: the prefix is accepted exactly at the end of an item.
fn items<T: Serialize + Deserialize, V: Serialize>(v: T, parts: &[V], len: impl Fn(&T) -> usize) {
    let out = v.to_bytes();
    let mut ends = vec![0];
    let mut b = Vec::new();
    for p in parts {
        p.cache_size();
        p.serialize_nested(None, false, &mut b).unwrap();
        ends.push(b.len());
    }
    check(same(&b, &out), 20);
    let k = cut(out.len() + 1);
    match (read::<T>(&out[..k]), ends.iter().position(|e| *e == k)) {
        (Some(got), Some(n)) => {
            check(len(&got) == n, 21);
            check(same(&got.to_bytes(), &out[..k]), 22);
            cover(1);
        }
        (None, None) => cover(2),
        _ => check(false, 23),
    }
}

fn thin_foo() -> Foo {
    let mut f = Foo::new();
    f.0 = t8();
    f
}

harness! {
    c21_item_u32 => { item(u32_()) }
    c21_item_i64 => { item(i64_()) }
    c21_item_bool => { item(bool_()) }
    c21_item_string => { item(ascii(choose(4) as usize)) }
    c21_item_text => { item(string(2)) }
    c21_item_long => { item(long_bytes_thin()) }
    c21_item_bytes => { item(Bytes::from_raw(any(3))) }
    c21_item_vec => { item(vec_of(2, u16_)) }
    c21_item_vec_foo => { item(vec_of(2, thin_foo)) }
    c21_item_opt => { item(opt(u16_)) }
    c21_item_opt_opt => { item(opt(|| opt(thin_foo))) }
    c21_item_arr => { item([u16_(), 1]) }
    c21_item_kind => { item(thin_kind()) }
    c21_item_tup => { item((t8(), ascii(2))) }
    c21_item_foo => { item(foo()) }
    c21_item_act => { item(act_thin()) }
    c21_item_hash => { let mut m = HashMap::new(); m.insert(t8(), ascii(1)); item(m) }
    c21_item_list => { item(list(2, small_point)) }
    c21_item_map => { item(Map::from_iter(rt(), vec![(z8(), thin_point())])) }
    c21_item_maybe => { item(maybe(thin_point)) }
    c21_item_shape => { item(thin_shape()) }
    c21_item_entry => { item(entry(2, 1)) }

    c21_foo => { message(foo(), |v, f| if f == 0 { v.0 = 0 } else { v.1 = 0 }) }
    c21_flat => { message(flat(), |v, f| match f { 0 => v.a = 0, 15 => v.b = 0, 16 => v.c = false, 2047 => v.d = 0, 2048 => v.e = 0, _ => v.f = 0 }) }
    c21_wide => { message(wide(), |v, f| match f { 1 => v.a = 0, 2 => v.b = 0, 3 => v.c = 0, _ => v.d = 0 }) }
    c21_msg => {
        let mut v = msg(choose(8));
        v.act = thin_act();
        message(v, |v, f| match f {
            0 => v.name.clear(), 1 => v.nums.clear(), 2 => v.opt = None, 3 => v.arr = [0; 2], 4 => v.tup = (0, false),
            5 => v.raw = Bytes::default(), 6 => *v.boxed = Foo::new(), 7 => v.foos.clear(), 8 => v.map.clear(), _ => v.act = Act::new_unit(),
        })
    }
    c21_point => { message(point(), |v, f| if f == 0 { v.x = 0 } else { v.y = 0 }) }
    c21_world => {
        let mut w = World::new(rt());
        match choose(6) {
            0 => w.id = u16_(),
            1 => w.pts = list(2, thin_point),
            2 => w.map = Map::from_iter(rt(), vec![(t8(), thin_shape())]),
            3 => w.opt = maybe(thin_point),
            4 => w.note = ascii(2),
            _ => w.nums = list(2, u8_),
        }
        w.at = small_point();
        w.shape = thin_shape();
        message(w, |w, f| match f {
            0 => w.id = 0, 1 => w.at = Point::new(rt()), 2 => w.pts = List::new(rt()), 3 => w.map = Map::new(rt()),
            4 => w.opt = Maybe::none(rt()), 5 => *w.boxed = Point::new(rt()), 6 => w.nums = List::new(rt()),
            7 => w.note.clear(), _ => w.shape = Shape::new_empty(rt()),
        })
    }
    c21_tree => {
        let mut t = leaf();
        t.kids = List::from_iter(rt(), vec![leaf()]);
        t.named = Map::from_iter(rt(), vec![(t8() as u16, leaf())]);
        message(t, |t, f| match f { 0 => t.v = 0, 1 => t.kids = List::new(rt()), _ => t.named = Map::new(rt()) })
    }
    c21_map => {
        let (a, b, c) = (t8(), t8(), t8());
        assume(a < 16 && b < 16 && a != b);
        let v = Map::from_iter(rt(), vec![(a, c), (b, 1)]);
        message(v, |v, f| { v.remove(&(f as u8)); })
    }

    c21_vec => { let v = vec_of(3, u16_); items(v.clone(), &v, |v| v.len()) }
    c21_vec_string => { let v = vec![ascii(2), ascii(1)]; items(v.clone(), &v, |v| v.len()) }
    c21_vec_foo => { let v = vec_of(2, thin_foo); items(v.clone(), &v, |v| v.len()) }
    c21_list => { let v = vec_of(2, small_point); items(List::from_iter(rt(), v.clone()), &v, |v: &List<Point>| v.len()) }
    c21_list_list => { let v = vec_of(2, || list(2, u8_)); items(List::from_iter(rt(), v.clone()), &v, |v: &List<List<u8>>| v.len()) }

    // Tuples and entries of maps need all their parts; arrays take leading items.
    c21_fixed => {
        let t = (t8(), ascii(2), bool_());
        let out = t.to_bytes();
        check(read::<(u8, String, bool)>(&out[..cut(out.len())]).is_none(), 30);
        let a = [u16_(), u16_()];
        let out = a.to_bytes();
        let k = cut(out.len() + 1);
        let end = [0, a[..1].to_vec().to_bytes().len(), out.len()];
        match (read::<[u16; 2]>(&out[..k]), end.iter().position(|e| *e == k)) {
            (Some(got), Some(n)) => check((n < 1 || got[0] == a[0]) && (n < 2 || got[1] == a[1]) && (n > 0 || got[0] == 0) && (n > 1 || got[1] == 0), 31),
            (None, None) => (),
            _ => check(false, 29),
        }
        cover(1);
    }
    c21_hash => {
        let mut m = HashMap::new();
        m.insert(t8(), ascii(2));
        let out = m.to_bytes();
        let k = cut(out.len() + 1);
        match read::<HashMap<u8, String>>(&out[..k]) {
            Some(got) => {
                check(k == 0 || k == out.len(), 32);
                check(if k == 0 { got.is_empty() } else { got == m }, 33);
                cover(1);
            }
            None => cover(2),
        }
    }
    // Strings: never a broken character.
    c21_string => {
        let s = string(2);
        let out = s.to_bytes();
        let k = cut(out.len() + 1);
        match read::<String>(&out[..k]) {
            Some(got) => {
                check(s.is_char_boundary(k), 34);
                check(same(got.as_bytes(), &out[..k]), 35);
                cover(1);
            }
            None => { check(!s.is_char_boundary(k), 36); cover(2); }
        }
    }
    // Enums: the variant is needed.
    c21_enum => {
        let v = act_thin();
        let out = v.to_bytes();
        let k = cut(out.len() + 1);
        match read::<Act>(&out[..k]) {
            Some(got) => {
                if k == out.len() { check(got == v, 37); }
                check(k > 0, 38);
                cover(1);
            }
            None => { check(k < out.len(), 39); cover(2); }
        }
    }
    c21_opt => {
        let v = opt(u16_);
        let out = v.to_bytes();
        let k = cut(out.len() + 1);
        match read::<Option<u16>>(&out[..k]) {
            Some(got) => { check(if k == 0 { got.is_none() } else { k == out.len() && got == v }, 40); cover(1); }
            None => { check(k > 0 && k < out.len(), 41); cover(2); }
        }
    }

    // A log cut off in the middle: exactly its complete entries take effect.
    c21_log => {
        let (base, log) = logged();
        let mut w = World::new(base);
        let mut states = vec![w.clone()];
        let mut ends = vec![0];
        let mut data = Vec::new();
        for _ in 0..2 + deep() {
            match choose(7) {
                0 => { w.set_id(u16_()); }
                1 => { w.pts.push(thin_point()); }
                2 => { w.map.insert(t8(), thin_shape()); }
                3 => { w.nums.push(t8()); }
                4 => { w.pts.pop(); }
                5 => { w.map.remove(&5); }
                _ => { w.shape.set_rect_a(t8()); }
            }
            let b = take(&log);
            for e in entries(&b) {
                data.extend_from_slice(e);
                ends.push(data.len());
                let mut last = states[states.len() - 1].clone();
                last.replay(&mut Reader::new(e)).unwrap();
                states.push(last);
            }
        }
        check(states[states.len() - 1] == w, 50);
        let k = cut(data.len() + 1);
        let n = ends.iter().filter(|e| **e <= k).count() - 1;
        let mut v = World::new(rt());
        let r = v.replay(&mut Reader::new(&data[..k]));
        check(r.is_ok() == (ends[n] == k), 51);
        if let Err(e) = r {
            check(e.kind() == ErrorKind::UnexpectedEof, 52);
            cover(2);
        }
        check(v == states[n], 53);
        cover(1);
    }
    c21_large => {
        let n = [4096, 9000, 70000][choose(3) as usize];
        let v = Bytes::from_raw(vec![u8_(); n]);
        let mut data = Vec::new();
        v.cache_size();
        v.serialize_nested(if choose(2) == 0 { 1 } else { 9 }, false, &mut data).unwrap();
        let lost = [1, 2, 807, 808, 809, 4000, 4095, 4096][choose(8) as usize];
        let r = W::<Bytes>::deserialize(&mut Reader::new(&data[..data.len() - lost]));
        check(r.is_err(), 70);
        check(refusal(r.err().unwrap()), 71);
        cover(1);
    }
}

/// The entries of a log.
fn entries(b: &[u8]) -> Vec<&[u8]> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let start = i;
        let n = leb(b, &mut i) as usize;
        i += n;
        check(i <= b.len(), 93);
        v.push(&b[start..i]);
    }
    v
}

fn long_bytes_thin() -> Bytes {
    let mut v = vec![u8_(); [126, 127, 128, 129][choose(4) as usize]];
    let n = v.len();
    v[n - 1] = u8_();
    Bytes::from_raw(v)
}

fn thin_act() -> Act {
    let mut v = Act::new_tuple();
    if let Act::Tuple(a, f, ..) = &mut v {
        *a = t8();
        *f = thin_foo();
    }
    v
}

fn act_thin() -> Act {
    match choose(3) {
        0 => Act::new_unit(),
        1 => thin_act(),
        _ => {
            let mut v = Act::new_named();
            if let Act::Named { x, v, .. } = &mut v {
                *x = u16_();
                *v = vec_of(2, u8_);
            }
            v
        }
    }
}
