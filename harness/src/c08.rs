//! C08: merging an encoding into a value overlays it field by field; concatenated encodings merge in turn.
use crate::{common::*, gen::*, ops::decode, sym::*, types::*};
use std::collections::HashMap;
use steit::{de::*, ser::*, state::*, types::*};

fn merged<T: Serialize + Deserialize + Clone>(a: &T, b: &T) -> T {
    let mut v = a.clone();
    check(v.merge(&mut Reader::new(&b.to_bytes()[..])).is_ok(), 1);
    v
}

/// Merging equals the reference, and so does decoding both encodings as one.
fn merges<T: Serialize + Deserialize + Clone + PartialEq>(a: T, b: T, expected: T, concat: bool) {
    let v = merged(&a, &b);
    check(v == expected, 2);
    check(v.compute_size() as usize == v.to_bytes().len(), 3);
    if concat {
        let mut enc = a.to_bytes();
        enc.extend_from_slice(&b.to_bytes());
        check(decode::<T>(&enc) == expected, 4);
    }
    // Once more changes nothing that is not a list.
    cover(1);
}

fn or<T: Default + PartialEq + Clone>(a: &T, b: &T) -> T {
    if *b == T::default() { a.clone() } else { b.clone() }
}

fn m_foo(a: &Foo, b: &Foo) -> Foo {
    let mut v = Foo::new();
    v.0 = or(&a.0, &b.0);
    v.1 = or(&a.1, &b.1);
    v
}
fn m_point(a: &Point, b: &Point) -> Point {
    let mut v = Point::new(rt());
    v.x = or(&a.x, &b.x);
    v.y = or(&a.y, &b.y);
    v
}
fn m_shape(a: &Shape, b: &Shape) -> Shape {
    let mut v = b.clone();
    match (&mut v, a) {
        (Shape::Circle(n, ..), Shape::Circle(o, ..)) => *n = or(o, n),
        (Shape::Rect { a: x, p, .. }, Shape::Rect { a: y, p: q, .. }) => {
            *x = or(y, x);
            *p = m_point(q, p);
        }
        _ => (),
    }
    v
}
fn cat<T: Clone>(a: &[T], b: &[T]) -> Vec<T> {
    let mut v = a.to_vec();
    v.extend_from_slice(b);
    v
}

macro_rules! last_wins {
    ($($name:ident $gen:expr;)*) => {$(
        #[no_mangle]
        pub extern "C" fn $name() {
            let (a, b) = ($gen, $gen);
            merges(a, b.clone(), b, false);
        }
    )*};
}
// Numbers, strings and fixed-size collections are replaced.
last_wins! {
    c08_u8 u8_();
    c08_i64 i64_();
    c08_u32 u32_();
    c08_bool bool_();
    c08_string string(1);
    c08_arr [u8_(), z8()];
    c08_tup (z8(), string(1), bool_());
}

#[no_mangle]
pub extern "C" fn c08_vec() {
    let (a, b) = (vec_of(2, u8_), vec_of(2, u8_));
    let e = cat(&a, &b);
    merges(a, b, e, true);
}
#[no_mangle]
pub extern "C" fn c08_vec_foo() {
    let (a, b) = (vec_of(1, foo), vec_of(2, || { let mut f = Foo::new(); f.0 = z8(); f }));
    let e = cat(&a, &b);
    merges(a, b, e, true);
}
#[no_mangle]
pub extern "C" fn c08_bytes() {
    let (a, b) = (any(2), any(2));
    let e = cat(&a, &b);
    merges(Bytes::from_raw(a), Bytes::from_raw(b), Bytes::from_raw(e), true);
}
#[no_mangle]
pub extern "C" fn c08_option() {
    let (a, b) = (opt(foo), opt(foo));
    let e = match (&a, &b) {
        (Some(x), Some(y)) => Some(m_foo(x, y)),
        (a, None) => a.clone(),
        (None, b) => b.clone(),
    };
    merges(a, b, e, true);
}
#[no_mangle]
pub extern "C" fn c08_option_num() {
    let (a, b) = (opt(u16_), opt(u16_));
    merges(a, b, b.or(a), true);
}
#[no_mangle]
pub extern "C" fn c08_option_str() {
    let (a, b) = (opt(|| string(1)), opt(|| string(1)));
    let e = b.clone().or(a.clone());
    merges(a, b, e, true);
}
#[no_mangle]
pub extern "C" fn c08_option_vec() {
    let (a, b) = (opt(|| vec_of(2, u8_)), opt(|| vec_of(2, u8_)));
    let e = match (&a, &b) {
        (Some(x), Some(y)) => Some(cat(x, y)),
        _ => b.clone().or(a.clone()),
    };
    merges(a, b, e, true);
}
#[no_mangle]
pub extern "C" fn c08_option_option() {
    let (a, b) = (opt(|| opt(u8_)), opt(|| opt(u8_)));
    let e = match (a, b) {
        (Some(x), Some(y)) => Some(y.or(x)),
        _ => b.or(a),
    };
    merges(a, b, e, true);
}
#[no_mangle]
pub extern "C" fn c08_option_bool() {
    let (a, b) = (opt(bool_), opt(bool_));
    merges(a, b, b.or(a), true);
}
#[no_mangle]
pub extern "C" fn c08_box() {
    let (a, b) = (foo(), foo());
    let e = m_foo(&a, &b);
    merges(Box::new(a), Box::new(b), Box::new(e), true);
}
#[no_mangle]
pub extern "C" fn c08_foo() {
    let (a, b) = (foo(), foo());
    let e = m_foo(&a, &b);
    merges(a, b, e, true);
}
#[no_mangle]
pub extern "C" fn c08_flat() {
    let g = || {
        let mut v = Flat::new();
        v.a = z8();
        v.b = i16_();
        v.c = bool_();
        v.f = z8();
        v
    };
    let (a, b) = (g(), g());
    let mut e = Flat::new();
    e.a = or(&a.a, &b.a);
    e.b = or(&a.b, &b.b);
    e.c = or(&a.c, &b.c);
    e.f = or(&a.f, &b.f);
    merges(a, b, e, true);
}
#[no_mangle]
pub extern "C" fn c08_hash() {
    let (k, l, m, n) = (u8_(), u8_(), z8(), z8());
    let map = |k: u8, v: u8, on: bool| {
        let mut h = HashMap::new();
        if on {
            h.insert(k, v);
        }
        h
    };
    let (x, y) = (choose(2) == 1, choose(2) == 1);
    let (a, b) = (map(k, m, x), map(l, n, y));
    let mut e = a.clone();
    if y {
        e.insert(l, n);
    }
    merges(a, b, e, true);
}
#[no_mangle]
pub extern "C" fn c08_act() {
    let (a, b) = (act(), act());
    let mut e = b.clone();
    match (&mut e, &a) {
        (Act::Tuple(x, f, ..), Act::Tuple(y, g, ..)) => {
            *x = or(y, x);
            *f = m_foo(g, f);
        }
        (Act::Named { x, v, .. }, Act::Named { x: y, v: w, .. }) => {
            *x = or(y, x);
            *v = cat(w, v);
        }
        (Act::Lean { y, .. }, Act::Lean { y: z, .. }) => *y = or(z, y),
        _ => (),
    }
    merges(a, b, e, false);
}
#[no_mangle]
pub extern "C" fn c08_msg() {
    let f = choose(10);
    let thin = |f: u32| {
        let mut v = Msg::new();
        match f {
            0 => v.name = string(1),
            1 => v.nums = vec_of(2, || z8() as u16),
            2 => v.opt = opt(|| { let mut f = Foo::new(); f.0 = z8(); f }),
            3 => v.arr = [z8(), z8()],
            4 => v.tup = (z8(), bool_()),
            5 => v.raw = Bytes::from_raw(vec_of(2, u8_)),
            6 => v.boxed.1 = t16() as i8,
            7 => v.foos = vec_of(2, || { let mut f = Foo::new(); f.0 = z8(); f }),
            8 => { if choose(2) == 1 { v.map.insert(u8_(), z8()); } }
            _ => {
                v.act = Act::new_named();
                if let Act::Named { x, v, .. } = &mut v.act {
                    *x = z8() as u16;
                    *v = vec_of(1, u8_);
                }
            }
        }
        v
    };
    let (a, b) = (thin(f), thin(f));
    let mut e = a.clone();
    // Strings, arrays and tuples go on the wire whenever they are not empty.
    if !b.name.is_empty() {
        e.name = b.name.clone();
    }
    e.nums = cat(&a.nums, &b.nums);
    if let Some(y) = &b.opt {
        e.opt = Some(match &a.opt {
            Some(x) => m_foo(x, y),
            None => y.clone(),
        });
    }
    e.arr = b.arr;
    e.tup = b.tup;
    e.raw = Bytes::from_raw(cat(&a.raw.clone().into_raw(), &b.raw.clone().into_raw()));
    *e.boxed = m_foo(&a.boxed, &b.boxed);
    e.foos = cat(&a.foos, &b.foos);
    for (k, v) in &b.map {
        e.map.insert(*k, *v);
    }
    if let (Act::Named { x, v, .. }, Act::Named { x: y, v: w, .. }) = (&mut e.act, &b.act) {
        *x = or(x, y);
        v.extend_from_slice(w);
    }
    merges(a, b, e, true);
}
#[no_mangle]
pub extern "C" fn c08_point() {
    let (a, b) = (point(), point());
    let e = m_point(&a, &b);
    merges(a, b, e, true);
}
#[no_mangle]
pub extern "C" fn c08_shape() {
    let (a, b) = (shape(), shape());
    let e = m_shape(&a, &b);
    merges(a, b, e, false);
}
#[no_mangle]
pub extern "C" fn c08_list() {
    let (a, b) = (vec_of(2, small_point), vec_of(2, small_point));
    let e = List::from_iter(rt(), cat(&a, &b));
    merges(List::from_iter(rt(), a), List::from_iter(rt(), b), e, true);
}
#[no_mangle]
pub extern "C" fn c08_map() {
    let (k, l) = (u8_(), u8_());
    let (p, q) = (small_point(), small_point());
    let (x, y) = (choose(2) == 1, choose(2) == 1);
    let map = |v: Vec<(u8, Point)>| Map::from_iter(rt(), v);
    let a: Vec<_> = if x { vec![(k, p.clone())] } else { vec![] };
    let b: Vec<_> = if y { vec![(l, q.clone())] } else { vec![] };
    let e = match (x, y) {
        (true, true) => if k == l { map(vec![(k, m_point(&p, &q))]) } else { map(vec![(k, p), (l, q)]) },
        (true, false) => map(a.clone()),
        _ => map(b.clone()),
    };
    merges(map(a), map(b), e, true);
}
#[no_mangle]
pub extern "C" fn c08_map_num() {
    let (k, l, m, n) = (u16_(), u16_(), u8_(), u8_());
    let a = Map::from_iter(rt(), vec![(k, m)]);
    let b = Map::from_iter(rt(), vec![(l, n)]);
    let e = if k == l { Map::from_iter(rt(), vec![(k, n)]) } else { Map::from_iter(rt(), vec![(k, m), (l, n)]) };
    merges(a, b, e, true);
}
#[no_mangle]
pub extern "C" fn c08_maybe() {
    let (x, y) = (opt(point), opt(point));
    let e = match (&x, &y) {
        (Some(p), Some(q)) => Maybe::some(rt(), m_point(p, q)),
        (None, Some(q)) => Maybe::some(rt(), q.clone()),
        _ => Maybe::none(rt()),
    };
    merges(Maybe::from_option(rt(), x), Maybe::from_option(rt(), y), e, false);
}
#[no_mangle]
pub extern "C" fn c08_world() {
    let f = choose(9);
    let (mut a, mut b) = (World::new(rt()), World::new(rt()));
    let part = |w: &mut World| match f {
        0 => w.id = u16_(),
        1 => w.at = small_point(),
        2 => w.pts = list(2, thin_point),
        3 => w.map = map_u8(1, || { let mut s = Shape::new_circle(rt()); if let Shape::Circle(r, ..) = &mut s { *r = z8(); } s }),
        4 => w.opt = maybe(small_point),
        5 => *w.boxed = small_point(),
        6 => w.nums = list(2, z8),
        7 => w.note = string(1),
        _ => w.shape = thin_shape(),
    };
    part(&mut a);
    part(&mut b);
    let mut e = a.clone();
    e.id = or(&a.id, &b.id);
    e.at = m_point(&a.at, &b.at);
    e.pts = List::from_iter(rt(), cat(&a.pts, &b.pts));
    e.map = {
        let mut v: Vec<(u8, Shape)> = a.map.iter().map(|(k, s)| (k, s.clone())).collect();
        for (k, s) in &b.map {
            match v.iter_mut().find(|x| x.0 == k) {
                Some(x) => x.1 = m_shape(&x.1, s),
                None => v.push((k, s.clone())),
            }
        }
        Map::from_iter(rt(), v)
    };
    // Enums always go on the wire, if only as a variant tag.
    e.shape = m_shape(&a.shape, &b.shape);
    match (&a.opt, &b.opt) {
        (Maybe::Some { value: x, .. }, Maybe::Some { value: y, .. }) => e.opt = Maybe::some(rt(), m_point(x, y)),
        (_, Maybe::Some { value: y, .. }) => e.opt = Maybe::some(rt(), y.clone()),
        _ => e.opt = Maybe::none(rt()),
    }
    *e.boxed = m_point(&a.boxed, &b.boxed);
    e.nums = List::from_iter(rt(), cat(&a.nums, &b.nums));
    e.note = or(&a.note, &b.note);
    merges(a, b, e, true);
}
#[no_mangle]
pub extern "C" fn c08_kind() {
    let (a, b) = (thin_kind(), thin_kind());
    let mut e = b.clone();
    match (&mut e, &a) {
        (Kind::Plain { n, p, .. }, Kind::Plain { n: m, p: q, .. }) => {
            *n = or(m, n);
            *p = m_point(q, p);
        }
        (Kind::Many(l, m, ..), Kind::Many(k, n, ..)) => {
            let mut v: Vec<u8> = k.iter().copied().collect();
            v.extend(l.iter().copied());
            *l = List::from_iter(rt(), v);
            let mut v: Vec<(u8, u8)> = n.iter().map(|(k, v)| (k, *v)).collect();
            for (k, x) in m.iter() {
                match v.iter_mut().find(|y| y.0 == k) {
                    Some(y) => y.1 = *x,
                    None => v.push((k, *x)),
                }
            }
            *m = Map::from_iter(rt(), v);
        }
        (Kind::Sub { part, note, .. }, Kind::Sub { part: k, note: n, .. }) => {
            *part = m_shape(k, part);
            *note = or(n, note);
        }
        _ => (),
    }
    merges(a, b, e, false);
}
/// The last of two occurrences of a scalar field wins, whatever lies between.
#[no_mangle]
pub extern "C" fn c08_last() {
    let (x, y, z) = (u8_(), u8_(), u8_());
    let mut b = Vec::new();
    put(&mut b, 0);
    put(&mut b, x as u64);
    put(&mut b, 8);
    put(&mut b, z as u64);
    put(&mut b, 0);
    put(&mut b, y as u64);
    let f = decode::<Foo>(&b);
    check(f.0 == y, 5);
    cover(1);
}
/// Long values on top of each other.
fn run_of(n: usize, x: u8) -> Vec<u8> {
    let mut v = vec![1u8; n];
    v[n - 1] = x;
    v
}
#[no_mangle]
pub extern "C" fn c08_many() {
    let (x, y) = (u8_(), u8_());
    let (a, b) = (run_of([127, 256][choose(2) as usize], x), run_of([1, 130, 300][choose(3) as usize], y));
    let all: Vec<u8> = a.iter().chain(b.iter()).copied().collect();
    match choose(2) {
        0 => merges(List::from_iter(rt(), a), List::from_iter(rt(), b), List::from_iter(rt(), all), true),
        _ => merges(Bytes::from_raw(a), Bytes::from_raw(b), Bytes::from_raw(all), true),
    }
}
#[no_mangle]
pub extern "C" fn c08_many_map() {
    let make = |from: u16, n: u16, x: u8| { let mut m: Map<u16, u8> = Map::from_iter(rt(), (from..from + n).map(|i| (i * 131, 2u8))); m.insert((from + n - 1) * 131, x); m };
    let (n, k) = ([64, 130][choose(2) as usize], [1, 70][choose(2) as usize]);
    let from = [0, n - 1, 30][choose(3) as usize];
    let (a, b) = (make(0, n, u8_()), make(from, k, u8_()));
    let mut all = a.clone();
    for (k, v) in &b {
        all.insert(k, *v);
    }
    merges(a, b, all, true);
}
