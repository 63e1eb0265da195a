//! C07: messages stay readable across schema changes: unknown fields are skipped, missing ones are
//! defaults, and neither the order of fields nor over-long numbers matter.
use crate::{common::*, gen::*, ops::decode, sym::*, types::*};
use steit::{de::*, ser::*, state::State, steit_derive, types::*, wire_fmt::*};

/// Any field whose number is not one of `known`: a number of up to 64 bits or a payload.
fn unknown(known: &[u32]) -> Vec<u8> {
    let f = u32_();
    assume(f <= FIELD_NUMBER_MAX);
    for k in known {
        assume(f != *k);
    }
    let mut b = Vec::new();
    if choose(2) == 0 {
        put(&mut b, (f as u64) << 3);
        put(&mut b, u64_());
    } else {
        put(&mut b, (f as u64) << 3 | 2);
        let p = match choose(3) {
            0 => bytes(choose(3) as usize),
            1 => vec![u8_(); 128],
            _ => vec![u8_(); 9000],
        };
        put(&mut b, p.len() as u64);
        b.extend_from_slice(&p);
    }
    b
}

/// Starts of the fields in `b[from..]`, and the end.
fn cuts(b: &[u8], from: usize) -> Vec<usize> {
    let mut i = from;
    let mut at = vec![i];
    while i < b.len() {
        let tag = leb(b, &mut i);
        let n = leb(b, &mut i) as usize;
        if tag & 7 == 2 {
            i += n;
        }
        at.push(i);
    }
    at
}

/// An unknown field anywhere; `head` bytes are the tag of an enum's variant.
fn skips<T: Serialize + Deserialize + PartialEq>(v: T, head: usize, known: &[u32]) {
    let enc = v.to_bytes();
    let at = cuts(&enc, head);
    let cut = at[choose(at.len() as u32) as usize];
    let mut b = enc[..cut].to_vec();
    b.extend_from_slice(&unknown(known));
    b.extend_from_slice(&enc[cut..]);
    let back = T::deserialize(&mut Reader::new(&b[..]));
    check(back.is_ok(), 1);
    check(back.unwrap() == v, 2);
    cover(1);
}

#[no_mangle]
pub extern "C" fn c07_skip_foo() {
    skips(foo(), 0, &[0, 1])
}
#[no_mangle]
pub extern "C" fn c07_skip_flat() {
    let mut v = Flat::new();
    v.a = t8();
    v.d = z8() as u16;
    v.f = t8();
    skips(v, 0, &[0, 15, 16, 2047, 2048, 0x1fff_ffff])
}
#[no_mangle]
pub extern "C" fn c07_skip_msg() {
    let mut v = msg(choose(10));
    v.raw = Bytes::from_raw(vec![t8()]);
    skips(v, 0, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9])
}
#[no_mangle]
pub extern "C" fn c07_skip_act() {
    let v = Act::new_named();
    let mut v = v;
    if let Act::Named { x, v, .. } = &mut v {
        *x = t8() as u16;
        *v = vec![t8()];
    }
    skips(v, 2, &[1, 2])
}
#[no_mangle]
pub extern "C" fn c07_skip_unit() {
    skips(Unit::new(), 0, &[]);
    skips(Act::new_unit(), 1, &[]);
}
#[no_mangle]
pub extern "C" fn c07_skip_point() {
    skips(small_point(), 0, &[0, 1])
}
#[no_mangle]
pub extern "C" fn c07_skip_shape() {
    let s = thin_shape();
    skips(s, 1, &[0, 1, 4])
}
#[no_mangle]
pub extern "C" fn c07_skip_rect() {
    let mut s = Shape::new_rect(rt());
    if let Shape::Rect { a, p, .. } = &mut s {
        *a = t8();
        p.x = t8();
    }
    skips(s, 1, &[1, 4])
}
#[no_mangle]
pub extern "C" fn c07_skip_world() {
    let mut w = World::new(rt());
    w.id = t8() as u16;
    w.pts = List::from_iter(rt(), vec![thin_point()]);
    w.map = Map::from_iter(rt(), vec![(t8(), Shape::new_rect(rt()))]);
    w.shape = Shape::new_rect(rt());
    skips(w, 0, &[0, 1, 2, 3, 4, 5, 6, 7, 20])
}
#[no_mangle]
pub extern "C" fn c07_skip_maybe() {
    skips(Maybe::some(rt(), small_point()), 1, &[0])
}
#[no_mangle]
pub extern "C" fn c07_skip_generic() {
    skips(pair(), 0, &[1, 2])
}
#[no_mangle]
pub extern "C" fn c07_skip_lean() {
    skips(lean(), 0, &[0, 1])
}

/// A known number with the wire type of another kind of field is skipped, too.
fn mismatched<T: Serialize + Deserialize + PartialEq>(v: T, head: usize, varints: &[u32], sized: &[u32]) {
    let enc = v.to_bytes();
    let at = cuts(&enc, head);
    let cut = at[choose(at.len() as u32) as usize];
    let mut b = enc[..cut].to_vec();
    let k = choose((varints.len() + sized.len()) as u32) as usize;
    if k < varints.len() {
        put_field(&mut b, &(varints[k], 2, any(3)));
    } else {
        let mut n = Vec::new();
        put(&mut n, u16_() as u64);
        put_field(&mut b, &(sized[k - varints.len()], 0, n));
    }
    b.extend_from_slice(&enc[cut..]);
    let back = T::deserialize(&mut Reader::new(&b[..]));
    check(back.is_ok(), 3);
    check(back.unwrap() == v, 4);
    cover(1);
}
#[no_mangle]
pub extern "C" fn c07_mismatch_flat() {
    let mut v = Flat::new();
    v.a = t8();
    v.d = z8() as u16;
    mismatched(v, 0, &[0, 15, 16, 2047, 2048, 0x1fff_ffff], &[])
}
#[no_mangle]
pub extern "C" fn c07_mismatch_msg() {
    mismatched(msg(choose(10)), 0, &[], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9])
}
#[no_mangle]
pub extern "C" fn c07_mismatch_world() {
    let mut w = World::new(rt());
    w.id = z8() as u16;
    w.shape = Shape::new_rect(rt());
    w.nums = List::from_iter(rt(), vec![t8()]);
    mismatched(w, 0, &[0], &[1, 2, 3, 4, 5, 6, 7, 20])
}
#[no_mangle]
pub extern "C" fn c07_mismatch_rect() {
    let mut s = Shape::new_rect(rt());
    if let Shape::Rect { a, p, .. } = &mut s {
        *a = t8();
        p.x = t8();
    }
    mismatched(s, 1, &[1], &[4])
}
#[no_mangle]
pub extern "C" fn c07_mismatch_map() {
    mismatched(map_u8(2, u8_), 0, &[0, 7, 255], &[]);
}
#[no_mangle]
pub extern "C" fn c07_mismatch_map_sized() {
    mismatched(map_u8(1, small_point), 0, &[], &[0, 7, 255]);
}

/// Fields in any order.
fn reordered<T: Serialize + Deserialize + PartialEq>(v: T, head: usize) {
    let enc = v.to_bytes();
    let mut rest = walk(&enc[head..]);
    let mut b = enc[..head].to_vec();
    while !rest.is_empty() {
        let f = rest.remove(choose(rest.len() as u32) as usize);
        put_field(&mut b, &f);
    }
    check(b.len() == enc.len(), 5);
    check(decode::<T>(&b) == v, 6);
    cover(1);
}
#[no_mangle]
pub extern "C" fn c07_order_flat() {
    let mut v = Flat::new();
    v.a = t8();
    v.b = t16();
    v.d = u16_();
    v.f = t8();
    reordered(v, 0)
}
#[no_mangle]
pub extern "C" fn c07_order_msg() {
    let mut v = msg(choose(10));
    v.raw = Bytes::from_raw(vec![t8()]);
    v.foos = vec![Foo::new()];
    reordered(v, 0)
}
#[no_mangle]
pub extern "C" fn c07_order_named() {
    let mut v = Act::new_named();
    if let Act::Named { x, v, .. } = &mut v {
        *x = u16_();
        *v = vec_of(2, t8);
    }
    reordered(v, 2)
}
#[no_mangle]
pub extern "C" fn c07_order_world() {
    let mut w = World::new(rt());
    world_part(&mut w, choose(9));
    w.id = t8() as u16;
    w.shape = Shape::new_circle(rt());
    w.pts = List::from_iter(rt(), vec![small_point()]);
    reordered(w, 0)
}

/// Over-long tags, sizes and values read like the shortest ones.
#[no_mangle]
pub extern "C" fn c07_padded() {
    let f = [0u32, 15, 16, 2047][choose(4) as usize];
    let x = u8_();
    let mut b = Vec::new();
    put_padded(&mut b, (f as u64) << 3, choose(4));
    let x = if f == 16 { x & 1 } else { x };
    put_padded(&mut b, x as u64, choose(6));
    let v = decode::<Flat>(&b);
    check(match f {
        0 => v.a == x,
        15 => v.b == (x >> 1) as i16 ^ -((x & 1) as i16),
        16 => v.c == (x == 1),
        _ => v.d == x as u16,
    }, 7);
    let p = bytes(choose(3) as usize);
    let mut b = Vec::new();
    put_padded(&mut b, 5 << 3 | 2, choose(4));
    put_padded(&mut b, p.len() as u64, choose(6));
    b.extend_from_slice(&p);
    check(decode::<Msg>(&b).raw == Bytes::from_raw(p), 8);
    cover(1);
}

// ---- two versions of one schema ----

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct In1 {
    #[steit(tag = 0)]
    pub a: u8,
}
#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct In2 {
    #[steit(tag = 5)]
    pub s: String,
    #[steit(tag = 0)]
    pub a: u8,
    #[steit(tag = 6)]
    pub v: Vec<u16>,
    #[steit(tag = 900)]
    pub d: u64,
}
#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum En1 {
    #[steit(tag = 0)]
    A,
    #[steit(tag = 2)]
    B {
        #[steit(tag = 1)]
        x: u8,
    },
}
#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum En2 {
    #[steit(tag = 0)]
    A(#[steit(tag = 0)] u16),
    #[steit(tag = 2)]
    B {
        #[steit(tag = 0)]
        y: In1,
        #[steit(tag = 1)]
        x: u8,
        #[steit(tag = 2)]
        z: String,
    },
}
#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
#[steit(no_meta)]
pub struct V1 {
    #[steit(tag = 1)]
    pub one: In1,
    #[steit(tag = 2)]
    pub many: Vec<In1>,
    #[steit(tag = 3)]
    pub en: En1,
    #[steit(tag = 4)]
    pub opt: Option<In1>,
    #[steit(tag = 9)]
    pub z: u8,
}
#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
#[steit(no_meta)]
pub struct V2 {
    #[steit(tag = 0)]
    pub first: u32,
    #[steit(tag = 1)]
    pub one: In2,
    #[steit(tag = 2)]
    pub many: Vec<In2>,
    #[steit(tag = 3)]
    pub en: En2,
    #[steit(tag = 4)]
    pub opt: Option<In2>,
    #[steit(tag = 9)]
    pub z: u8,
    #[steit(tag = 10)]
    pub last: In2,
}

fn in2() -> In2 {
    let mut v = In2::new();
    v.a = z8();
    match choose(4) {
        0 => v.s = String::from("ab"),
        1 => v.v = vec![u16_()],
        2 => v.d = u64_(),
        _ => (),
    }
    v
}
fn in1(v: &In2) -> In1 {
    let mut r = In1::new();
    r.a = v.a;
    r
}
fn back(v: &In1) -> In2 {
    let mut r = In2::new();
    r.a = v.a;
    r
}

#[no_mangle]
pub extern "C" fn c07_older() {
    let mut v = V2::new();
    v.z = t8();
    match choose(6) {
        0 => v.one = in2(),
        1 => v.many = vec_of(2, in2),
        2 => v.opt = opt(in2),
        3 => v.last = in2(),
        4 => v.first = u32_(),
        _ => match choose(2) {
            0 => {
                v.en = En2::new_a();
                if let En2::A(n, ..) = &mut v.en {
                    *n = u16_();
                }
            }
            _ => {
                v.en = En2::new_b();
                if let En2::B { x, y, z, .. } = &mut v.en {
                    *x = u8_();
                    y.a = u8_();
                    *z = string(1);
                }
            }
        },
    }
    let old = decode::<V1>(&v.to_bytes());
    check(old.z == v.z && old.one == in1(&v.one), 20);
    check(old.many.len() == v.many.len(), 21);
    for (a, b) in old.many.iter().zip(&v.many) {
        check(*a == in1(b), 22);
    }
    check(old.opt == v.opt.as_ref().map(in1), 23);
    match (&old.en, &v.en) {
        (En1::A { .. }, En2::A(..)) => (),
        (En1::B { x, .. }, En2::B { x: w, .. }) => check(x == w, 24),
        _ => check(false, 25),
    }
    cover(1);
}

#[no_mangle]
pub extern "C" fn c07_newer() {
    let mut v = V1::new();
    v.z = u8_();
    let i = || {
        let mut i = In1::new();
        i.a = u8_();
        i
    };
    match choose(4) {
        0 => v.one = i(),
        1 => v.many = vec_of(2, i),
        2 => v.opt = opt(i),
        _ => {
            v.en = En1::new_b();
            if let En1::B { x, .. } = &mut v.en {
                *x = u8_();
            }
        }
    }
    let new = decode::<V2>(&v.to_bytes());
    check(new.z == v.z && new.first == 0 && new.last == In2::new() && new.one == back(&v.one), 30);
    check(new.many == v.many.iter().map(back).collect::<Vec<_>>() && new.opt == v.opt.as_ref().map(back), 31);
    match (&v.en, &new.en) {
        (En1::A { .. }, En2::A(n, ..)) => check(*n == 0, 32),
        (En1::B { x, .. }, En2::B { x: w, y, z, .. }) => check(x == w && y.a == 0 && z.is_empty(), 33),
        _ => check(false, 34),
    }
    cover(1);
}

/// The same for states inside containers.
#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct St1 {
    #[steit(tag = 1)]
    pub l: List<Point>,
    #[steit(tag = 2)]
    pub m: Map<u8, Point>,
    #[steit(tag = 3)]
    pub o: Maybe<Point>,
}
#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Po2 {
    #[steit(tag = 3)]
    pub l: List<u8>,
    #[steit(tag = 0)]
    pub x: u8,
    #[steit(tag = 2)]
    pub w: u32,
    #[steit(tag = 1)]
    pub y: i16,
}
#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct St2 {
    #[steit(tag = 1)]
    pub l: List<Po2>,
    #[steit(tag = 2)]
    pub m: Map<u8, Po2>,
    #[steit(tag = 3)]
    pub o: Maybe<Po2>,
    #[steit(tag = 4)]
    pub n: Po2,
}

fn po2() -> Po2 {
    let mut v = Po2::new(rt());
    v.x = u8_();
    if choose(2) == 1 {
        v.l = list(2, z8);
    } else {
        v.w = u32_();
    }
    v.y = t16();
    v
}

#[no_mangle]
pub extern "C" fn c07_older_state() {
    let mut v = St2::new(rt());
    match choose(4) {
        0 => v.l = list(2, po2),
        1 => v.m = map_u8(1, po2),
        2 => v.o = maybe(po2),
        _ => v.n = po2(),
    }
    let eq = |a: &Point, b: &Po2| a.x == b.x && a.y == b.y;
    let old = decode::<St1>(&v.to_bytes());
    check(old.l.len() == v.l.len() && old.l.iter().zip(v.l.iter()).all(|(a, b)| eq(a, b)), 40);
    check(old.m.len() == v.m.len() && old.m.iter().zip(v.m.iter()).all(|((k, a), (j, b))| k == j && eq(a, b)), 41);
    match (&old.o, &v.o) {
        (Maybe::None { .. }, Maybe::None { .. }) => (),
        (Maybe::Some { value: a, .. }, Maybe::Some { value: b, .. }) => check(eq(a, b), 42),
        _ => check(false, 43),
    }
    cover(1);
}
/// A field larger than any buffer, and very many fields.
#[no_mangle]
pub extern "C" fn c07_huge() {
    let v = foo();
    let enc = v.to_bytes();
    let mut b = Vec::new();
    put(&mut b, (9 << 3) | 2);
    let n = [16384, 65535, 65536, 70001, 1 << 20][choose(5) as usize];
    put(&mut b, n as u64);
    let content = vec![u8_(); n];
    b.extend_from_slice(&content);
    b.extend_from_slice(&enc);
    let back = Foo::deserialize(&mut Reader::new(&b[..]));
    check(back.is_ok(), 60);
    check(back.unwrap() == v, 61);
    cover(1);
}
#[no_mangle]
pub extern "C" fn c07_many() {
    let v = foo();
    let enc = v.to_bytes();
    let at = cuts(&enc, 0);
    let mut b = Vec::new();
    for k in 0..at.len() {
        for i in 0..[0, 70, 130][choose(3) as usize] {
            put(&mut b, ((2 + i * 40) << 3) | (i & 1) << 1);
            put(&mut b, i & 1);
            if i & 1 == 1 {
                b.push(7);
            }
        }
        if k + 1 < at.len() {
            b.extend_from_slice(&enc[at[k]..at[k + 1]]);
        }
    }
    check(decode::<Foo>(&b) == v, 62);
    cover(1);
}
