//! C17: equality compares the values of all fields that take part in it, and nothing else; equal values hash
//! alike.
use crate::{gen::*, ops::*, sym::*, types::*};
use std::hash::{Hash, Hasher};
use steit::{rt::*, ser::*, state::*, types::*};

/// Records what is fed to it.
#[derive(Default)]
struct Record(Vec<u8>);
impl Hasher for Record {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, bytes: &[u8]) {
        self.0.extend_from_slice(bytes);
    }
}
fn hash<T: Hash>(v: &T) -> Vec<u8> {
    let mut r = Record::default();
    v.hash(&mut r);
    r.0
}
fn eq<T: PartialEq + Clone>(a: &T, b: &T, expected: bool) {
    check((a == b) == expected, 1);
    check((b == a) == expected, 2);
    check((a != b) != expected, 3);
    check(a == a && *a == a.clone() && a.clone() == *a, 4);
    if expected {
        cover(1);
    } else {
        cover(2);
    }
}
fn eq_hash<T: PartialEq + Clone + Hash>(a: &T, b: &T, expected: bool) {
    eq(a, b, expected);
    check(same(&hash(a), &hash(&a.clone())), 5);
    if expected {
        check(same(&hash(a), &hash(b)), 6);
    }
}
fn is_foo(a: &Foo, b: &Foo) -> bool {
    a.0 == b.0 && a.1 == b.1
}
fn is_point(a: &Point, b: &Point) -> bool {
    a.x == b.x && a.y == b.y
}
fn is_shape(a: &Shape, b: &Shape) -> bool {
    match (a, b) {
        (Shape::Empty { .. }, Shape::Empty { .. }) => true,
        (Shape::Circle(a, ..), Shape::Circle(b, ..)) => a == b,
        (Shape::Rect { a, p, .. }, Shape::Rect { a: b, p: q, .. }) => a == b && is_point(p, q),
        _ => false,
    }
}
fn all<T>(a: &[T], b: &[T], f: impl Fn(&T, &T) -> bool) -> bool {
    a.len() == b.len() && (0..a.len()).all(|i| f(&a[i], &b[i]))
}
/// Differently placed, differently logged, with sizes cached or not.
fn scatter<S: State>(mut v: S) -> S {
    match choose(3) {
        0 => (),
        1 => {
            v.set_runtime(logged().0.nested(9));
        }
        _ => {
            v.cache_size();
        }
    }
    v
}
#[no_mangle]
pub extern "C" fn c17_foo() {
    let (a, b) = (foo(), foo());
    a.cache_size();
    eq_hash(&a, &b, is_foo(&a, &b));
}
#[no_mangle]
pub extern "C" fn c17_flat() {
    let (a, b) = (flat(), flat());
    b.cache_size();
    eq_hash(&a, &b, a.a == b.a && a.b == b.b && a.c == b.c && a.d == b.d && a.e == b.e && a.f == b.f);
}
#[no_mangle]
pub extern "C" fn c17_wide() {
    let (a, b) = (wide(), wide());
    eq_hash(&a, &b, a.a == b.a && a.b == b.b && a.c == b.c && a.d == b.d);
}
#[no_mangle]
pub extern "C" fn c17_act() {
    let (a, b) = (act(), act());
    a.cache_size();
    let e = match (&a, &b) {
        (Act::Unit { .. }, Act::Unit { .. }) => true,
        (Act::Tuple(x, f, ..), Act::Tuple(y, g, ..)) => x == y && is_foo(f, g),
        (Act::Named { x, v, .. }, Act::Named { x: y, v: w, .. }) => x == y && v == w,
        (Act::Lean { y, .. }, Act::Lean { y: z, .. }) => y == z,
        _ => false,
    };
    eq_hash(&a, &b, e);
}
#[no_mangle]
pub extern "C" fn c17_msg() {
    let f = choose(10);
    let (a, b) = (msg(f), msg(f));
    let e = match f {
        0 => a.name == b.name,
        1 => a.nums == b.nums,
        2 => match (&a.opt, &b.opt) {
            (Some(a), Some(b)) => is_foo(a, b),
            (None, None) => true,
            _ => false,
        },
        3 => a.arr[0] == b.arr[0] && a.arr[1] == b.arr[1],
        4 => a.tup.0 == b.tup.0 && a.tup.1 == b.tup.1,
        5 => a.raw.clone().into_raw() == b.raw.clone().into_raw(),
        6 => is_foo(&a.boxed, &b.boxed),
        7 => all(&a.foos, &b.foos, is_foo),
        8 => a.map.len() == b.map.len() && a.map.iter().all(|(k, v)| b.map.get(k) == Some(v)),
        _ => a.act == b.act,
    };
    eq(&a, &b, e);
}
/// Every single field counts.
#[no_mangle]
pub extern "C" fn c17_msg_any() {
    let (a, b) = (msg(choose(10)), Msg::new());
    let e = a.name.is_empty()
        && a.nums.is_empty()
        && a.opt.is_none()
        && a.arr == [0, 0]
        && a.tup == (0, false)
        && a.raw.clone().into_raw().is_empty()
        && a.boxed.0 == 0
        && a.boxed.1 == 0
        && a.foos.is_empty()
        && a.map.is_empty()
        && matches!(a.act, Act::Unit { .. });
    eq(&a, &b, e);
}
fn partly() -> Partly {
    let mut v = Partly::new();
    v.a = u8_();
    v.b = u8_();
    v.c = u8_();
    v.other_a = u8_();
    v
}
#[no_mangle]
pub extern "C" fn c17_partly() {
    let (a, b) = (partly(), partly());
    eq_hash(&a, &b, a.a == b.a && a.c == b.c && a.other_a == b.other_a);
    // What takes part in hashing tells values apart, what does not doesn't.
    check(same(&hash(&a), &hash(&b)) == (a.a == b.a && a.other_a == b.other_a), 7);
}
fn partially() -> Partially {
    match choose(3) {
        0 => Partially::new_none(),
        1 => {
            let mut v = Partially::new_named();
            if let Partially::Named { x, y, other_x, .. } = &mut v {
                *x = u8_();
                *y = u8_();
                *other_x = u8_();
            }
            v
        }
        _ => {
            let mut v = Partially::new_tuple();
            if let Partially::Tuple(x, y, z, ..) = &mut v {
                *x = u8_();
                *y = u8_();
                *z = u8_();
            }
            v
        }
    }
}
#[no_mangle]
pub extern "C" fn c17_partially() {
    let (a, b) = (partially(), partially());
    let e = match (&a, &b) {
        (Partially::None { .. }, Partially::None { .. }) => true,
        (Partially::Named { x, other_x, .. }, Partially::Named { x: y, other_x: other_y, .. }) => x == y && other_x == other_y,
        (Partially::Tuple(x, _, z, ..), Partially::Tuple(y, _, w, ..)) => x == y && z == w,
        _ => false,
    };
    eq_hash(&a, &b, e);
}
/// Variants are told apart by their hash even if they hold the same.
#[no_mangle]
pub extern "C" fn c17_variant_hash() {
    let (a, b) = (either(), either());
    let same_variant = matches!(a, Either::Left(..)) == matches!(b, Either::Left(..));
    let e = match (&a, &b) {
        (Either::Left(x, ..), Either::Left(y, ..)) => x == y,
        (Either::Right(p, ..), Either::Right(q, ..)) => p.a == q.a && p.b == q.b,
        _ => false,
    };
    eq_hash(&a, &b, e);
    if !same_variant {
        check(!same(&hash(&a), &hash(&b)), 8);
    }
}
#[no_mangle]
pub extern "C" fn c17_pair() {
    let (a, b) = (pair(), pair());
    eq_hash(&a, &b, a.a == b.a && all(&a.b, &b.b, is_foo));
}
#[no_mangle]
pub extern "C" fn c17_bytes() {
    let (a, b) = (any(3), any(3));
    let e = a.len() == b.len() && same(&a, &b);
    eq_hash(&Bytes::from_raw(a), &Bytes::from_raw(b), e);
}
// ---- states ----
#[no_mangle]
pub extern "C" fn c17_point() {
    let (a, b) = (scatter(point()), scatter(point()));
    eq_hash(&a, &b, is_point(&a, &b));
}
#[no_mangle]
pub extern "C" fn c17_shape() {
    let (a, b) = (scatter(shape()), scatter(shape()));
    eq_hash(&a, &b, is_shape(&a, &b));
}
#[no_mangle]
pub extern "C" fn c17_list() {
    let (a, b) = (scatter(list(2, small_point)), scatter(list(2, small_point)));
    eq_hash(&a, &b, all(&a, &b, is_point));
}
#[no_mangle]
pub extern "C" fn c17_list_u8() {
    let (a, b) = (scatter(list(3, u8_)), scatter(list(3, u8_)));
    eq_hash(&a, &b, all(&a, &b, |x, y| x == y));
}
/// Maps are equal if they have the same entries, in whatever order.
#[no_mangle]
pub extern "C" fn c17_map() {
    let (a, b) = (scatter(map_u8(2, u8_)), scatter(map_u8(2, u8_)));
    let sub = |a: &Map<u8, u8>, b: &Map<u8, u8>| a.iter().all(|(k, v)| b.get(&k) == Some(v));
    eq(&a, &b, sub(&a, &b) && sub(&b, &a));
}
#[no_mangle]
pub extern "C" fn c17_map_order() {
    let (k, l, x, y) = (u8_(), u8_(), thin_shape(), thin_shape());
    assume(k != l);
    let a = Map::from_iter(rt(), vec![(k, x.clone()), (l, y.clone())]);
    let mut b = Map::from_iter(rt(), vec![(l, y)]);
    b.insert(k, x);
    check(a == b && b == a, 9);
    b.remove(&l);
    check(a != b && b != a, 10);
    cover(1);
    cover(2);
}
#[no_mangle]
pub extern "C" fn c17_maybe() {
    let (x, y) = (opt(small_point), opt(small_point));
    let (a, b) = (Maybe::from_option(rt(), x.clone()), Maybe::from_option(rt(), y.clone()));
    let e = match (&x, &y) {
        (Some(a), Some(b)) => is_point(a, b),
        (None, None) => true,
        _ => false,
    };
    check((a == y) == e, 11);
    eq_hash(&scatter(a), &scatter(b), e);
}
#[no_mangle]
pub extern "C" fn c17_world() {
    let f = choose(9);
    let part = || {
        let mut w = World::new(rt());
        match f {
            3 => w.map = map_u8(1, thin_shape),
            4 => w.opt = maybe(small_point),
            _ => world_part(&mut w, f),
        }
        w
    };
    let (a, b) = (part(), scatter(part()));
    let e = match f {
        0 => a.id == b.id,
        1 => is_point(&a.at, &b.at),
        2 => all(&a.pts, &b.pts, is_point),
        3 => a.map.len() == b.map.len() && a.map.iter().all(|(k, v)| b.map.get(&k).map_or(false, |w| is_shape(v, w))),
        4 => match (&a.opt, &b.opt) {
            (Maybe::Some { value: p, .. }, Maybe::Some { value: q, .. }) => is_point(p, q),
            (x, y) => x.is_none() && y.is_none(),
        },
        5 => is_point(&a.boxed, &b.boxed),
        6 => all(&a.nums, &b.nums, |x, y| x == y),
        7 => a.note == b.note,
        _ => is_shape(&a.shape, &b.shape),
    };
    eq(&a, &b, e);
}
#[no_mangle]
pub extern "C" fn c17_lean() {
    let (a, b) = (scatter(lean()), scatter(lean()));
    eq(&a, &b, a.a == b.a && is_point(&a.p, &b.p));
}
#[no_mangle]
pub extern "C" fn c17_tuple() {
    let (a, b) = (scatter(tuple()), scatter(tuple()));
    eq(&a, &b, a.0 == b.0 && is_point(&a.1, &b.1) && all(&a.2, &b.2, |x, y| x == y));
}
#[no_mangle]
pub extern "C" fn c17_kind() {
    let (a, b) = (scatter(thin_kind()), scatter(thin_kind()));
    let e = match (&a, &b) {
        (Kind::Plain { n, p, .. }, Kind::Plain { n: m, p: q, .. }) => n == m && is_point(p, q),
        (Kind::Many(l, m, ..), Kind::Many(k, n, ..)) => all(l, k, |x, y| x == y) && m.len() == n.len() && m.iter().zip(n.iter()).all(|(x, y)| x == y),
        (Kind::Sub { part, note, .. }, Kind::Sub { part: k, note: n, .. }) => is_shape(part, k) && note == n,
        _ => false,
    };
    check((a == b) == e && (b == a) == e, 60);
    if e { cover(1) } else { cover(2) }
}
/// Sizes cached and places known are invisible.
#[no_mangle]
pub extern "C" fn c17_hidden() {
    let (a, b) = (SizeCache::new(), SizeCache::new());
    let (x, y) = (u32_(), u32_());
    a.set(x);
    b.set(y);
    check(a == b && same(&hash(&a), &hash(&b)) && a.get() == x && a.clone().get() == x, 12);
    let (r, s) = (rt().nested(x), logged().0.nested(y).nested(3));
    check(r == s && same(&hash(&r), &hash(&s)), 13);
    cover(1);
    cover(2);
}
/// A difference anywhere in something long.
#[no_mangle]
pub extern "C" fn c17_many() {
    let n = [64, 129, 300][choose(3) as usize];
    let i = [0, 63, n / 2, n - 1][choose(4) as usize];
    let (x, y) = (u8_(), u8_());
    let mut v = vec![3u8; n];
    v[i] = x;
    let mut w = v.clone();
    w[i] = y;
    match choose(4) {
        0 => eq_hash(&Bytes::from_raw(v), &Bytes::from_raw(w), x == y),
        1 => eq_hash(&List::from_iter(rt(), v), &List::from_iter(rt(), w), x == y),
        2 => {
            let points = |v: Vec<u8>| List::from_iter(rt(), v.into_iter().map(|x| { let mut p = Point::new(rt()); p.x = x; p }));
            eq_hash(&points(v), &points(w), x == y)
        }
        _ => {
            let shorter = w[..n - 1].to_vec();
            eq_hash(&List::from_iter(rt(), v), &List::from_iter(rt(), shorter), false);
            cover(1);
        }
    }
}
#[no_mangle]
pub extern "C" fn c17_many_map() {
    let (a, b) = (u8_(), u8_());
    let n = [64, 130][choose(2) as usize];
    let k = [0, 63 * 131, (n - 1) * 131][choose(3) as usize];
    let make = |x: u8| { let mut m: Map<u16, u8> = Map::from_iter(rt(), (0..n).map(|i| (i * 131, 1u8))); m.insert(k, x); m };
    eq(&make(a), &make(b), a == b);
}
