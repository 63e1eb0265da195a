//! Symbolic values of every serializable type.
use crate::{sym::*, types::*};
use std::collections::HashMap;
use steit::{log::LogEntry, rt::*, state::State, types::*};

pub fn ascii(n: usize) -> String {
    let b = bytes(n);
    for x in &b {
        assume(*x < 128);
    }
    String::from_utf8(b).unwrap()
}

/// Any byte string of up to `n` bytes.
pub fn any(n: u32) -> Vec<u8> {
    bytes(choose(n + 1) as usize)
}

/// Any string of up to `n` Unicode scalar values.
pub fn string(n: u32) -> String {
    let n = choose(n + 1);
    let mut s = String::new();
    for _ in 0..n {
        let c = u32_();
        assume(c < 0x110000 && !(c >= 0xd800 && c < 0xe000));
        s.push(std::char::from_u32(c).unwrap());
    }
    s
}

pub const LONG: [usize; 5] = [126, 127, 128, 129, 300];

/// A string around the length where its size prefix grows; first, last and filler bytes vary.
pub fn long_string() -> String {
    let n = LONG[choose(5) as usize];
    let f = ascii(3);
    let mut s = String::from(&f[..1]);
    for _ in 0..n - 2 {
        s.push_str(&f[1..2]);
    }
    s.push_str(&f[2..]);
    s
}

pub fn long_bytes() -> Vec<u8> {
    let n = LONG[choose(5) as usize];
    let (a, b, c) = (u8_(), u8_(), u8_());
    let mut v = vec![b; n];
    v[0] = a;
    v[n - 1] = c;
    v
}

pub const HUGE: [usize; 6] = [16383, 16384, 65535, 65536, 70001, 2097152];

/// Bytes around the lengths where the size prefix grows further, or no longer fits into smaller integers.
pub fn huge_bytes() -> Vec<u8> {
    let n = HUGE[choose(6) as usize];
    let mut v = vec![b'x'; n];
    v[0] = u8_();
    v[n - 1] = u8_();
    v
}

pub fn huge_string() -> String {
    let mut v = huge_bytes();
    let n = v.len();
    v[0] &= 0x7f;
    v[n - 1] &= 0x7f;
    unsafe { String::from_utf8_unchecked(v) }
}

/// `n` items, one of them, anywhere among the first four or the last, arbitrary.
pub fn many<T: Clone>(n: usize, filler: T, f: impl Fn() -> T) -> Vec<T> {
    let mut v = vec![filler; n];
    let i = choose(5) as usize;
    v[if i == 4 { n - 1 } else { i }] = f();
    v
}

pub fn vec_of<T>(n: u32, f: impl Fn() -> T) -> Vec<T> {
    let n = choose(n + 1);
    (0..n).map(|_| f()).collect()
}

pub fn opt<T>(f: impl Fn() -> T) -> Option<T> {
    if choose(2) == 0 { None } else { Some(f()) }
}

pub fn foo() -> Foo {
    let mut v = Foo::new();
    v.0 = u8_();
    v.1 = i8_();
    v
}

pub fn flat() -> Flat {
    let mut v = Flat::new();
    v.a = u8_();
    v.b = i16_();
    v.c = bool_();
    v.d = u16_();
    v.e = i8_();
    v.f = u8_();
    v
}

pub fn wide() -> Wide {
    let mut v = Wide::new();
    match choose(4) {
        0 => { v.a = u32_(); v.b = i32_(); }
        1 => v.c = u64_(),
        2 => v.d = i64_(),
        _ => { v.b = i32_(); v.d = i64_(); }
    }
    v
}

pub fn act() -> Act {
    match choose(4) {
        0 => Act::new_unit(),
        1 => {
            let mut v = Act::new_tuple();
            if let Act::Tuple(a, f, ..) = &mut v {
                *a = u8_();
                *f = foo();
            }
            v
        }
        2 => {
            let mut v = Act::new_named();
            if let Act::Named { x, v, .. } = &mut v {
                *x = u16_();
                *v = vec_of(2, u8_);
            }
            v
        }
        _ => {
            let mut v = Act::new_lean();
            if let Act::Lean { y, .. } = &mut v {
                *y = i8_();
            }
            v
        }
    }
}

/// A message with `k` of its fields set.
pub fn msg(field: u32) -> Msg {
    let mut v = Msg::new();
    match field {
        0 => v.name = string(1),
        1 => v.nums = vec_of(2, u16_),
        2 => v.opt = opt(foo),
        3 => v.arr = [u8_(), u8_()],
        4 => v.tup = (u8_(), bool_()),
        5 => v.raw = Bytes::from_raw(vec_of(3, u8_)),
        6 => *v.boxed = foo(),
        7 => v.foos = vec_of(2, foo),
        8 => v.map = hash_u8(),
        _ => v.act = act(),
    }
    v
}

pub fn hash_u8() -> HashMap<u8, u8> {
    let mut m = HashMap::new();
    for _ in 0..choose(3) {
        m.insert(u8_(), u8_());
    }
    m
}

pub fn hash_str() -> HashMap<String, i16> {
    let mut m = HashMap::new();
    const KEYS: [&str; 3] = ["", "a", "é…"];
    for _ in 0..choose(3) {
        m.insert(KEYS[choose(3) as usize].to_string(), i16_());
    }
    m
}

/// Keys and values that may both be empty.
pub fn hash_vec() -> HashMap<String, Vec<u8>> {
    let mut m = HashMap::new();
    const KEYS: [&str; 3] = ["", "a", "é…"];
    for _ in 0..choose(3) {
        m.insert(KEYS[choose(3) as usize].to_string(), vec_of(2, u8_));
    }
    m
}

pub fn pair() -> Pair<u8, Vec<Foo>> {
    let mut p: Pair<u8, Vec<Foo>> = Pair::new();
    p.a = u8_();
    p.b = vec_of(1, foo);
    p
}

pub fn either() -> Either<u16, Pair<u8, i8>> {
    if choose(2) == 0 {
        let mut e: Either<u16, Pair<u8, i8>> = Either::new_left();
        if let Either::Left(a, ..) = &mut e {
            *a = u16_();
        }
        e
    } else {
        let mut e: Either<u16, Pair<u8, i8>> = Either::new_right();
        if let Either::Right(b, ..) = &mut e {
            b.a = u8_();
            b.b = i8_();
        }
        e
    }
}

pub fn wrap<T: Default + steit::ser::Serialize + steit::de::Deserialize>(v: T) -> W<T> {
    let mut w = W::new();
    w.v = v;
    w.after = u8_();
    w
}

pub fn slim<T: Default + steit::ser::Serialize + steit::de::Deserialize>(v: T) -> Slim<T> {
    let mut w = Slim::new();
    w.v = v;
    w.after = u8_();
    w
}

// ---- states ----

pub fn rt() -> Runtime {
    Runtime::new()
}

pub fn point() -> Point {
    let mut p = Point::new(rt());
    p.x = u8_();
    p.y = i16_();
    p
}

/// Numbers of one encoded byte: never omitted, so they add no branches.
pub fn t8() -> u8 {
    let x = u8_();
    assume(x >= 1 && x < 128);
    x
}

pub fn t16() -> i16 {
    let x = i16_();
    assume(x >= 1 && x < 64);
    x
}

/// A number of one encoded byte, or omitted.
pub fn z8() -> u8 {
    let x = u8_();
    assume(x < 128);
    x
}

pub fn small_point() -> Point {
    let mut p = Point::new(rt());
    p.x = z8();
    p
}

pub fn thin_point() -> Point {
    let mut p = Point::new(rt());
    p.x = t8();
    p
}

pub fn thin_shape() -> Shape {
    match choose(3) {
        0 => Shape::new_empty(rt()),
        1 => {
            let mut s = Shape::new_circle(rt());
            if let Shape::Circle(r, ..) = &mut s {
                *r = t8();
            }
            s
        }
        _ => {
            let mut s = Shape::new_rect(rt());
            if let Shape::Rect { a, p, .. } = &mut s {
                *a = t8();
                p.y = t16();
            }
            s
        }
    }
}

pub fn shape() -> Shape {
    match choose(3) {
        0 => Shape::new_empty(rt()),
        1 => {
            let mut s = Shape::new_circle(rt());
            if let Shape::Circle(r, ..) = &mut s {
                *r = u8_();
            }
            s
        }
        _ => {
            let mut s = Shape::new_rect(rt());
            if let Shape::Rect { a, p, .. } = &mut s {
                *a = u8_();
                p.y = i16_();
            }
            s
        }
    }
}

pub fn list<T: State>(n: u32, f: impl Fn() -> T) -> List<T> {
    List::from_iter(rt(), vec_of(n, f))
}

pub fn map_u8<V: State>(n: u32, f: impl Fn() -> V) -> Map<u8, V> {
    let n = choose(n + 1);
    Map::from_iter(rt(), (0..n).map(|_| (u8_(), f())).collect::<Vec<_>>())
}

pub fn map_u16<V: State>(n: u32, f: impl Fn() -> V) -> Map<u16, V> {
    let n = choose(n + 1);
    Map::from_iter(rt(), (0..n).map(|_| (u16_(), f())).collect::<Vec<_>>())
}

/// A 32-bit map key that fits a field number.
pub fn key_u32() -> u32 {
    let k = u32_();
    assume(k < 1 << 29);
    k
}

pub fn map_u32<V: State>(n: u32, f: impl Fn() -> V) -> Map<u32, V> {
    let n = choose(n + 1);
    Map::from_iter(rt(), (0..n).map(|_| (key_u32(), f())).collect::<Vec<_>>())
}

pub fn maybe<T: State>(f: impl Fn() -> T) -> Maybe<T> {
    Maybe::from_option(rt(), opt(f))
}

/// A world with two of its parts set.
pub fn world() -> World {
    let mut w = World::new(rt());
    world_part(&mut w, choose(9));
    w.id = u16_();
    w
}

pub fn world_part(w: &mut World, part: u32) {
    match part {
        0 => w.id = u16_(),
        1 => w.at = point(),
        2 => w.pts = list(2, small_point),
        3 => w.map = map_u8(1, shape),
        4 => w.opt = maybe(point),
        5 => *w.boxed = point(),
        6 => w.nums = list(3, u8_),
        7 => w.note = string(1),
        _ => w.shape = shape(),
    }
}

pub fn tree() -> Tree {
    let mut t = leaf();
    match choose(3) {
        0 => (),
        1 => {
            let mut k = leaf();
            k.kids = List::from_iter(rt(), vec![leaf()]);
            t.kids = List::from_iter(rt(), vec![k, leaf()]);
        }
        _ => {
            let mut k = leaf();
            k.named = Map::from_iter(rt(), vec![(300u16, leaf())]);
            t.named = Map::from_iter(rt(), vec![(0u16, leaf()), (65535u16, k)]);
        }
    }
    t
}

pub fn leaf() -> Tree {
    let mut t = Tree::new(rt());
    t.v = u8_();
    t
}

pub fn lean() -> Lean {
    let mut v = Lean::new(rt());
    v.a = u8_();
    v.p = point();
    v
}

pub fn renamed() -> Renamed {
    let mut v = Renamed::new(rt());
    v.size_cache = u8_();
    v.runtime = point();
    v
}

pub fn tuple() -> Tuple {
    let mut v = Tuple::new(rt());
    v.0 = u8_();
    v.1 = small_point();
    v.2 = list(2, u8_);
    v
}

pub fn log_entry() -> LogEntry {
    let mut path = rt();
    for _ in 0..choose(4) {
        path = path.nested(u32_());
    }
    match choose(4) {
        0 => path.entry_update(&u16_()),
        1 => path.entry_list_push(&small_point()),
        2 => path.entry_list_pop(),
        _ => path.entry_map_remove(u32_()),
    }
}

pub fn far() -> Far {
    let mut v = Far::new(rt());
    v.a = u8_();
    v.b = small_point();
    v.d = Shape::new_rect(rt());
    v
}

pub fn boxes() -> Boxes {
    let mut v = Boxes::new(rt());
    match choose(5) {
        0 => *v.n = u8_(),
        1 => *v.s = shape(),
        2 => v.l = list(2, || Box::new(u8_())),
        3 => v.m = map_u8(1, || Box::new(shape())),
        _ => v.o = maybe(|| Box::new(i16_())),
    }
    v
}

fn kind_of(t: bool) -> Kind {
    match choose(3) {
        0 => {
            let mut k = Kind::new(rt());
            if let Kind::Plain { n, p, .. } = &mut k {
                *n = if t { t8() as u16 } else { u16_() };
                p.y = t16();
            }
            k
        }
        1 => {
            let mut k = Kind::new_many(rt());
            if let Kind::Many(l, m, ..) = &mut k {
                *l = list(1, z8);
                *m = map_u8(1, t8);
            }
            k
        }
        _ => {
            let mut k = Kind::new_sub(rt());
            if let Kind::Sub { part, note, .. } = &mut k {
                if choose(2) == 0 { *part = if t { thin_shape() } else { shape() } } else { *note = string(1) }
            }
            k
        }
    }
}
pub fn kind() -> Kind {
    kind_of(false)
}
pub fn thin_kind() -> Kind {
    kind_of(true)
}
pub fn distant() -> Distant {
    let rt = rt();
    let mut v = match choose(8) {
        0 => Distant::new(rt),
        1 => Distant::new_b(rt),
        2 => Distant::new_c(rt),
        3 => Distant::new_d(rt),
        4 => Distant::new_e(rt),
        5 => Distant::new_f(rt),
        6 => Distant::new_g(rt),
        _ => Distant::new_h(rt),
    };
    match &mut v {
        Distant::A { .. } => (),
        Distant::B(x, ..) => *x = t8(),
        Distant::C { n, .. } => *n = i16_(),
        Distant::D(b, x, ..) => { *b = bool_(); *x = t8() }
        Distant::E { x, y, .. } => { *x = t8(); *y = u8_() }
        Distant::F(p, ..) => *p = small_point(),
        Distant::G { l, n, .. } => { *l = list(1, t8); *n = t8() }
        Distant::H(x, ..) => *x = u8_(),
    }
    v
}
pub fn holder() -> Holder {
    let mut v = Holder::new(rt());
    match choose(3) {
        0 => v.kind = thin_kind(),
        1 => v.kinds = list(2, || Kind::new_many(rt())),
        _ => v.byk = map_u8(1, thin_kind),
    }
    v
}

/// A long list, with one arbitrary item somewhere.
pub fn many_u8() -> List<u8> {
    let n = [127, 128, 255, 256, 257, 16384][choose(6) as usize];
    let mut v = vec![1u8; n];
    v[[0, n / 2, n - 1][choose(3) as usize]] = u8_();
    List::from_iter(rt(), v)
}
pub fn many_points() -> List<Point> {
    let n = [127, 129, 256, 300][choose(4) as usize];
    let mut l = List::from_iter(rt(), (0..n).map(|i| { let mut p = Point::new(rt()); p.x = i as u8; p }));
    l[[0, 126, n - 1][choose(3) as usize]].x = u8_();
    l
}
/// A map of many entries, with arbitrary ones.
pub fn many_map() -> Map<u16, u8> {
    let n = [64, 128, 130][choose(3) as usize];
    let mut m = Map::from_iter(rt(), (0..n).map(|i| (i * 131, 1u8)));
    m.insert([0, 131, 100 * 131, 7][choose(4) as usize], u8_());
    m
}
/// A tree that goes `depth` levels down, by its first and second child.
pub fn deep_tree(depth: u32) -> Tree {
    let mut t = Tree::new(rt());
    t.v = u8_();
    for i in 0..depth {
        let mut up = Tree::new(rt());
        up.v = i as u8;
        up.kids = List::from_iter(rt(), if i % 3 == 0 { vec![Tree::new(rt()), t] } else { vec![t] });
        t = up;
    }
    t
}
/// The number of the child that leads further down, for each level from the top.
pub fn deep_way(depth: u32) -> Vec<u32> {
    (0..depth).rev().map(|i| (i % 3 == 0) as u32).collect()
}
pub fn deepest<'a>(mut t: &'a mut Tree, way: &[u32]) -> &'a mut Tree {
    for i in way {
        t = &mut t.kids[*i as usize];
    }
    t
}
