//! Histories of changes to states, and the oracles that watch them.
use crate::{gen::*, sym::*, types::*};
use std::sync::{
    atomic::{AtomicUsize, Ordering},
    Arc, Mutex,
};
use steit::{
    de::*,
    log::{loggers::BufferLogger, *},
    rt::*,
    ser::*,
    state::*,
    types::*,
    wire_fmt::*,
};

pub type Log = Arc<Mutex<RuntimeLogger<BufferLogger>>>;

pub fn logged() -> (Runtime, Log) {
    Runtime::with_logger_returned(BufferLogger::new())
}

pub fn take(log: &Log) -> Vec<u8> {
    log.lock().unwrap().pluck_bytes()
}

pub fn decode<S: Deserialize>(b: &[u8]) -> S {
    let r = S::deserialize(&mut Reader::new(b));
    check(r.is_ok(), 80);
    r.unwrap()
}

/// A state under observation: `one` follows it change by change, `all` replays the whole log at the end.
pub struct Rig<S: State> {
    pub v: S,
    pub one: S,
    pub all: S,
    pub log: Log,
    pub bytes: Vec<u8>,
}

impl<S: State + PartialEq> Rig<S> {
    pub fn new(mut v: S) -> Self {
        let enc = v.to_bytes();
        let (rt, log) = logged();
        v.set_runtime(rt);
        check(take(&log).is_empty(), 81);
        Self { v, one: decode(&enc), all: decode(&enc), log, bytes: Vec::new() }
    }

    pub fn sync(&mut self) {
        let b = take(&self.log);
        check(self.one.replay(&mut Reader::new(&b[..])).is_ok(), 82);
        check(self.one == self.v, 83);
        self.bytes.extend_from_slice(&b);
        observe(b.len() as u64);
    }

    pub fn finish(&mut self) {
        check(self.all.replay(&mut Reader::new(&self.bytes[..])).is_ok(), 84);
        check(self.all == self.v, 85);
        check(same(&self.all.to_bytes(), &self.v.to_bytes()), 86);
        check(same(&self.one.to_bytes(), &self.v.to_bytes()), 87);
        cover(1);
    }

    pub fn run(v: S, n: u32, step: impl Fn(&mut S)) {
        let mut rig = Self::new(v);
        for _ in 0..n {
            step(&mut rig.v);
            rig.sync();
        }
        rig.finish();
    }
}

static HOME: AtomicUsize = AtomicUsize::new(0);

pub fn logger_of(rt: &Runtime) -> usize {
    Arc::as_ptr(rt.logger()) as *const u8 as usize
}

pub fn place(got: &Runtime, path: &[u32]) {
    let values = got.path().collect_values();
    check(values.len() == path.len(), 88);
    let mut d = 0;
    for i in 0..path.len() {
        d |= values[i] ^ path[i];
    }
    check(d == 0, 87);
    check(got.is_root() == path.is_empty() && got.get_field_number() == path.last().copied(), 89);
    let home = HOME.load(Ordering::Relaxed);
    check(home == 0 || home == logger_of(got), 86);
}

/// Every node below `base` knows where it is and logs to the logger of `base`.
pub fn placed_at<S: Placed>(v: &S, base: &Runtime) {
    HOME.store(logger_of(base), Ordering::Relaxed);
    v.placed(&mut base.path().collect_values());
    HOME.store(0, Ordering::Relaxed);
}

/// Every node of a state knows where it is.
pub trait Placed {
    fn placed(&self, path: &mut Vec<u32>);
}

pub fn sub<T: Placed>(v: &T, field: u32, path: &mut Vec<u32>) {
    path.push(field);
    v.placed(path);
    path.pop();
}

impl Placed for u8 {
    fn placed(&self, _: &mut Vec<u32>) {}
}
impl Placed for u16 {
    fn placed(&self, _: &mut Vec<u32>) {}
}
impl Placed for i16 {
    fn placed(&self, _: &mut Vec<u32>) {}
}
impl<T: State + Placed> Placed for List<T> {
    fn placed(&self, path: &mut Vec<u32>) {
        place(self.runtime(), path);
        for (i, x) in self.iter().enumerate() {
            sub(x, i as u32, path);
        }
    }
}
impl<K: MapKeyed, V: State + Placed> Placed for Map<K, V> {
    fn placed(&self, path: &mut Vec<u32>) {
        place(self.runtime(), path);
        for (k, x) in self.iter() {
            sub(x, k.number(), path);
        }
    }
}
impl<T: State + Placed> Placed for Maybe<T> {
    fn placed(&self, path: &mut Vec<u32>) {
        // The runtime of an enum is that of its variant.
        path.push(if self.is_some() { 1 } else { 0 });
        place(self.runtime(), path);
        if let Maybe::Some { value, .. } = self {
            sub(value, 0, path);
        }
        path.pop();
    }
}
impl<T: State + Placed> Placed for Box<T> {
    fn placed(&self, path: &mut Vec<u32>) {
        (**self).placed(path);
    }
}
impl Placed for Point {
    fn placed(&self, path: &mut Vec<u32>) {
        place(self.runtime(), path);
    }
}
impl Placed for Shape {
    fn placed(&self, path: &mut Vec<u32>) {
        match self {
            Shape::Empty { .. } => {
                path.push(0);
                place(self.runtime(), path);
            }
            Shape::Circle(..) => {
                path.push(3);
                place(self.runtime(), path);
            }
            Shape::Rect { p, .. } => {
                path.push(16);
                place(self.runtime(), path);
                sub(p, 4, path);
            }
        }
        path.pop();
    }
}
impl Placed for Kind {
    fn placed(&self, path: &mut Vec<u32>) {
        path.push(match self {
            Kind::Plain { .. } => 0,
            Kind::Many(..) => 1,
            Kind::Sub { .. } => 300,
        });
        place(self.runtime(), path);
        match self {
            Kind::Plain { p, .. } => sub(p, 1, path),
            Kind::Many(l, m, ..) => {
                sub(l, 0, path);
                sub(m, 2, path);
            }
            Kind::Sub { part, .. } => sub(part, 3, path),
        }
        path.pop();
    }
}
impl Placed for Distant {
    fn placed(&self, path: &mut Vec<u32>) {
        path.push(match self {
            Distant::A { .. } => 0,
            Distant::B(..) => 127,
            Distant::C { .. } => 128,
            Distant::D(..) => 16383,
            Distant::E { .. } => 16384,
            Distant::F(..) => 2097152,
            Distant::G { .. } => 268435456,
            Distant::H(..) => 536870911,
        });
        place(self.runtime(), path);
        match self {
            Distant::F(p, ..) => sub(p, 262143, path),
            Distant::G { l, .. } => sub(l, 33554432, path),
            _ => (),
        }
        path.pop();
    }
}
impl Placed for Holder {
    fn placed(&self, path: &mut Vec<u32>) {
        place(self.runtime(), path);
        sub(&self.kind, 1, path);
        sub(&self.kinds, 2, path);
        sub(&self.byk, 3, path);
    }
}
impl Placed for World {
    fn placed(&self, path: &mut Vec<u32>) {
        place(self.runtime(), path);
        sub(&self.at, 1, path);
        sub(&self.pts, 2, path);
        sub(&self.map, 3, path);
        sub(&self.opt, 4, path);
        sub(&self.boxed, 5, path);
        sub(&self.nums, 6, path);
        sub(&self.shape, 20, path);
    }
}
impl Placed for Lean {
    fn placed(&self, path: &mut Vec<u32>) {
        place(self.runtime(), path);
        sub(&self.p, 1, path);
    }
}
impl Placed for Renamed {
    fn placed(&self, path: &mut Vec<u32>) {
        place(State::runtime(self), path);
        sub(&self.runtime, 1, path);
    }
}
impl Placed for Tuple {
    fn placed(&self, path: &mut Vec<u32>) {
        place(self.runtime(), path);
        sub(&self.1, 1, path);
        sub(&self.2, 2, path);
    }
}
impl Placed for Tree {
    fn placed(&self, path: &mut Vec<u32>) {
        place(self.runtime(), path);
        sub(&self.kids, 1, path);
        sub(&self.named, 2, path);
    }
}

impl Placed for Numbers {
    fn placed(&self, path: &mut Vec<u32>) {
        place(self.runtime(), path);
    }
}
impl Placed for Far {
    fn placed(&self, path: &mut Vec<u32>) {
        place(self.runtime(), path);
        sub(&self.b, 300, path);
        sub(&self.c, 0x1fff_ffff, path);
        sub(&self.d, 70000, path);
    }
}
impl Placed for Boxes {
    fn placed(&self, path: &mut Vec<u32>) {
        place(self.runtime(), path);
        sub(&self.s, 1, path);
        sub(&self.l, 2, path);
        sub(&self.m, 3, path);
        sub(&self.o, 4, path);
    }
}
impl<A: State + Placed, B: State + Placed> Placed for Duo<A, B> {
    fn placed(&self, path: &mut Vec<u32>) {
        place(self.runtime(), path);
        sub(&self.a, 0, path);
        sub(&self.b, 1, path);
    }
}

pub trait MapKeyed: MapKey {
    fn number(&self) -> u32;
}
impl MapKeyed for u8 {
    fn number(&self) -> u32 {
        *self as u32
    }
}
impl MapKeyed for u16 {
    fn number(&self) -> u32 {
        *self as u32
    }
}
impl MapKeyed for u32 {
    fn number(&self) -> u32 {
        *self
    }
}

// ---- changes ----

pub fn point_op(p: &mut Point) {
    match choose(3) {
        0 => {
            p.set_x(u8_());
        }
        1 => {
            p.set_y(t16());
        }
        _ => {
            let y = t16();
            p.set_x_with(|_| 7).set_y_with(|_| y);
        }
    }
}

pub fn shape_op(s: &mut Shape) {
    match choose(5) {
        0 => {
            s.set_circle_f0(z8());
        }
        1 => {
            s.set_rect_a(t8());
        }
        2 => {
            s.set_rect_p(small_point());
        }
        3 => {
            let x = t8();
            s.set_rect_p_with(|rt| {
                let mut p = Point::new(rt);
                p.set_x(x);
                p
            });
        }
        _ => {
            if let Shape::Rect { p, .. } = s {
                p.set_y(t16());
            }
        }
    }
}

/// Changes of a list's length; `item` makes an item, `with` one on a given runtime.
pub fn list_op<T: State>(l: &mut List<T>, item: impl Fn() -> T, with: impl Fn(Runtime) -> T) {
    match choose(4) {
        0 => {
            let n = l.len();
            check(l.push(item()) == n && l.len() == n + 1, 70);
        }
        1 => {
            let n = l.len();
            check(l.push_with(|rt| with(rt)) == n && l.len() == n + 1, 71);
        }
        2 => {
            let n = l.len();
            check(l.pop().is_some() == (n > 0), 72);
        }
        _ => {
            let n = l.len() as u32;
            let i = choose(n + 2);
            check(l.swap_remove(i as usize).is_some() == (i < n), 73);
        }
    }
}

/// A change of one item, reached in each possible way.
pub fn list_item_op<T: State>(l: &mut List<T>, change: impl Fn(&mut T)) {
    let n = l.len() as u32;
    if n == 0 {
        return;
    }
    let i = choose(n) as usize;
    match choose(4) {
        0 => change(l.get_mut(i).unwrap()),
        1 => change(&mut l[i]),
        2 => change(l.iter_mut().nth(i).unwrap()),
        _ => {
            for (k, x) in l.into_iter().enumerate() {
                if k == i {
                    change(x);
                }
            }
        }
    }
}

pub fn map_op<K: MapKeyed + Copy + Eq + std::hash::Hash, V: State>(m: &mut Map<K, V>, k: K, item: impl Fn() -> V, with: impl Fn(Runtime) -> V) {
    let had = m.contains(&k);
    match choose(3) {
        0 => {
            check(m.insert(k, item()).is_some() == had && m.contains(&k), 74);
        }
        1 => {
            check(m.insert_with(k, |rt| with(rt)).is_some() == had && m.contains(&k), 75);
        }
        _ => {
            check(m.remove(&k).is_some() == had && !m.contains(&k), 76);
        }
    }
}

pub fn map_item_op<K: MapKeyed + Copy + Eq + std::hash::Hash, V: State>(m: &mut Map<K, V>, k: K, change: impl Fn(&mut V)) {
    match choose(3) {
        0 => {
            if let Some(v) = m.get_mut(&k) {
                change(v);
            }
        }
        1 => {
            for (key, v) in m.iter_mut() {
                if key == k {
                    change(v);
                }
            }
        }
        _ => {
            if m.contains(&k) {
                change(&mut m[&k]);
            }
        }
    }
}

pub fn point_with(rt: Runtime) -> Point {
    let mut p = Point::new(rt);
    p.set_x(t8());
    p
}

pub fn shape_with(rt: Runtime) -> Shape {
    let mut s = Shape::new_rect(rt);
    s.set_rect_a(t8());
    s
}

pub fn maybe_op<T: State>(m: &mut Maybe<T>, item: impl Fn() -> T, with: impl Fn(Runtime) -> T, change: impl Fn(&mut T)) {
    match choose(3) {
        0 => {
            m.set_some_value(item());
        }
        1 => {
            m.set_some_value_with(|rt| with(rt));
        }
        _ => {
            if let Maybe::Some { value, .. } = m {
                change(value);
            }
        }
    }
}

pub const WORLD_OPS: u32 = 19;

pub fn world_op(w: &mut World, op: u32) {
    match op {
        0 => {
            w.set_id(u16_());
        }
        1 => {
            w.set_at(small_point());
        }
        2 => {
            w.set_at_with(point_with);
        }
        3 => point_op(&mut w.at),
        4 => list_op(&mut w.pts, small_point, point_with),
        5 => list_item_op(&mut w.pts, |p| { p.set_y(t16()); }),
        6 => map_op(&mut w.map, t8(), || Shape::new_rect(rt()), shape_with),
        7 => map_item_op(&mut w.map, t8(), shape_op),
        8 => maybe_op(&mut w.opt, small_point, point_with, |p| { p.set_y(t16()); }),
        9 => {
            w.set_opt(Maybe::from_option(rt(), opt(small_point)));
        }
        10 => {
            w.set_opt_with(|rt| Maybe::some(rt, small_point()));
        }
        11 => point_op(&mut w.boxed),
        12 => {
            w.set_boxed(Box::new(small_point()));
        }
        13 => list_op(&mut w.nums, u8_, |_| t8()),
        14 => {
            w.set_nums(list(2, u8_));
        }
        15 => shape_op(&mut w.shape),
        16 => {
            w.set_shape(thin_shape());
        }
        17 => {
            w.set_pts(list(2, thin_point));
        }
        _ => {
            w.set_map(map_u8(1, thin_shape));
        }
    }
}

/// Any log entry with a path of up to `path_max` numbers and a value of up to `n` bytes.
pub fn entry(path_max: u32, n: u32) -> LogEntry {
    let mut path = rt();
    for _ in 0..choose(path_max + 1) {
        path = path.nested(u32_());
    }
    match choose(4) {
        0 => path.entry_update(&Bytes::from_raw(any(n))),
        1 => path.entry_list_push(&Bytes::from_raw(any(n))),
        2 => path.entry_list_pop(),
        _ => path.entry_map_remove(u32_()),
    }
}

pub fn distant_op(v: &mut Distant) {
    match choose(9) {
        0 => { v.set_b_f0(t8()); }
        1 => { v.set_c_n(i16_()); }
        2 => { v.set_d_f1_with(|_| t8()); }
        3 => { v.set_e_x(t8()); }
        4 => { v.set_e_y(t8()); }
        5 => { v.set_f_f0_with(point_with); }
        6 => { v.set_g_l(list(1, t8)); }
        7 => { v.set_h_f0(t8()); }
        _ => match v {
            Distant::F(p, ..) => point_op(p),
            Distant::G { l, .. } => list_op(l, z8, |_| t8()),
            _ => (),
        }
    }
}

pub fn kind_op(k: &mut Kind) {
    match choose(8) {
        0 => {
            k.set_plain_n(z8() as u16);
        }
        1 => {
            k.set_plain_p(small_point());
        }
        2 => {
            k.set_plain_p_with(point_with);
        }
        3 => {
            k.set_many_f0(list(1, t8));
        }
        4 => {
            k.set_many_f1_with(|rt| {
                let mut m = Map::new(rt);
                m.insert(t8(), 1);
                m
            });
        }
        5 => {
            k.set_sub_part(thin_shape());
        }
        6 => match k {
            Kind::Plain { p, .. } => point_op(p),
            Kind::Many(l, ..) => list_op(l, z8, |_| t8()),
            Kind::Sub { part, .. } => shape_op(part),
        },
        _ => {
            if let Kind::Many(_, m, ..) = k {
                map_op(m, t8(), z8, |_| t8())
            }
        }
    }
}
pub fn kind_with(rt: Runtime) -> Kind {
    let mut k = Kind::new_many(rt);
    k.set_plain_n(t8() as u16);
    k
}
