//! C24: encodings of the same value that are under way at the same time do not disturb each other.
use crate::{common::*, gen::*, ops::*, sym::*, types::*};
use std::{
    collections::HashMap,
    io::{self, Write},
    sync::atomic::{AtomicU32, AtomicUsize, Ordering},
};
use steit::{de::*, rt::*, ser::*, state::*, steit_derive, types::*, wire_fmt::*};

/// Starts up to `left` other encodings of the value at any of the writes of its own.
struct Echo<'a, T> {
    v: &'a T,
    want: &'a [u8],
    out: Vec<u8>,
    left: u32,
}

impl<'a, T: Serialize> Write for Echo<'a, T> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.left > 0 && choose(2) == 1 {
            self.left -= 1;
            other(self.v, self.want, self.left);
        }
        self.out.extend_from_slice(b);
        Ok(b.len())
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct Fail(u32);
impl Write for Fail {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0 == 0 {
            return Err(io::ErrorKind::Other.into());
        }
        self.0 -= 1;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Another use of the sizes of the same value, complete or not.
fn other<T: Serialize>(v: &T, want: &[u8], left: u32) {
    match choose(5) {
        0 => check(same(&v.to_bytes(), want), 1),
        1 => {
            let mut e = Echo { v, want, out: Vec::new(), left };
            v.steit_serialize(&mut e).unwrap();
            check(same(&e.out, want), 2);
        }
        2 => check(v.compute_size() as usize == want.len(), 3),
        3 => {
            check(v.cache_size() as usize == want.len() && v.cached_size() as usize == want.len(), 4);
            v.compute_size_nested(5, true).unwrap();
        }
        _ => { let _ = v.steit_serialize(&mut Fail(1)); }
    }
}

fn shared<T: Serialize>(v: T) {
    let want = v.to_bytes();
    let mut e = Echo { v: &v, want: &want, out: Vec::new(), left: 1 + deep() };
    if choose(2) == 0 {
        v.steit_serialize(&mut e).unwrap();
        check(same(&e.out, &want), 5);
    } else {
        v.serialize_nested(300, false, &mut e).unwrap();
        let out = std::mem::take(&mut e.out);
        let mut plain = Vec::new();
        v.serialize_nested(300, false, &mut plain).unwrap();
        check(same(&out, &plain), 6);
    }
    check(same(&v.to_bytes(), &want), 7);
    observe_bytes(&want);
    cover(1);
}

// ---- points within the calculation of sizes ----

static HOST: AtomicUsize = AtomicUsize::new(0);
static WANT: AtomicUsize = AtomicUsize::new(0);
static LEFT: AtomicU32 = AtomicU32::new(0);

/// A number that looks at the message it is in whenever it is asked for its size or written.
#[derive(Clone, Default, PartialEq, Debug)]
pub struct Probe(u8);

fn visit() {
    let left = LEFT.load(Ordering::Relaxed);
    if left > 0 && choose(2) == 1 {
        LEFT.store(left - 1, Ordering::Relaxed);
        let (h, want) = unsafe { (&*(HOST.load(Ordering::Relaxed) as *const Host), &*(WANT.load(Ordering::Relaxed) as *const Vec<u8>)) };
        other(h, want, left - 1);
    }
}

impl HasWireType for Probe {
    const WIRE_TYPE: WireType = WireType::Sized;
}
impl Serialize for Probe {
    fn compute_size(&self) -> u32 {
        visit();
        self.0.compute_size()
    }
    fn serialize_cached(&self, w: &mut impl Write) -> io::Result<()> {
        visit();
        self.0.serialize_cached(w)
    }
    fn size_cache(&self) -> Option<&SizeCache> {
        None
    }
}
impl Deserialize for Probe {
    fn merge(&mut self, r: &mut Reader<impl io::Read>) -> io::Result<()> {
        self.0.merge(r)
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
#[steit(no_meta)]
pub struct Inner {
    #[steit(tag = 0)]
    pub a: u8,
    #[steit(tag = 1)]
    pub p: Probe,
    #[steit(tag = 2)]
    pub b: u8,
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
#[steit(no_meta)]
pub enum Side {
    #[steit(tag = 0)]
    None,
    #[steit(tag = 1)]
    In(#[steit(tag = 0)] u8, #[steit(tag = 1)] Inner),
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
#[steit(no_meta)]
pub struct Host {
    #[steit(tag = 0)]
    pub foo: Foo,
    #[steit(tag = 1)]
    pub inner: Inner,
    #[steit(tag = 2)]
    pub many: Vec<Probe>,
    #[steit(tag = 3)]
    pub side: Side,
    #[steit(tag = 4)]
    pub opt: Option<Box<Inner>>,
    #[steit(tag = 5)]
    pub tail: Vec<u8>,
}

fn inner() -> Inner {
    let mut v = Inner::new();
    v.a = t8();
    v.p = Probe(7);
    v.b = 200;
    v
}

fn hosted(v: Host) {
    let want = v.to_bytes();
    HOST.store(&v as *const _ as usize, Ordering::Relaxed);
    WANT.store(&want as *const _ as usize, Ordering::Relaxed);
    LEFT.store(1 + deep(), Ordering::Relaxed);
    match choose(3) {
        0 => check(same(&v.to_bytes(), &want), 10),
        1 => { let mut o = Vec::new(); v.cache_size(); v.serialize_cached(&mut o).unwrap(); check(same(&o, &want), 11); }
        _ => check(v.compute_size() as usize == want.len() && v.cache_size() as usize == want.len(), 12),
    }
    LEFT.store(0, Ordering::Relaxed);
    check(same(&v.to_bytes(), &want), 13);
    cover(1);
}

fn host() -> Host {
    let mut h = Host::new();
    h.foo.0 = t8();
    h.tail = vec![1, 2];
    h
}

harness! {
    c24_foo => { let mut v = Foo::new(); v.0 = t8(); v.1 = -1; shared(v) }
    c24_flat => { let mut v = Flat::new(); v.a = t8(); v.b = t16(); v.d = 5; shared(v) }
    c24_string => { shared(ascii(2)) }
    c24_vec_foo => { shared(vec![{ let mut f = Foo::new(); f.0 = t8(); f }, Foo::new(), { let mut f = Foo::new(); f.1 = i8_(); f }]) }
    c24_opt => { shared(Some(Some({ let mut f = Foo::new(); f.0 = t8(); f }))) }
    c24_arr => { shared([{ let mut f = Foo::new(); f.0 = t8(); f }, Foo::new()]) }
    c24_kind => { let mut k = Kind::new(rt()); if let Kind::Plain { n, p, .. } = &mut k { *n = t8() as u16; p.x = t8(); } shared(k) }
    c24_tup => { shared((t8(), { let mut f = Foo::new(); f.0 = t8(); f }, ascii(1))) }
    c24_hash => { let mut m = HashMap::new(); m.insert(t8(), { let mut f = Foo::new(); f.0 = t8(); f }); shared(m) }
    c24_act => { let mut v = Act::new_tuple(); if let Act::Tuple(a, f, ..) = &mut v { *a = t8(); f.0 = t8(); } shared(v) }
    c24_msg => { let mut v = Msg::new(); v.raw = Bytes::from_raw(bytes(1)); match choose(3) {
        0 => { v.opt = Some(Foo::new()); v.foos = vec![Foo::new(), { let mut f = Foo::new(); f.0 = t8(); f }]; }
        1 => v.boxed.0 = t8(),
        _ => { v.act = Act::new_named(); if let Act::Named { x, .. } = &mut v.act { *x = 300; } }
    } shared(v) }
    c24_slim => { let mut f = Foo::new(); f.0 = t8(); shared(slim(wrap(f))) }
    c24_list => { shared(List::from_iter(rt(), vec![thin_point(), thin_point()])) }
    c24_map => { shared(Map::from_iter(rt(), vec![(3u8, thin_shape()), (9, thin_shape())])) }
    c24_maybe => { shared(Maybe::some(rt(), Maybe::some(rt(), thin_point()))) }
    c24_world => { let mut w = World::new(rt()); w.pts = List::from_iter(rt(), vec![thin_point()]); w.at = thin_point(); w.map = Map::from_iter(rt(), vec![(1, Shape::new_empty(rt()))]); shared(w) }
    c24_tree => { let mut t = leaf(); t.kids = List::from_iter(rt(), vec![leaf(), Tree::new(rt())]); shared(t) }
    c24_entry => { shared(rt().nested(200).entry_update(&t8())) }

    c24_host_inner => { let mut h = host(); h.inner = inner(); hosted(h) }
    c24_host_many => { let mut h = host(); h.many = vec![Probe(1), Probe(200)]; hosted(h) }
    c24_host_side => { let mut h = host(); h.side = Side::new_in(); if let Side::In(a, i, ..) = &mut h.side { *a = t8(); *i = inner(); } hosted(h) }
    c24_host_opt => { let mut h = host(); h.opt = Some(Box::new(inner())); hosted(h) }
}
