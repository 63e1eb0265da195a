//! C20: however the sink accepts its bytes, it gets exactly the encoding, or a prefix of it and its error is reported.
use crate::{gen::*, ops::*, sym::*, types::*};
use std::{collections::HashMap, io::{self, ErrorKind, Write}};
use steit::{rt::*, ser::*, state::*, types::*, wire_fmt::*};

/// Accepts at most `chunk` bytes at once, and `events` times does something special: accepts fewer,
/// is interrupted, or (if `faulty`) fails or accepts nothing more.
struct Sink {
    out: Vec<u8>,
    chunk: usize,
    events: u32,
    faulty: bool,
    failed: Option<ErrorKind>,
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        check(self.failed.is_none(), 1); // nothing is written after a failure
        let mut n = buf.len().min(self.chunk);
        if self.events > 0 && n > 0 {
            let short = (n > 1) as u32;
            let c = choose(2 + short + self.faulty as u32);
            if c > 0 {
                self.events -= 1;
                if c == 1 {
                    return Err(ErrorKind::Interrupted.into());
                } else if c == 2 && short == 1 {
                    n = 1 + choose(n as u32 - 1) as usize;
                } else {
                    let kind = [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WriteZero][choose(3) as usize];
                    self.failed = Some(kind);
                    return if kind == ErrorKind::WriteZero { Ok(0) } else { Err(kind.into()) };
                }
            }
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn sink() -> Sink {
    let mut s = Sink { out: Vec::new(), chunk: usize::MAX, events: 0, faulty: false, failed: None };
    if choose(2) == 0 {
        s.chunk = 1 + choose(3) as usize;
        s.events = deep();
    } else {
        s.events = 1 + deep();
        s.faulty = true;
    }
    s
}

fn accept<T: Serialize>(v: T) {
    let want = v.to_bytes();
    let mut item = Vec::new();
    let mut field = Vec::new();
    v.serialize_nested(None, false, &mut item).unwrap();
    v.serialize_nested(300, true, &mut field).unwrap();
    let mut s = sink();
    let (want, r) = match choose(4) {
        0 => (want, v.steit_serialize(&mut s)),
        1 => (want, v.serialize_cached(&mut s)),
        2 => (item, v.serialize_nested(None, false, &mut s)),
        _ => (field, v.serialize_nested(300, true, &mut s)),
    };
    match s.failed {
        None => {
            check(r.is_ok(), 2);
            check(same(&s.out, &want), 3);
        }
        Some(kind) => {
            check(r.is_err(), 4);
            check(r.err().unwrap().kind() == kind, 5);
            check(s.out.len() < want.len() && same(&s.out, &want[..s.out.len()]), 6);
            cover(2);
        }
    }
    observe_bytes(&s.out);
    cover(1);

    // A failed attempt leaves nothing behind: the next one is complete.
    check(same(&v.to_bytes(), &{ let mut o = Vec::new(); v.serialize_cached(&mut o).unwrap(); o }), 7);
}

fn thin_act() -> Act {
    match choose(4) {
        0 => Act::new_unit(),
        1 => { let mut v = Act::new_tuple(); if let Act::Tuple(a, f, ..) = &mut v { *a = t8(); f.1 = -1; } v }
        2 => { let mut v = Act::new_named(); if let Act::Named { x, v, .. } = &mut v { *x = t8() as u16; *v = vec![t8()]; } v }
        _ => { let mut v = Act::new_lean(); if let Act::Lean { y, .. } = &mut v { *y = -1; } v }
    }
}

harness! {
    c20_u8 => { accept(u8_()) }
    c20_u16 => { accept(u16_()) }
    c20_u32 => { accept(u32_()) }
    c20_u64 => { accept(u64_()) }
    c20_i16 => { accept(i16_()) }
    c20_i64 => { accept(i64_()) }
    c20_bool => { accept(bool_()) }
    c20_string => { accept(ascii(choose(4) as usize)) }
    c20_long_string => { accept(long_string()) }
    c20_bytes => { accept(Bytes::from_raw(any(4))) }
    c20_vec => { accept(vec_of(2, || ascii(2))) }
    c20_vec_num => { accept(vec_of(3, t8)) }
    c20_opt => { accept(opt(|| { let mut f = Foo::new(); f.0 = t8(); f })) }
    c20_arr => { accept([t8(), t8(), 200]) }
    c20_kind => { accept(thin_kind()) }
    c20_tup => { accept((t8(), ascii(2), bool_())) }
    c20_hash => { let mut m = HashMap::new(); m.insert(t8(), ascii(2)); accept(m) }
    c20_box => { accept(Box::new(thin_act())) }
    c20_act => { accept(thin_act()) }
    c20_flat => { let mut v = Flat::new(); v.a = t8(); v.d = t8() as u16; v.f = t8(); accept(v) }
    c20_msg => { let mut v = Msg::new(); match choose(3) {
        0 => v.raw = Bytes::from_raw(bytes(2)),
        1 => v.act = thin_act(),
        _ => v.tup = (t8(), true),
    } v.arr = [t8(), 0]; accept(v) }
    c20_generic => { accept(slim(wrap(t8()))) }
    c20_list => { accept(List::from_iter(rt(), vec![thin_point(), Point::new(rt())])) }
    c20_map => { accept(Map::from_iter(rt(), vec![(z8(), thin_shape())])) }
    c20_maybe => { accept(maybe(thin_point)) }
    c20_world => { let mut w = World::new(rt()); match choose(4) {
        0 => w.note = ascii(2),
        1 => w.pts = List::from_iter(rt(), vec![thin_point()]),
        2 => w.map = Map::from_iter(rt(), vec![(t8(), thin_shape())]),
        _ => w.opt = Maybe::some(rt(), thin_point()),
    } accept(w) }
    c20_tree => { let mut t = leaf(); t.kids = List::from_iter(rt(), vec![Tree::new(rt())]); accept(t) }
    c20_entry => { accept(entry(2, 2)) }
    c20_large => {
        let mut v = vec![u8_(); [4097, 9000, 20000][choose(3) as usize]];
        v[4000] = u8_();
        let v = wrap(Bytes::from_raw(v));
        let want = v.to_bytes();
        let mut s = Sink { out: Vec::new(), chunk: [1000, 1024, 4096, 8191, 8192][choose(5) as usize], events: 0, faulty: false, failed: None };
        check(v.steit_serialize(&mut s).is_ok(), 20);
        check(same(&s.out, &want), 21);
        cover(1);
        cover(2);
    }
}
