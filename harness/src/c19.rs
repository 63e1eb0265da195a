//! C19: decoding gives the same result however the source delivers its bytes, and reports its errors.
use crate::{common::put, gen::*, ops::*, sym::*, types::*};
use std::io::{self, ErrorKind, Read};
use steit::{de::*, log::LogEntry, rt::*, ser::*, state::*, types::*, wire_fmt::*};

/// Delivers `data` in pieces: at most `chunk` bytes at once, and `events` times something special:
/// fewer bytes than possible, an interruption or (if `faulty`) an error.
struct Source<'a> {
    data: &'a [u8],
    pos: usize,
    chunk: usize,
    events: u32,
    faulty: bool,
    failed: Option<ErrorKind>,
}

impl<'a> Source<'a> {
    fn new(data: &'a [u8]) -> Self {
        Self { data, pos: 0, chunk: usize::MAX, events: 0, faulty: false, failed: None }
    }
}

impl<'a> Read for Source<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut n = buf.len().min(self.data.len() - self.pos).min(self.chunk);
        if self.events > 0 {
            // Plain, interrupted, then the others if possible.
            let short = (n > 1) as u32;
            let c = choose(2 + short + self.faulty as u32);
            if c > 0 {
                self.events -= 1;
                if c == 1 {
                    return Err(ErrorKind::Interrupted.into());
                } else if c == 2 && short == 1 {
                    n = 1 + choose(n as u32 - 1) as usize;
                } else {
                    let kind = [ErrorKind::Other, ErrorKind::WouldBlock][choose(2) as usize];
                    self.failed = Some(kind);
                    self.faulty = false;
                    return Err(kind.into());
                }
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// The same outcome from a source of the given behaviour as from a slice.
fn arrive<T: Deserialize + Serialize>(data: &[u8], mut src: Source, nested: bool) {
    let mut slice = data;
    let run = |reader: &mut Reader<&mut dyn Read>| {
        if nested { T::deserialize_nested(T::WIRE_TYPE, reader) } else { T::deserialize(reader) }
    };
    let want = run(&mut Reader::new(&mut slice));
    let got = run(&mut Reader::new(&mut src));
    match (src.failed, want, got) {
        (Some(kind), _, got) => {
            check(got.is_err(), 1);
            check(got.err().unwrap().kind() == kind, 2);
            cover(2);
        }
        (None, Ok(want), Ok(got)) => {
            check(same(&got.to_bytes(), &want.to_bytes()), 3);
            check(src.pos == data.len() - slice.len(), 4);
            observe(src.pos as u64);
        }
        (None, Err(want), Err(got)) => check(got.kind() == want.kind(), 5),
        _ => check(false, 6),
    }
    cover(1);
}

fn pieces<T: Serialize + Deserialize>(v: T) {
    let data = v.to_bytes();
    let mut src = Source::new(&data);
    if choose(2) == 0 {
        src.chunk = 1 + choose(4) as usize;
        src.events = deep();
    } else {
        src.events = 1 + deep();
        src.faulty = true;
    }
    arrive::<T>(&data, src, false);
}

/// As one of several items, with more input behind it.
fn item<T: Serialize + Deserialize>(v: T) {
    let mut data = Vec::new();
    v.cache_size();
    v.serialize_nested(None, false, &mut data).unwrap();
    data.push(0x5a);
    data.push(0x5b);
    let mut src = Source::new(&data);
    src.chunk = [1, 2, 3, usize::MAX][choose(4) as usize];
    src.events = 1 + deep();
    src.faulty = true;
    arrive::<T>(&data, src, true);
}

/// Any bytes at all, accepted or not.
fn raw<T: Deserialize + Serialize>(n: u32) {
    let data = any(n);
    let mut src = Source::new(&data);
    src.chunk = [1, 2, usize::MAX][choose(3) as usize];
    src.events = 1 + deep();
    src.faulty = true;
    arrive::<T>(&data, src, false);
}

/// Numbers of one encoded byte everywhere.
fn thin_msg() -> Msg {
    let mut v = Msg::new();
    match choose(7) {
        0 => v.name = ascii(3),
        1 => v.raw = Bytes::from_raw(bytes(4)),
        2 => v.tup = (t8(), true),
        3 => v.arr = [t8(), t8()],
        4 => v.opt = opt(|| { let mut f = Foo::new(); f.0 = t8(); f }),
        5 => v.nums = vec![300, t8() as u16],
        _ => {
            v.act = Act::new_named();
            if let Act::Named { x, v, .. } = &mut v.act {
                *x = t8() as u16;
                *v = vec![t8(), t8()];
            }
        }
    }
    v.boxed.0 = t8();
    v
}

harness! {
    c19_pieces_u64 => { pieces(u64_()) };
    c19_pieces_i32 => { pieces(i32_()) };
    c19_pieces_string => { pieces(ascii(choose(5) as usize)) };
    c19_pieces_long_string => { pieces(long_string()) };
    c19_pieces_bytes => { pieces(Bytes::from_raw(any(5))) };
    c19_pieces_vec => { pieces(vec![ascii(3), ascii(2)]) };
    c19_pieces_opt => { pieces(opt(|| { let mut f = Foo::new(); f.0 = t8(); f })) };
    c19_pieces_arr => { pieces([t8(), t8(), t8()]) };
    c19_pieces_kind => { pieces(thin_kind()) };
    c19_pieces_tup => { pieces((t8(), ascii(3), bool_())) };
    c19_pieces_flat => { let mut v = Flat::new(); v.a = t8(); v.d = t8() as u16; v.f = t8(); pieces(v) };
    c19_pieces_msg => { pieces(thin_msg()) };
    c19_pieces_world => { let mut w = World::new(rt()); match choose(5) {
        0 => w.note = ascii(3),
        1 => w.pts = List::from_iter(rt(), vec![thin_point(), thin_point()]),
        2 => w.map = Map::from_iter(rt(), vec![(t8(), thin_shape())]),
        3 => w.opt = Maybe::some(rt(), thin_point()),
        _ => w.shape = thin_shape(),
    }; pieces(w) };
    c19_item_u16 => { item(u16_()) };
    c19_item_string => { item(ascii(3)) };
    c19_item_opt => { item(Some(t8())) };
    c19_item_msg => { let mut v = Foo::new(); v.0 = t8(); item(wrap(v)) };
    c19_item_entry => { item(rt().nested(t8() as u32).entry_update(&ascii(3))) };
    c19_item_list => { item(List::from_iter(rt(), vec![thin_point()])) };
    c19_raw_string => { raw::<String>(3) };
    c19_raw_foo => { raw::<Foo>(4) };
    c19_raw_msg => { raw::<Msg>(4) };
    c19_raw_world => { raw::<World>(4) };
    c19_raw_arr => { raw::<[u8; 2]>(3) };
    c19_raw_tup => { raw::<(u8, String)>(4) };

    // A log arrives in pieces, or fails to: what arrived before is applied.
    c19_replay => {
        let (base, log) = logged();
        let mut w = World::new(base.clone());
        let mut states = vec![w.to_bytes()];
        let mut ends = vec![0];
        let mut data = Vec::new();
        for _ in 0..2 {
            match choose(4) {
                0 => { w.set_id(t8() as u16); }
                1 => { w.pts.push(thin_point()); }
                2 => { w.map.insert(t8(), thin_shape()); }
                _ => { w.nums.push(t8()); }
            }
            data.extend_from_slice(&take(&log));
            states.push(w.to_bytes());
            ends.push(data.len());
        }
        let mut src = Source::new(&data);
        src.chunk = [1, 3, usize::MAX][choose(3) as usize];
        src.events = 1;
        src.faulty = true;
        let mut v = World::new(rt());
        let r = v.replay(&mut Reader::new(&mut src));
        match src.failed {
            None => {
                check(r.is_ok(), 10);
                check(same(&v.to_bytes(), &states[2]), 11);
                check(src.pos == data.len(), 12);
            }
            Some(kind) => {
                check(r.is_err() && r.err().unwrap().kind() == kind, 13);
                // At most one byte has been looked at beyond the last complete entry.
                let n = ends.iter().filter(|e| **e <= src.pos).count() - 1;
                check(same(&v.to_bytes(), &states[n]) , 14);
                cover(2);
            }
        }
        cover(1);
    };

    // Whatever is read through a reader and in whichever way, the bytes come in order, none is lost, and
    // the end is seen exactly where it is.
    c19_order => {
        let data = any(5);
        let mut src = Source::new(&data);
        src.chunk = [1, usize::MAX][choose(2) as usize];
        let mut reader = Reader::from(&mut src);
        let mut pos = 0;
        for _ in 0..4 + deep() {
            match choose(5) {
                0 => check(reader.eof().unwrap() == (pos == data.len()), 20),
                1 => pos += got(&mut reader, &data[pos..], 1),
                2 => pos += got(&mut reader.as_mut_read(), &data[pos..], 1),
                3 => pos += got(&mut reader, &data[pos..], 3),
                _ => pos += got(&mut reader.by_ref().take(2), &data[pos..], 3),
            }
        }
        pos += got(&mut reader.as_mut_read(), &data[pos..], 9);
        while pos < data.len() {
            let n = got(&mut reader, &data[pos..], 9);
            check(n > 0, 21);
            pos += n;
        }
        check(reader.eof().unwrap(), 22);
        cover(1);
    };

    // Nested readers end where the nested value does, also after a look-ahead in the outer one.
    c19_nested => {
        let n = choose(4) as usize;
        let mut data = vec![n as u8];
        data.extend_from_slice(&bytes(5));
        let mut src = Source::new(&data);
        src.chunk = [1, 2, usize::MAX][choose(3) as usize];
        src.events = 1;
        let mut reader = Reader::new(&mut src);
        if choose(2) == 1 {
            check(!reader.eof().unwrap(), 30);
        }
        {
            let mut inner = reader.nested().unwrap();
            let mut pos = 1;
            for _ in 0..3 {
                if choose(2) == 0 {
                    check(inner.eof().unwrap() == (pos == n + 1), 31);
                } else {
                    pos += got(&mut inner, &data[pos..n + 1], 2);
                }
            }
            let mut rest = Vec::new();
            inner.read_to_end(&mut rest).unwrap();
            check(same(&rest, &data[pos..n + 1]), 32);
            check(inner.eof().unwrap(), 33);
        }
        if choose(2) == 1 {
            check(!reader.eof().unwrap(), 34);
        }
        let mut rest = Vec::new();
        reader.read_to_end(&mut rest).unwrap();
        check(same(&rest, &data[n + 1..]), 35);
        cover(1);
    };

    // Tags and skipped fields, also after a look-ahead.
    c19_skip => {
        let sized = choose(2) == 1;
        let body = any(3);
        let mut data = vec![if sized { 0x0a } else { 0x08 }];
        if sized {
            data.push(body.len() as u8);
            data.extend_from_slice(&body);
        } else {
            data.push(200);
            data.push(t8());
        }
        data.push(0x77);
        let mut src = Source::new(&data);
        src.chunk = [1, 2, usize::MAX][choose(3) as usize];
        src.events = 1;
        let mut reader = Reader::new(&mut src);
        if choose(2) == 1 {
            check(!reader.eof().unwrap(), 40);
        }
        let (field, wire) = reader.read_tag().unwrap();
        check(field == 1 && wire == if sized { WireType::Sized } else { WireType::Varint }, 41);
        if choose(2) == 1 {
            check(!reader.eof().unwrap(), 42);
        }
        match choose(2) {
            0 => reader.skip_field(wire).unwrap(),
            _ => reader.as_mut_read().skip_field(wire).unwrap(),
        }
        let mut rest = Vec::new();
        reader.read_to_end(&mut rest).unwrap();
        check(same(&rest, &[0x77]), 43);
        cover(1);
    };
    // Contents longer than any buffer in between.
    c19_large => {
        let v = vec![u8_(); [4097, 9000, 20000][choose(3) as usize]];
        let w = if choose(2) == 0 { wrap(Bytes::from_raw(v)) } else { let mut w = wrap(Bytes::from_raw(Vec::new())); w.after = 1; w };
        let mut data = Vec::new();
        put(&mut data, (9 << 3) | 2);
        let big = [4096, 8192, 8193][choose(3) as usize];
        put(&mut data, big as u64);
        data.resize(data.len() + big, 5);
        data.extend_from_slice(&w.to_bytes());
        let mut src = Source::new(&data);
        src.chunk = [1000, 1024, 4096, 8191, 8192][choose(5) as usize];
        arrive::<W<Bytes>>(&data, src, false);
    };
}

/// Reads up to `n` bytes at once and compares them with what is to come.
fn got(r: &mut impl Read, next: &[u8], n: usize) -> usize {
    let mut buf = [0; 9];
    let k = r.read(&mut buf[..n]).unwrap();
    check(k <= next.len() && (k > 0 || next.is_empty()), 50);
    check(same(&buf[..k], &next[..k]), 51);
    k
}
