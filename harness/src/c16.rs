//! C16: replaying any log, well-formed or not, either applies it or reports an error; it never panics and
//! leaves a state that is fit for use.
use crate::{gen::*, ops::*, sym::*, types::*};
use std::io;
use steit::{de::*, log::*, rt::*, ser::*, state::*, types::*};

fn bytes_of(e: &LogEntry) -> Vec<u8> {
    let mut b = Vec::new();
    e.cache_size();
    e.serialize_nested(None, false, &mut b).unwrap();
    b
}
fn apply<S: State>(v: &mut S, e: &LogEntry) -> bool {
    match v.replay(&mut Reader::new(&bytes_of(e)[..])) {
        Ok(()) => true,
        Err(e) => {
            check(e.kind() == io::ErrorKind::InvalidData || e.kind() == io::ErrorKind::UnexpectedEof, 1);
            false
        }
    }
}
/// What the state says about itself still holds.
fn fit<S: State + PartialEq + Placed>(v: &S) {
    let b = v.to_bytes();
    check(v.compute_size() as usize == b.len(), 2);
    check(decode::<S>(&b) == *v, 3);
    v.placed(&mut Vec::new());
}
fn value<S: Deserialize>(b: &Bytes) -> Option<S> {
    S::deserialize(&mut Reader::new(&b.clone().into_raw()[..])).ok()
}

/// What an entry makes of a value: the new value, or nothing if it does not apply.
trait Model: Sized + Clone + State + PartialEq + Placed {
    fn model(&self, path: &[u32], e: &LogEntry) -> Option<Self>;
}
impl Model for u8 {
    fn model(&self, path: &[u32], e: &LogEntry) -> Option<Self> {
        match e {
            LogEntry::Update { value: v, .. } if path.is_empty() => value(v),
            _ => None,
        }
    }
}
impl Placed for bool {
    fn placed(&self, _: &mut Vec<u32>) {}
}
impl Model for i16 {
    fn model(&self, path: &[u32], e: &LogEntry) -> Option<Self> {
        match e {
            LogEntry::Update { value: v, .. } if path.is_empty() => value(v),
            _ => None,
        }
    }
}
impl Model for Point {
    fn model(&self, path: &[u32], e: &LogEntry) -> Option<Self> {
        let mut p = self.clone();
        match path {
            [] => match e {
                LogEntry::Update { value: v, .. } => return value(v),
                _ => return None,
            },
            [0, rest @ ..] => p.x = p.x.model(rest, e)?,
            [1, rest @ ..] => p.y = p.y.model(rest, e)?,
            _ => return None,
        }
        Some(p)
    }
}
impl Model for Shape {
    fn model(&self, path: &[u32], e: &LogEntry) -> Option<Self> {
        let mut s = self.clone();
        match (path, &mut s) {
            ([], _) => match e {
                LogEntry::Update { value: v, .. } => return value(v),
                _ => return None,
            },
            ([3, 0, rest @ ..], Shape::Circle(r, ..)) => *r = r.model(rest, e)?,
            ([16, 1, rest @ ..], Shape::Rect { a, .. }) => *a = a.model(rest, e)?,
            ([16, 4, rest @ ..], Shape::Rect { p, .. }) => *p = p.model(rest, e)?,
            _ => return None,
        }
        Some(s)
    }
}
impl<T: Model> Model for Maybe<T> {
    fn model(&self, path: &[u32], e: &LogEntry) -> Option<Self> {
        match (path, self) {
            ([], _) => match e {
                LogEntry::Update { value: v, .. } => value(v),
                _ => None,
            },
            ([1, 0, rest @ ..], Maybe::Some { value, .. }) => Some(Maybe::some(rt(), value.model(rest, e)?)),
            _ => None,
        }
    }
}
impl<T: Model> Model for List<T> {
    fn model(&self, path: &[u32], e: &LogEntry) -> Option<Self> {
        let mut v: Vec<T> = self.iter().cloned().collect();
        match path {
            [] => match e {
                LogEntry::Update { value: b, .. } => return value(b),
                LogEntry::ListPush { item, .. } => v.push(value(item)?),
                LogEntry::ListPop { .. } => {
                    v.pop()?;
                }
                _ => return None,
            },
            [i, rest @ ..] => {
                let x = v.get_mut(*i as usize)?;
                *x = x.model(rest, e)?;
            }
        }
        Some(List::from_iter(rt(), v))
    }
}
impl<V: Model> Model for Map<u8, V> {
    fn model(&self, path: &[u32], e: &LogEntry) -> Option<Self> {
        let mut v: Vec<(u8, V)> = self.iter().map(|(k, v)| (k, v.clone())).collect();
        match path {
            [] => match e {
                LogEntry::Update { value: b, .. } => return value(b),
                LogEntry::MapRemove { key, .. } => {
                    let i = v.iter().position(|x| x.0 as u32 == *key)?;
                    v.remove(i);
                }
                _ => return None,
            },
            [k, rest @ ..] => match v.iter_mut().find(|x| x.0 as u32 == *k) {
                Some(x) => x.1 = x.1.model(rest, e)?,
                None => match e {
                    LogEntry::Update { value: b, .. } if rest.is_empty() && *k < 256 => v.push((*k as u8, value(b)?)),
                    _ => return None,
                },
            },
        }
        Some(Map::from_iter(rt(), v))
    }
}
impl Model for u16 {
    fn model(&self, path: &[u32], e: &LogEntry) -> Option<Self> {
        match e {
            LogEntry::Update { value: v, .. } if path.is_empty() => value(v),
            _ => None,
        }
    }
}
impl Model for Kind {
    fn model(&self, path: &[u32], e: &LogEntry) -> Option<Self> {
        let mut s = self.clone();
        match (path, &mut s) {
            ([], _) => match e {
                LogEntry::Update { value: v, .. } => return value(v),
                _ => return None,
            },
            ([0, 0, rest @ ..], Kind::Plain { n, .. }) => *n = n.model(rest, e)?,
            ([0, 1, rest @ ..], Kind::Plain { p, .. }) => *p = p.model(rest, e)?,
            ([1, 0, rest @ ..], Kind::Many(l, ..)) => *l = l.model(rest, e)?,
            ([1, 2, rest @ ..], Kind::Many(_, m, ..)) => *m = m.model(rest, e)?,
            ([300, 3, rest @ ..], Kind::Sub { part, .. }) => *part = part.model(rest, e)?,
            // No part of the state.
            ([300, 15, ..], Kind::Sub { .. }) => (),
            _ => return None,
        }
        Some(s)
    }
}
fn path_of(e: &LogEntry) -> &Vec<u32> {
    match e {
        LogEntry::Update { path, .. }
        | LogEntry::ListPush { path, .. }
        | LogEntry::ListPop { path, .. }
        | LogEntry::MapRemove { path, .. } => path,
    }
}
fn exact<S: Model>(mut v: S, path_max: u32, n: u32) {
    v.set_runtime(rt());
    let e = entry(path_max, n);
    let expected = v.model(path_of(&e), &e);
    let before = v.clone();
    let ok = apply(&mut v, &e);
    check(ok == expected.is_some(), 4);
    match expected {
        Some(x) => {
            check(v == x, 5);
            cover(1);
        }
        None => {
            // An entry that is rejected for its place or kind changes nothing; one whose value does not
            // decode may have been applied in part.
            if !matches!(e, LogEntry::Update { .. }) {
                check(v == before, 6);
            }
            cover(2);
        }
    }
    fit(&v);
}
macro_rules! exact { ($($name:ident $p:literal $n:literal $e:expr;)*) => { $(#[no_mangle] pub extern "C" fn $name() { exact($e, $p + deep(), $n) })* }; }
exact! {
    c16_point 2 3 small_point();
    c16_shape 3 3 thin_shape();
    c16_kind 3 3 thin_kind();
    c16_list_u8 2 3 list(2, u8_);
    c16_list_point 3 3 list(2, thin_point);
    c16_list_list 3 3 list(1, || list(1, t8));
    c16_list_maybe 4 3 list(1, || maybe(t8));
    c16_map_u8 2 3 map_u8(2, u8_);
    c16_map_point 3 3 map_u8(1, thin_point);
    c16_map_map 3 4 map_u8(1, || map_u8(1, t8));
    c16_map_list 3 3 map_u8(1, || list(1, t8));
    c16_maybe_u8 3 3 maybe(u8_);
    c16_maybe_point 4 3 maybe(thin_point);
    c16_maybe_maybe 4 3 maybe(|| maybe(t8));
    c16_maybe_list 4 3 maybe(|| list(1, t8));
}
/// Bytes that need not be entries at all.
fn raw<S: State + PartialEq + Placed + Clone>(mut v: S, n: u32) {
    v.set_runtime(rt());
    let b = any(n + deep());
    match v.replay(&mut Reader::new(&b[..])) {
        Ok(()) => cover(1),
        Err(e) => {
            check(e.kind() == io::ErrorKind::InvalidData || e.kind() == io::ErrorKind::UnexpectedEof, 7);
            cover(2);
        }
    }
    fit(&v);
}
macro_rules! raw { ($($name:ident $n:literal $e:expr;)*) => { $(#[no_mangle] pub extern "C" fn $name() { raw($e, $n) })* }; }
raw! {
    c16_raw_point 6 small_point();
    c16_raw_shape 6 thin_shape();
    c16_raw_list 6 list(1, t8);
    c16_raw_map 6 map_u8(1, t8);
    c16_raw_maybe 6 maybe(t8);
    c16_raw_world 5 World::new(rt());
    c16_raw_kind 5 thin_kind();
    c16_raw_tree 6 leaf();
    c16_raw_lean 5 Lean::new(rt());
    c16_raw_renamed 5 Renamed::new(rt());
    c16_raw_boxes 5 Boxes::new(rt());
    c16_raw_far 5 Far::new(rt());
}
/// What comes before a bad entry is applied, what comes after it is not.
#[no_mangle]
pub extern "C" fn c16_stops() {
    let (x, y) = (u8_(), u8_());
    let mut l: List<u8> = List::new(rt());
    let mut b = bytes_of(&rt().entry_list_push(&x));
    let bad = choose(4);
    b.extend_from_slice(&match bad {
        0 => bytes_of(&rt().entry_map_remove(u32_())),
        1 => bytes_of(&rt().nested(u32_()).nested(u32_()).entry_update(&y)),
        2 => vec![1, 77],
        _ => vec![5, 9],
    });
    b.extend_from_slice(&bytes_of(&rt().entry_list_push(&y)));
    let r = l.replay(&mut Reader::new(&b[..]));
    if bad == 3 {
        // An entry that claims more bytes than are its own swallows the next one; it must not be half applied.
        check(l.len() <= 2 && l[0] == x, 8);
        cover(2);
    } else {
        check(r.is_err() && l.len() == 1 && l[0] == x, 9);
        cover(1);
    }
    fit(&l);
}
/// A state can be changed, logged and replayed as ever after a bad entry.
#[no_mangle]
pub extern "C" fn c16_goes_on() {
    let (rt, log) = logged();
    let mut w: Map<u8, Maybe<Point>> = Map::new(rt);
    w.insert(1, Maybe::some(crate::gen::rt(), thin_point()));
    let mut copy: Map<u8, Maybe<Point>> = Map::new(crate::gen::rt());
    let _ = copy.replay(&mut Reader::new(&take(&log)[..]));
    check(copy == w, 10);
    let e = entry(3, 1);
    let (a, b) = (apply(&mut w, &e), apply(&mut copy, &e));
    check(a == b && w == copy, 11);
    if a { cover(1) } else { cover(2) }
    w.insert(2, Maybe::none(crate::gen::rt()));
    if let Some(Maybe::Some { value, .. }) = w.get_mut(&1) {
        value.set_x(t8());
    }
    check(copy.replay(&mut Reader::new(&take(&log)[..])).is_ok() && w == copy, 12);
    fit(&w);
}
/// Far below: an entry that goes astray on its way changes nothing.
#[no_mangle]
pub extern "C" fn c16_deep() {
    let depth = [7, 40][choose(2) as usize];
    let v = deep_tree(depth);
    let way = deep_way(depth);
    let mut path: Vec<u32> = Vec::new();
    for i in &way {
        path.push(1);
        path.push(*i);
    }
    path.push(0);
    let x = u32_();
    let mut w = v.clone();
    let right = match choose(4) {
        0 => true,
        1 => {
            path.push(x);
            false
        }
        2 => {
            let at = [0, 6, 8, path.len() - 3][choose(4) as usize];
            assume(x != path[at]);
            path[at] = x;
            false
        }
        _ => {
            // An index where there is one child only.
            let at = (depth - 1 - [1, 2, 4][choose(3) as usize]) as usize * 2 + 1;
            assume(x != path[at]);
            path[at] = x;
            false
        }
    };
    let y = t8();
    let mut at = crate::gen::rt();
    for f in &path {
        at = at.nested(*f);
    }
    check(apply(&mut w, &at.entry_update(&y)) == right, 60);
    if right {
        let mut u = v.clone();
        deepest(&mut u, &way).v = y;
        check(u == w, 61);
        cover(1);
    } else {
        check(v == w, 62);
        cover(2);
    }
}
