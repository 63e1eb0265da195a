//! C23: log entries are written in the documented layout, and read back as what they are.
use crate::{common::*, gen::*, ops::*, sym::*, types::*};
use steit::{de::*, log::{loggers::*, *}, rt::*, ser::*, state::*, types::*, wire_fmt::*};

/// `tag(field, sized) size content`, or nothing at all if there is no content.
fn put_sized(out: &mut Vec<u8>, field: u8, content: &[u8]) {
    if !content.is_empty() {
        out.push(field << 3 | 2);
        put(out, content.len() as u64);
        out.extend_from_slice(content);
    }
}

/// An entry as documented: its size, its kind, its path and what else it has.
fn written(kind: u8, path: &[u32], rest: &[u8]) -> Vec<u8> {
    let mut numbers = Vec::new();
    for n in path {
        put(&mut numbers, *n as u64);
    }
    let mut body = vec![kind];
    put_sized(&mut body, 0, &numbers);
    body.extend_from_slice(rest);
    let mut out = Vec::new();
    put(&mut out, body.len() as u64);
    out.extend_from_slice(&body);
    out
}

fn value(b: &[u8]) -> Vec<u8> {
    let mut rest = Vec::new();
    put_sized(&mut rest, 1, b);
    rest
}

fn key(k: u32) -> Vec<u8> {
    let mut rest = Vec::new();
    if k != 0 {
        rest.push(1 << 3);
        put(&mut rest, k as u64);
    }
    rest
}

fn eq(a: &[u32], b: &[u32]) -> bool {
    let mut d = 0;
    for i in 0..a.len().min(b.len()) {
        d |= a[i] ^ b[i];
    }
    a.len() == b.len() && d == 0
}

/// The entry is written like that, and that is read as this entry.
fn exact(e: LogEntry, kind: LogEntryKind, path: &[u32], content: &[u8], k: u32) {
    let rest = if kind == LogEntryKind::MapRemove { key(k) } else { value(content) };
    let want = written(kind as u8, path, &rest);
    let mut out = Vec::new();
    e.cache_size();
    e.serialize_nested(None, false, &mut out).unwrap();
    check(same(&out, &want), 1);
    check(e.kind() == kind, 2);
    let mut more = want;
    more.push(0x55);
    let mut r = Reader::new(&more[..]);
    let back = LogEntry::deserialize_nested(WireType::Sized, &mut r);
    check(back.is_ok(), 3);
    for e in &[e, back.unwrap()] {
        let (p, c, n, got) = match e {
            LogEntry::Update { path, value, .. } => (path, value.to_bytes(), 0, LogEntryKind::Update),
            LogEntry::ListPush { path, item, .. } => (path, item.to_bytes(), 0, LogEntryKind::ListPush),
            LogEntry::ListPop { path, .. } => (path, vec![], 0, LogEntryKind::ListPop),
            LogEntry::MapRemove { path, key, .. } => (path, vec![], *key, LogEntryKind::MapRemove),
        };
        check(got == kind && n == k, 4);
        check(eq(p, path), 5);
        check(same(&c, content), 6);
    }
    observe_bytes(&out);
    cover(1);
}

fn path(n: u32) -> (Runtime, Vec<u32>) {
    let mut r = rt();
    let mut p = Vec::new();
    for _ in 0..choose(n + 1) {
        let f = u32_();
        p.push(f);
        r = r.nested(f);
    }
    (r, p)
}

fn paths() -> u32 {
    2 + deep()
}

/// An update with any serializable value.
fn typed<T: Serialize>(v: T) {
    let (r, mut p) = path(1);
    // The value is encoded for the entry before anything else sees it.
    let (e, kind) = match choose(3) {
        0 => (r.entry_update(&v), LogEntryKind::Update),
        1 => (r.entry_list_push(&v), LogEntryKind::ListPush),
        _ => {
            let f = u32_();
            let e = r.entry_update_child(f, &v);
            p.push(f);
            (e, LogEntryKind::Update)
        }
    };
    exact(e, kind, &p, &v.to_bytes(), 0)
}

/// A change through a state is written as that entry.
fn logs<S: State>(mut v: S, change: impl FnOnce(&mut S) -> (LogEntryKind, Vec<u32>, Vec<u8>, u32)) {
    let (r, log) = logged();
    let (a, b) = (u8_() as u32, u32_());
    v.set_runtime(r.nested(a).nested(b));
    let (kind, below, content, k) = change(&mut v);
    let mut p = vec![a, b];
    p.extend_from_slice(&below);
    let rest = if kind == LogEntryKind::MapRemove { key(k) } else { value(&content) };
    let want = written(kind as u8, &p, &rest);
    check(same(&log.lock().unwrap().bytes(), &want), 10);
    check(same(&take(&log), &want), 11);
    check(take(&log).is_empty(), 12);
    cover(1);
}

harness! {
    c23_update => { let (r, p) = path(paths()); let b = any(3); exact(r.entry_update(&Bytes::from_raw(b.clone())), LogEntryKind::Update, &p, &b, 0) }
    c23_child => { let (r, mut p) = path(paths() - 1); let (f, b) = (u32_(), any(2)); p.push(f); exact(r.entry_update_child(f, &Bytes::from_raw(b.clone())), LogEntryKind::Update, &p, &b, 0) }
    c23_push => { let (r, p) = path(paths()); let b = any(3); exact(r.entry_list_push(&Bytes::from_raw(b.clone())), LogEntryKind::ListPush, &p, &b, 0) }
    c23_pop => { let (r, p) = path(paths()); exact(r.entry_list_pop(), LogEntryKind::ListPop, &p, &[], 0) }
    c23_remove => { let (r, p) = path(paths()); let k = u32_(); exact(r.entry_map_remove(k), LogEntryKind::MapRemove, &p, &[], k) }
    c23_new => {
        let (r, p) = path(1);
        let v = u16_();
        match choose(4) {
            0 => exact(LogEntry::new_update(r.path(), &v), LogEntryKind::Update, &p, &v.to_bytes(), 0),
            1 => exact(LogEntry::new_list_push(r.path(), &v), LogEntryKind::ListPush, &p, &v.to_bytes(), 0),
            2 => exact(LogEntry::new_list_pop(r.path()), LogEntryKind::ListPop, &p, &[], 0),
            _ => exact(LogEntry::new_map_remove(r.path(), v as u32), LogEntryKind::MapRemove, &p, &[], v as u32),
        }
    }
    // Sizes around where their own length grows.
    c23_long_value => { let b = long_bytes(); let (r, p) = path(1); exact(r.entry_update(&Bytes::from_raw(b.clone())), LogEntryKind::Update, &p, &b, 0) }
    c23_long_item => { let s = long_string(); let r = rt(); exact(r.entry_list_push(&s), LogEntryKind::ListPush, &[], s.as_bytes(), 0) }
    c23_long_path => {
        let f = u32_();
        let (mut r, mut p) = (rt(), Vec::new());
        for i in 0..[24, 25, 26, 130, 300][choose(5) as usize] {
            let f = if i == 7 { f } else { u32::max_value() - i };
            r = r.nested(f);
            p.push(f);
        }
        exact(r.entry_list_pop(), LogEntryKind::ListPop, &p, &[], 0)
    }

    c23_u8 => { typed(u8_()) }
    c23_i32 => { typed(i32_()) }
    c23_u64 => { typed(u64_()) }
    c23_bool => { typed(bool_()) }
    c23_string => { typed(string(1)) }
    c23_vec => { typed(vec_of(2, u16_)) }
    c23_foo => { typed(foo()) }
    c23_act => { typed(act()) }
    c23_point => { typed(point()) }
    c23_shape => { typed(shape()) }
    c23_list => { typed(list(2, thin_point)) }
    c23_map => { typed(map_u8(1, thin_shape)) }
    c23_maybe => { typed(maybe(thin_point)) }

    c23_log_set => { logs(point(), |p| { let x = u8_(); p.set_x(x); (LogEntryKind::Update, vec![0], x.to_bytes(), 0) }) }
    c23_log_far => { logs(Far::new(rt()), |f| { let y = i16_(); f.c.set_y(y); (LogEntryKind::Update, vec![0x1fff_ffff, 1], y.to_bytes(), 0) }) }
    c23_log_push => { logs(list(2, u16_), |l| { let x = u16_(); l.push(x); (LogEntryKind::ListPush, vec![], x.to_bytes(), 0) }) }
    c23_log_item => { logs(list(2, point), |l| { l.quietly(|l| { l.push(point()); }); let i = choose(l.len() as u32); let x = u8_(); l[i as usize].set_x(x); (LogEntryKind::Update, vec![i, 0], x.to_bytes(), 0) }) }
    c23_log_pop => { logs(list(1, u16_), |l| { l.quietly(|l| { l.push(u16_()); }); l.pop(); (LogEntryKind::ListPop, vec![], vec![], 0) }) }
    c23_log_insert => { logs(map_u16(1, u8_), |m| { let (k, v) = (u16_(), u8_()); m.insert(k, v); (LogEntryKind::Update, vec![k as u32], v.to_bytes(), 0) }) }
    c23_log_removed => { logs(map_u16(2, u8_), |m| { let k = u16_(); m.quietly(|m| { m.insert(k, u8_()); }); m.remove(&k); (LogEntryKind::MapRemove, vec![], vec![], k as u32) }) }
    c23_log_some => { logs(Maybe::some(rt(), point()), |m| { let p = point(); let b = p.to_bytes(); m.set_some_value(p); (LogEntryKind::Update, vec![1, 0], b, 0) }) }

    // A log is its entries in a row.
    c23_row => {
        let (r, log) = logged();
        let (f, g, k, v) = (u8_() as u32, u32_(), u32_(), u16_());
        let n = r.nested(f);
        let mut want = Vec::new();
        for _ in 0..2 + deep() {
            match choose(4) {
                0 => { n.log_update(&v).unwrap(); want.extend(written(0, &[f], &value(&v.to_bytes()))); }
                1 => { n.log_update_child(g, &v).unwrap(); want.extend(written(0, &[f, g], &value(&v.to_bytes()))); }
                2 => { n.nested(g).log_list_push(&v).unwrap(); want.extend(written(8, &[f, g], &value(&v.to_bytes()))); }
                _ => { n.log_multi(vec![n.entry_list_pop(), r.entry_map_remove(k)]).unwrap(); want.extend(written(9, &[f], &[])); want.extend(written(12, &[], &key(k))); }
            }
        }
        check(same(&log.lock().unwrap().bytes(), &want), 13);
        cover(1);
    }
}

trait Quietly {
    fn quietly(&mut self, f: impl FnOnce(&mut Self));
}
impl<S: State> Quietly for S {
    fn quietly(&mut self, f: impl FnOnce(&mut Self)) {
        self.runtime().pause_logger();
        f(self);
        self.runtime().unpause_logger();
    }
}
