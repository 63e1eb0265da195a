//! C15: only changes made through the logging operations are logged, each of them once, and never while
//! logging is paused.
use crate::{gen::*, ops::*, sym::*, types::*};
use std::io;
use steit::{de::*, log::{loggers::*, *}, rt::*, ser::*, state::*, types::*};

/// Logging works: the next entry gets through.
fn alive(rt: &Runtime, log: &Log) {
    check(take(log).is_empty(), 1);
    rt.log_list_pop().unwrap();
    check(log.lock().unwrap().pluck().len() == 1, 2);
    cover(1);
}

/// Decoding, merging, moving, reading, comparing and encoding log nothing.
fn quiet<S: State + Clone + PartialEq>(mut v: S) {
    let (rt, log) = logged();
    v.set_runtime(rt.clone());
    let enc = v.to_bytes();
    let mut w = S::with_runtime(rt.clone());
    check(w.merge(&mut Reader::new(&enc[..])).is_ok(), 3);
    check(w.merge(&mut Reader::new(&enc[..])).is_ok(), 4);
    v.set_runtime(rt.nested(3).nested(5));
    check(v.clone() == v && v.compute_size() == v.cache_size(), 5);
    let mut e = Vec::new();
    v.serialize_nested(4, true, &mut e).unwrap();
    let _ = rt.entry_update(&v);
    drop(v);
    drop(w);
    alive(&rt, &log);
}
macro_rules! quiet { ($($name:ident $e:expr;)*) => { $(#[no_mangle] pub extern "C" fn $name() { quiet($e) })* }; }
quiet! {
    c15_quiet_point small_point();
    c15_quiet_shape thin_shape();
    c15_quiet_world { let mut w = World::new(rt()); world_part(&mut w, choose(9)); w };
    c15_quiet_tree tree();
    c15_quiet_holder holder();
    c15_quiet_far far();
    c15_quiet_boxes boxes();
    c15_quiet_tuple { let mut v = Tuple::new(rt()); v.2 = list(2, t8); v };
    c15_quiet_list list(3, thin_shape);
    c15_quiet_map map_u8(2, thin_shape);
    c15_quiet_map_map map_u8(2, || map_u8(1, t8));
    c15_quiet_maybe maybe(|| maybe(thin_point));
    c15_quiet_box Box::new(thin_shape());
}
/// Bytes that fail to decode half way leave logging as it was.
fn broken<S: State>(n: u32) {
    let (rt, log) = logged();
    let mut v = S::with_runtime(rt.clone());
    let b = any(n);
    let _ = v.merge(&mut Reader::new(&b[..]));
    alive(&rt, &log);
}
#[no_mangle]
pub extern "C" fn c15_broken_world() { broken::<World>(4) }
#[no_mangle]
pub extern "C" fn c15_broken_tree() { broken::<Tree>(5) }
#[no_mangle]
pub extern "C" fn c15_broken_maybe() { broken::<Maybe<Shape>>(5) }
#[no_mangle]
pub extern "C" fn c15_broken_map() { broken::<Map<u8, Shape>>(5) }

/// Replaying logs nothing, whether the entry can be applied or not.
fn replayed<S: State>(mut v: S, path_max: u32) {
    let (rt, log) = logged();
    v.set_runtime(rt.clone());
    let e = entry(path_max, 3);
    let mut b = Vec::new();
    e.cache_size();
    e.serialize_nested(None, false, &mut b).unwrap();
    let _ = v.replay(&mut Reader::new(&b[..]));
    alive(&rt, &log);
}
#[no_mangle]
pub extern "C" fn c15_replay_shape() { replayed(thin_shape(), 3) }
#[no_mangle]
pub extern "C" fn c15_replay_list() { replayed(list(2, thin_point), 2) }
#[no_mangle]
pub extern "C" fn c15_replay_map() { replayed(map_u8(2, thin_point), 2) }
#[no_mangle]
pub extern "C" fn c15_replay_maybe() { replayed(maybe(thin_point), 3) }
#[no_mangle]
pub extern "C" fn c15_replay_world() {
    let mut w = World::new(rt());
    w.pts = List::from_iter(rt(), vec![thin_point()]);
    replayed(w, 2)
}

fn busy_point(rt: Runtime) -> Point {
    let mut p = Point::new(rt);
    p.set_x(t8()).set_y(t16()).set_x_with(|_| t8());
    p
}
fn busy_list(rt: Runtime) -> List<Point> {
    let mut l = List::new(rt);
    l.push_with(busy_point);
    l.push(thin_point());
    l[0].set_x(t8());
    l.swap_remove(0);
    l.push_with(busy_point);
    l.pop();
    l
}
fn busy_map(rt: Runtime) -> Map<u8, Shape> {
    let mut m = Map::new(rt);
    m.insert_with(3, |rt| { let mut s = Shape::new_empty(rt); s.set_rect_p_with(busy_point).set_circle_f0(t8()); s });
    m.insert(t8(), Shape::new_rect(gen_rt()));
    m.remove(&3);
    m
}
fn busy_maybe(rt: Runtime) -> Maybe<Point> {
    let mut m = Maybe::new_none(rt);
    m.set_some_value_with(busy_point);
    m
}
fn gen_rt() -> Runtime {
    crate::gen::rt()
}
/// Whatever a `_with` closure does to the part it builds is in the one entry of the call, which reproduces it.
#[no_mangle]
pub extern "C" fn c15_with() {
    let mut rig = Rig::new(World::new(rt()));
    let w = &mut rig.v;
    match choose(8) {
        0 => { w.set_at_with(busy_point); }
        1 => { w.set_pts_with(busy_list); }
        2 => { w.set_map_with(busy_map); }
        3 => { w.set_opt_with(busy_maybe); }
        4 => { w.set_boxed_with(|rt| Box::new(busy_point(rt))); }
        5 => { w.pts.push_with(busy_point); }
        6 => { w.map.insert_with(t8(), shape_with); }
        _ => { w.set_shape_with(shape_with); }
    }
    let entries = rig.log.lock().unwrap().pluck();
    check(entries.len() == 1, 6);
    rig.log.lock().unwrap().log(entries[0].clone()).unwrap();
    rig.sync();
    // Afterwards, changes are logged again.
    rig.v.set_id(u16_());
    rig.sync();
    rig.finish();
}
/// Closures inside closures.
#[no_mangle]
pub extern "C" fn c15_with_nested() {
    let (rt, log) = logged();
    let mut l: List<List<Point>> = List::new(rt.clone());
    l.push_with(|rt| {
        let mut l = busy_list(rt);
        l.push_with(|rt| { let mut p = busy_point(rt); p.set_y_with(|_| t16()); p });
        l
    });
    check(log.lock().unwrap().pluck().len() == 1, 8);
    alive(&rt, &log);
}
#[no_mangle]
pub extern "C" fn c15_with_maybe() {
    let (rt, log) = logged();
    let some = choose(2) == 1;
    let mut m: Maybe<List<Point>> = if some { Maybe::some(rt.clone(), list(1, thin_point)) } else { Maybe::none(rt.clone()) };
    m.set_some_value_with(busy_list);
    // Another variant is another entry.
    check(log.lock().unwrap().pluck().len() == if some { 1 } else { 2 }, 9);
    alive(&rt, &log);
}
/// Nested pauses: nothing is logged until each has been ended; ending more than were begun has no effect.
#[no_mangle]
pub extern "C" fn c15_pause() {
    let (rt, log) = logged();
    let mut w = World::new(rt.clone());
    let (mut depth, mut n) = (0u32, 0);
    for _ in 0..5 + deep() {
        match choose(4) {
            0 => {
                depth += 1;
                check(w.at.runtime().pause_logger() == depth, 10);
            }
            1 => {
                depth = depth.saturating_sub(1);
                check(w.pts.runtime().unpause_logger() == depth, 11);
            }
            2 => {
                w.set_id(u16_());
                n += if depth == 0 { 1 } else { 0 };
            }
            _ => {
                w.pts.push_with(busy_point);
                n += if depth == 0 { 1 } else { 0 };
            }
        }
        check(log.lock().unwrap().bytes().is_empty() == (n == 0), 12);
    }
    check(log.lock().unwrap().pluck().len() == n, 13);
    cover(1);
}
/// Paused changes still change the state.
#[no_mangle]
pub extern "C" fn c15_paused_changes() {
    let (rt, log) = logged();
    let (mut a, mut b) = (World::new(rt.clone()), World::new(gen_rt()));
    let (x, y, k) = (u16_(), t8(), t8());
    let change = |w: &mut World| {
        w.set_id(x);
        w.at.set_x(y);
        w.nums.push(y);
        w.map.insert(k, Shape::new_rect(gen_rt()));
        w.map[&k].set_circle_f0(y);
        w.opt.set_some_value(Point::new(gen_rt()));
    };
    rt.pause_logger();
    change(&mut a);
    rt.unpause_logger();
    change(&mut b);
    check(a == b, 14);
    alive(&rt, &log);
}
/// Reads never log.
#[no_mangle]
pub extern "C" fn c15_reads() {
    let (rt, log) = logged();
    let mut w = World::new(rt.clone());
    w.pts = List::from_iter(rt.nested(2), vec![thin_point(), thin_point()]);
    w.map = Map::from_iter(rt.nested(3), vec![(1, thin_shape())]);
    w.opt = maybe(thin_point);
    let k = u8_();
    let _ = (w.pts.get(k as usize), w.pts.len(), w.pts.first(), w.map.get(&k), w.map.contains(&k), w.map.len());
    let _ = (w.pts.get_mut(k as usize).is_some(), w.map.get_mut(&k).is_some(), w.opt.is_some(), w.opt.is_none());
    check(w.pts.iter().count() == 2 && w.pts.iter_mut().count() == 2 && w.map.iter().count() == 1, 15);
    check(w.map.iter_mut().count() == 1, 16);
    alive(&rt, &log);
}
/// Removals that remove nothing log nothing.
#[no_mangle]
pub extern "C" fn c15_no_removal() {
    let (rt, log) = logged();
    let n = choose(3) as usize;
    let mut l = List::from_iter(rt.clone(), (0..n).map(|_| thin_point()).collect::<Vec<_>>());
    let i = u64_() as usize;
    assume(i >= n);
    check(l.swap_remove(i).is_none() && l.len() == n, 17);
    if n == 0 {
        check(l.pop().is_none(), 18);
    }
    let k = u16_();
    let mut m = Map::from_iter(rt.clone(), vec![(k, t8())]);
    let j = u16_();
    assume(j != k);
    check(m.remove(&j).is_none() && m.len() == 1, 19);
    alive(&rt, &log);
}
/// One entry per call.
#[no_mangle]
pub extern "C" fn c15_once() {
    let (rt, log) = logged();
    let mut w = World::new(rt);
    w.pts = List::from_iter(w.runtime().nested(2), vec![thin_point(), thin_point()]);
    w.map = Map::from_iter(w.runtime().nested(3), vec![(1, thin_shape())]);
    let n = match choose(9) {
        0 => { w.set_id(u16_()).set_note(string(1)).set_at(thin_point()); 2 }
        1 => { w.pts.push(thin_point()); 1 }
        2 => { w.pts.pop(); 1 }
        3 => { w.pts.swap_remove(0); 2 }
        4 => { w.pts.swap_remove(1); 1 }
        5 => { w.map.insert(u8_(), thin_shape()); 1 }
        6 => { w.map.remove(&1); 1 }
        7 => { w.pts[0].set_x(t8()).set_y(t16()); 2 }
        _ => { w.shape.set_circle_f0(t8()).set_circle_f0(t8()); 3 }
    };
    check(log.lock().unwrap().pluck().len() == n, 20);
    cover(1);
}
/// A failed replay neither logs nor stops logging, and a state that is no root refuses to replay.
#[no_mangle]
pub extern "C" fn c15_replay_child() {
    let (rt, log) = logged();
    let b = any(3);
    let mut l: List<Point> = List::new(rt.nested(u32_()));
    match l.replay(&mut Reader::new(&b[..])) {
        Ok(()) => check(false, 21),
        Err(e) => check(e.kind() == io::ErrorKind::InvalidInput && l.is_empty(), 22),
    }
    let mut s = thin_shape();
    s.set_runtime(rt.nested(u32_()));
    check(s.is_child() && s.replay(&mut Reader::new(&b[..])).is_err(), 23);
    alive(&rt, &log);
}
/// Any number of pauses takes as many to end.
#[no_mangle]
pub extern "C" fn c15_many_pauses() {
    let (rt, log) = logged();
    let n = [127, 128, 255, 256, 257, 65535, 65536, 65537][choose(8) as usize];
    let below = rt.nested(u32_());
    for i in 0..n {
        check((if i & 1 == 0 { &rt } else { &below }).pause_logger() == i + 1, 70);
    }
    below.log_list_pop().unwrap();
    for i in 0..n {
        check(rt.unpause_logger() == n - i - 1, 71);
        if i + 2 >= n {
            check(log.lock().unwrap().pluck().is_empty(), 72);
            below.log_list_pop().unwrap();
        }
    }
    check(log.lock().unwrap().pluck().len() == 1, 73);
    alive(&rt, &log);
}
