//! C14: every part of a state knows its place in it, however it came there.
use crate::{gen::*, ops::*, sym::*, types::*};
use steit::{de::*, log::*, rt::*, ser::*, state::*, types::*};

/// Somewhere below a root, with its own logger.
fn base() -> Runtime {
    let mut rt = logged().0;
    for _ in 0..choose(3) {
        rt = rt.nested(u32_());
    }
    rt
}
fn moved<S: State + Placed + Clone>(mut v: S) {
    v.set_runtime(crate::gen::rt());
    let rt = base();
    let copy = v.clone();
    v.set_runtime(rt.clone());
    placed_at(&v, &rt);
    // A copy made before is not affected, one made after is in the same place.
    check(logger_of(&rt) != 0, 1);
    placed_at(&v.clone(), &rt);
    copy.placed(&mut Vec::new());
    // And on to another place.
    let rt = base().nested(7);
    v.set_runtime(rt.clone());
    placed_at(&v, &rt);
    cover(1);
}
macro_rules! moved { ($($name:ident $e:expr;)*) => { $(#[no_mangle] pub extern "C" fn $name() { moved($e) })* }; }
moved! {
    c14_move_point small_point();
    c14_move_shape thin_shape();
    c14_move_world { let mut w = World::new(rt()); world_part(&mut w, choose(9)); w };
    c14_move_lean { let mut v = Lean::new(rt()); v.a = t8(); v };
    c14_move_renamed Renamed::new(rt());
    c14_move_tuple { let mut v = Tuple::new(rt()); v.2 = list(2, t8); v };
    c14_move_tree tree();
    c14_move_kind thin_kind();
    c14_move_holder holder();
    c14_move_far far();
    c14_move_distant distant();
    c14_move_boxes boxes();
    c14_move_list list(3, thin_shape);
    c14_move_list_list list(2, || list(2, thin_point));
    c14_move_map map_u16(3, thin_point);
    c14_move_map_map map_u8(2, || map_u8(1, thin_point));
    c14_move_maybe maybe(|| maybe(thin_point));
    c14_move_maybe_shape maybe(thin_shape);
    c14_move_box Box::new(Box::new(thin_shape()));
    c14_move_duo Duo::<Shape, List<Point>>::new(rt());
}
/// Fresh states, filled from an encoding.
fn decoded<S: State + Placed>(v: S) {
    let enc = v.to_bytes();
    decode::<S>(&enc).placed(&mut Vec::new());
    let rt = base();
    let mut w = S::with_runtime(rt.clone());
    placed_at(&w, &rt);
    check(w.merge(&mut Reader::new(&enc[..])).is_ok(), 2);
    placed_at(&w, &rt);
    check(w.merge(&mut Reader::new(&enc[..])).is_ok(), 3);
    placed_at(&w, &rt);
    cover(1);
}
macro_rules! decoded { ($($name:ident $e:expr;)*) => { $(#[no_mangle] pub extern "C" fn $name() { decoded($e) })* }; }
decoded! {
    c14_decode_shape thin_shape();
    c14_decode_world { let mut w = World::new(rt()); world_part(&mut w, choose(9)); w };
    c14_decode_tree tree();
    c14_decode_kind thin_kind();
    c14_decode_holder holder();
    c14_decode_far far();
    c14_decode_distant distant();
    c14_decode_tuple { let mut v = Tuple::new(rt()); v.2 = list(2, t8); v };
    c14_decode_renamed Renamed::new(rt());
    c14_decode_boxes boxes();
    c14_decode_list list(2, thin_shape);
    c14_decode_list_list list(2, || list(2, thin_point));
    c14_decode_map map_u16(2, thin_shape);
    c14_decode_map_map map_u8(2, || map_u8(1, thin_point));
    c14_decode_maybe maybe(|| maybe(thin_point));
    c14_decode_box Box::new(thin_shape());
}
/// A value decoded over one of another variant.
#[no_mangle]
pub extern "C" fn c14_decode_over() {
    let (a, b) = (thin_shape(), thin_shape());
    let rt = base();
    let mut v = a;
    v.set_runtime(rt.clone());
    check(v.merge(&mut Reader::new(&b.to_bytes()[..])).is_ok(), 4);
    placed_at(&v, &rt);
    cover(1);
}
/// Any bytes at all.
fn bytes_in<S: State + Placed>(n: u32) {
    let b = any(n);
    let rt = base();
    let mut v = S::with_runtime(rt.clone());
    let _ = v.merge(&mut Reader::new(&b[..]));
    placed_at(&v, &rt);
    cover(1);
}
#[no_mangle]
pub extern "C" fn c14_bytes_tree() { bytes_in::<Tree>(5) }
#[no_mangle]
pub extern "C" fn c14_bytes_maybe() { bytes_in::<Maybe<Shape>>(5) }
#[no_mangle]
pub extern "C" fn c14_bytes_list() { bytes_in::<List<Shape>>(4) }
#[no_mangle]
pub extern "C" fn c14_bytes_map() { bytes_in::<Map<u16, Shape>>(5) }
#[no_mangle]
pub extern "C" fn c14_bytes_far() { bytes_in::<Far>(5) }

/// Changes, step by step, on the changed state and on one that replays them.
fn changed<S: State + Placed + PartialEq>(mut v: S, n: u32, step: impl Fn(&mut S)) {
    let (rt, log) = logged();
    let mut copy: S = decode(&v.to_bytes());
    v.set_runtime(rt.clone());
    let other = logged().0;
    copy.set_runtime(other.clone());
    for _ in 0..n {
        step(&mut v);
        placed_at(&v, &rt);
        let b = take(&log);
        check(copy.replay(&mut Reader::new(&b[..])).is_ok(), 5);
        placed_at(&copy, &other);
    }
    cover(1);
}
#[no_mangle]
pub extern "C" fn c14_world() {
    changed(World::new(rt()), 1 + deep(), |w| world_op(w, choose(WORLD_OPS)))
}
#[no_mangle]
pub extern "C" fn c14_world_full() {
    let mut w = World::new(rt());
    w.pts = List::from_iter(rt(), vec![thin_point(), thin_point()]);
    w.map = Map::from_iter(rt(), vec![(3, Shape::new_rect(rt())), (t8(), Shape::new_circle(rt()))]);
    w.opt = Maybe::some(rt(), thin_point());
    w.nums = List::from_iter(rt(), vec![t8(), t8()]);
    w.shape = Shape::new_rect(rt());
    changed(w, 1, |w| world_op(w, choose(WORLD_OPS)))
}
#[no_mangle]
pub extern "C" fn c14_list() {
    changed(list(3, thin_shape), 2 + deep(), |l| list_op(l, || Shape::new_rect(rt()), shape_with))
}
#[no_mangle]
pub extern "C" fn c14_list_maybe() {
    changed(list(2, || maybe(thin_point)), 2, |l| {
        list_op(l, || Maybe::some(rt(), thin_point()), |rt| Maybe::some(rt, thin_point()))
    })
}
#[no_mangle]
pub extern "C" fn c14_map() {
    changed(map_u16(2, thin_shape), 2, |m| map_op(m, u16_(), || Shape::new_rect(rt()), shape_with))
}
#[no_mangle]
pub extern "C" fn c14_map_list() {
    changed(map_u8(1, || list(1, thin_point)), 2, |m| {
        let k = t8();
        match choose(2) {
            0 => map_op(m, k, || list(1, thin_point), |rt| List::from_iter(rt, vec![thin_point()])),
            _ => map_item_op(m, k, |l| list_op(l, thin_point, point_with)),
        }
    })
}
#[no_mangle]
pub extern "C" fn c14_maybe() {
    changed(maybe(thin_shape), 2 + deep(), |m| maybe_op(m, thin_shape, shape_with, shape_op))
}
#[no_mangle]
pub extern "C" fn c14_maybe_maybe() {
    changed(maybe(|| maybe(thin_point)), 2, |m| {
        maybe_op(m, || maybe(thin_point), |rt| Maybe::some(rt, thin_point()), |x| maybe_op(x, thin_point, point_with, point_op))
    })
}
#[no_mangle]
pub extern "C" fn c14_shape() {
    changed(thin_shape(), 2 + deep(), shape_op)
}
#[no_mangle]
pub extern "C" fn c14_far() {
    changed(far(), 2, |v| match choose(4) {
        0 => { v.set_b(thin_point()); }
        1 => { v.set_c_with(point_with); }
        2 => { v.set_d(thin_shape()); }
        _ => shape_op(&mut v.d),
    })
}
#[no_mangle]
pub extern "C" fn c14_renamed() {
    changed(Renamed::new(rt()), 2, |v| match choose(2) {
        0 => { v.set_runtime(thin_point()); }
        _ => point_op(&mut v.runtime),
    })
}
#[no_mangle]
pub extern "C" fn c14_boxes() {
    changed(boxes(), 1, |b| match choose(5) {
        0 => { b.set_s(Box::new(thin_shape())); }
        1 => shape_op(&mut b.s),
        2 => list_op(&mut b.l, || Box::new(t8()), |_| Box::new(t8())),
        3 => map_op(&mut b.m, t8(), || Box::new(thin_shape()), |rt| Box::new(shape_with(rt))),
        _ => maybe_op(&mut b.o, || Box::new(t16()), |_| Box::new(t16()), |_| ()),
    })
}
/// Any entry at all, valid or not.
fn entry_in<S: State + Placed>(mut v: S, path_max: u32, n: u32) {
    let rt = logged().0;
    v.set_runtime(rt.clone());
    let e = entry(path_max, n);
    let mut b = Vec::new();
    e.cache_size();
    e.serialize_nested(None, false, &mut b).unwrap();
    let _ = v.replay(&mut Reader::new(&b[..]));
    placed_at(&v, &rt);
    cover(1);
}
#[no_mangle]
pub extern "C" fn c14_entry_shape() { entry_in(thin_shape(), 2, 3) }
#[no_mangle]
pub extern "C" fn c14_entry_list() { entry_in(list(2, thin_shape), 2, 3) }
#[no_mangle]
pub extern "C" fn c14_entry_map() { entry_in(map_u8(2, thin_shape), 2, 3) }
#[no_mangle]
pub extern "C" fn c14_entry_maybe() { entry_in(maybe(|| maybe(thin_point)), 3, 3) }

/// What is taken out of a state is on its own: changing it changes and logs nothing elsewhere.
fn free<S: State + Placed + Clone + PartialEq>(mut out: S, log: &Log, change: impl Fn(&mut S)) {
    let _ = take(log);
    out.placed(&mut Vec::new());
    change(&mut out);
    check(take(log).is_empty(), 6);
    cover(1);
}
#[no_mangle]
pub extern "C" fn c14_free_list() {
    let (rt, log) = logged();
    let mut l = List::from_iter(rt, vec![thin_shape(), thin_shape(), Shape::new_rect(crate::gen::rt())]);
    let n = choose(4);
    let out = if n == 3 { l.pop() } else { l.swap_remove(n as usize) };
    free(out.unwrap(), &log, shape_op);
}
#[no_mangle]
pub extern "C" fn c14_free_map() {
    let (rt, log) = logged();
    let (k, x) = (u8_(), u8_());
    let mut m = Map::from_iter(rt, vec![(k, thin_shape()), (x, Shape::new_circle(crate::gen::rt()))]);
    let out = match choose(3) {
        0 => m.remove(&k),
        1 => m.insert(k, thin_shape()),
        _ => m.insert_with(k, shape_with),
    };
    free(out.unwrap(), &log, shape_op);
}
#[no_mangle]
pub extern "C" fn c14_free_list_list() {
    let (rt, log) = logged();
    let mut l = List::from_iter(rt, vec![list(2, thin_point)]);
    let out = if choose(2) == 0 { l.pop() } else { l.swap_remove(0) };
    free(out.unwrap(), &log, |l| match choose(2) {
        0 => list_op(l, thin_point, point_with),
        _ => list_item_op(l, point_op),
    });
}
/// A clone of a state logs where the original does; changing one leaves the other as it is.
#[no_mangle]
pub extern "C" fn c14_clone() {
    let mut w = World::new(rt());
    world_part(&mut w, choose(9));
    w.set_runtime(rt());
    let before = w.clone();
    let mut c = w.clone();
    world_op(&mut c, choose(8));
    check(w == before, 7);
    w.placed(&mut Vec::new());
    c.placed(&mut Vec::new());
    cover(1);
}
#[no_mangle]
pub extern "C" fn c14_deep() {
    let depth = [7, 30][choose(2) as usize];
    moved(deep_tree(depth))
}
#[no_mangle]
pub extern "C" fn c14_many() {
    let l = many_points();
    if choose(2) == 0 {
        let (rt, enc) = (base(), l.to_bytes());
        let mut w = List::<Point>::with_runtime(rt.clone());
        for _ in 0..2 {
            check(w.merge(&mut Reader::new(&enc[..])).is_ok(), 60);
            placed_at(&w, &rt);
        }
        cover(1);
    } else {
        moved(l)
    }
}
#[no_mangle]
pub extern "C" fn c14_many_map() {
    let m = Map::from_iter(rt(), (0..70u16).map(|i| (i * 131, Point::new(rt()))));
    let rt = base();
    let mut w = Map::<u16, Point>::with_runtime(rt.clone());
    check(w.merge(&mut Reader::new(&m.to_bytes()[..])).is_ok(), 61);
    placed_at(&w, &rt);
    w.remove(&[0, 131, 69 * 131][choose(3) as usize]);
    w.insert(u16_(), Point::new(gen_rt()));
    placed_at(&w, &rt);
    cover(1);
}
fn gen_rt() -> Runtime {
    crate::gen::rt()
}
