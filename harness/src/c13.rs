//! C13: replaying the log of any history of changes anywhere in a nested state reproduces the state.
use crate::{gen::*, ops::*, sym::*, types::*};
use steit::{state::*, types::*};

#[no_mangle]
pub extern "C" fn c13_world() {
    Rig::run(World::new(rt()), 2, |w| world_op(w, choose(WORLD_OPS)))
}
/// One change of a world that has something in each of its parts.
#[no_mangle]
pub extern "C" fn c13_world_full() {
    let mut w = World::new(rt());
    w.pts = List::from_iter(rt(), vec![small_point(), small_point()]);
    w.map = Map::from_iter(rt(), vec![(t8(), Shape::new_rect(rt())), (t8(), Shape::new_circle(rt()))]);
    w.opt = Maybe::some(rt(), small_point());
    w.nums = List::from_iter(rt(), vec![t8(), t8()]);
    w.shape = Shape::new_rect(rt());
    w.note = String::from("n");
    Rig::run(w, 1 + deep(), |w| world_op(w, choose(WORLD_OPS)))
}
/// Replace a part, then change inside it.
#[no_mangle]
pub extern "C" fn c13_replace() {
    let mut rig = Rig::new(World::new(rt()));
    let w = &mut rig.v;
    match choose(7) {
        0 => {
            w.set_at(thin_point());
            point_op(&mut w.at);
        }
        1 => {
            w.set_pts(list(2, small_point));
            list_item_op(&mut w.pts, point_op);
            list_op(&mut w.pts, small_point, point_with);
        }
        2 => {
            w.set_map(map_u8(2, thin_shape));
            map_item_op(&mut w.map, u8_(), shape_op);
        }
        3 => {
            w.set_opt(maybe(thin_point));
            maybe_op(&mut w.opt, small_point, point_with, point_op);
        }
        4 => {
            w.set_boxed(Box::new(thin_point()));
            point_op(&mut w.boxed);
        }
        5 => {
            w.set_shape(thin_shape());
            shape_op(&mut w.shape);
            shape_op(&mut w.shape);
        }
        _ => {
            w.set_opt_with(|rt| Maybe::some(rt, thin_point()));
            maybe_op(&mut w.opt, small_point, point_with, point_op);
        }
    }
    rig.sync();
    rig.finish();
}
fn tree_op(t: &mut Tree, depth: u32) {
    match choose(if depth == 0 { 3 } else { 5 }) {
        0 => { t.set_v(u8_()); }
        1 => list_op(&mut t.kids, leaf, |rt| { let mut t = Tree::new(rt); t.set_v(u8_()); t }),
        2 => map_op(&mut t.named, [0u16, 300][choose(2) as usize], leaf, Tree::new),
        3 => list_item_op(&mut t.kids, |k| tree_op(k, depth - 1)),
        _ => map_item_op(&mut t.named, [0u16, 300][choose(2) as usize], |k| tree_op(k, depth - 1)),
    }
}
#[no_mangle]
pub extern "C" fn c13_tree() {
    Rig::run(tree(), 1, |t| tree_op(t, 2))
}
#[no_mangle]
pub extern "C" fn c13_tree_grow() {
    Rig::run(leaf(), 2 + deep(), |t| tree_op(t, 1))
}
#[no_mangle]
pub extern "C" fn c13_maybe() {
    Rig::run(maybe(thin_point), 2 + deep(), |m| maybe_op(m, small_point, point_with, point_op))
}
#[no_mangle]
pub extern "C" fn c13_maybe_u8() {
    Rig::run(maybe(u8_), 2, |m| match choose(2) {
        0 => { m.set_some_value(u8_()); }
        _ => { m.set_some_value_with(|_| u8_()); }
    })
}
#[no_mangle]
pub extern "C" fn c13_maybe_maybe() {
    Rig::run(maybe(|| maybe(thin_point)), 2, |m| {
        maybe_op(m, || maybe(thin_point), |rt| Maybe::some(rt, small_point()), |x| maybe_op(x, small_point, point_with, point_op))
    })
}
#[no_mangle]
pub extern "C" fn c13_maybe_list() {
    Rig::run(maybe(|| list(1, thin_point)), 2, |m| {
        maybe_op(m, || list(1, thin_point), List::new, |l| match choose(2) {
            0 => list_op(l, small_point, point_with),
            _ => list_item_op(l, point_op),
        })
    })
}
#[no_mangle]
pub extern "C" fn c13_box() {
    Rig::run(Box::new(World::new(rt())), 1, |w| world_op(w, choose(WORLD_OPS)))
}
#[no_mangle]
pub extern "C" fn c13_box_shape() {
    Rig::run(Box::new(shape()), 2, |s| shape_op(s))
}
/// Boxed primitives and enums inside other states.
fn boxes_op(b: &mut Boxes) {
    match choose(7) {
        0 => { b.set_n(Box::new(u8_())); }
        1 => { b.set_s(Box::new(thin_shape())); }
        2 => shape_op(&mut b.s),
        3 => list_op(&mut b.l, || Box::new(z8()), |_| Box::new(t8())),
        4 => map_op(&mut b.m, t8(), || Box::new(thin_shape()), |rt| Box::new(shape_with(rt))),
        5 => map_item_op(&mut b.m, t8(), |s| shape_op(s)),
        _ => maybe_op(&mut b.o, || Box::new(t16()), |_| Box::new(t16()), |_| ()),
    }
}
#[no_mangle]
pub extern "C" fn c13_boxes() {
    Rig::run(Boxes::new(rt()), 2, boxes_op)
}
#[no_mangle]
pub extern "C" fn c13_boxes_full() {
    Rig::run(boxes(), 1, boxes_op)
}
/// Enums whose default variant has fields, as a field, in a list and in a map.
#[no_mangle]
pub extern "C" fn c13_holder() {
    Rig::run(holder(), 1 + deep(), |h| match choose(7) {
        0 => kind_op(&mut h.kind),
        1 => { h.set_kind(thin_kind()); }
        2 => { h.set_kind_with(kind_with); }
        3 => list_item_op(&mut h.kinds, kind_op),
        4 => list_op(&mut h.kinds, || Kind::new_sub(rt()), kind_with),
        5 => map_item_op(&mut h.byk, t8(), kind_op),
        _ => map_op(&mut h.byk, t8(), || Kind::new_many(rt()), kind_with),
    })
}
#[no_mangle]
pub extern "C" fn c13_kinds() {
    Rig::run(Holder::new(rt()), 2, |h| match choose(4) {
        0 => h.kinds.iter_mut().for_each(|k| { k.set_plain_n(7); }),
        1 => list_op(&mut h.kinds, || Kind::new_many(rt()), kind_with),
        2 => map_op(&mut h.byk, t8(), || Kind::new_many(rt()), kind_with),
        _ => kind_op(&mut h.kind),
    })
}
/// Generic states.
#[no_mangle]
pub extern "C" fn c13_generic() {
    let mut d: Duo<Point, List<u8>> = Duo::new(rt());
    d.a = small_point();
    d.b = list(1, u8_);
    Rig::run(d, 2, |d| match choose(4) {
        0 => { d.set_a(small_point()); }
        1 => { d.set_b(list(2, u8_)); }
        2 => point_op(&mut d.a),
        _ => list_op(&mut d.b, u8_, |_| u8_()),
    })
}
/// Collections far below.
#[no_mangle]
pub extern "C" fn c13_deep() {
    let depth = [7, 20, 40][choose(3) as usize];
    Rig::run(deep_tree(depth), 2, |t| {
        let t = deepest(t, &deep_way(depth));
        match choose(4) {
            0 => { t.kids.push_with(Tree::new); }
            1 => { t.kids.pop(); }
            2 => { let k = u16_(); t.named.insert_with(k, Tree::new); }
            _ => { t.set_v(u8_()); }
        }
    })
}
