//! C11: replaying what the changes of a list logged reproduces the list.
use crate::{gen::*, ops::*, sym::*, types::*};
use steit::types::*;

fn n() -> u32 {
    3 + deep()
}

#[no_mangle]
pub extern "C" fn c11_u8() {
    Rig::run(list(2, u8_), n(), |l| list_op(l, u8_, |_| u8_()))
}
#[no_mangle]
pub extern "C" fn c11_i16() {
    Rig::run(list(1, i16_), 3, |l| list_op(l, i16_, |_| t16()))
}
#[no_mangle]
pub extern "C" fn c11_point() {
    Rig::run(list(2, small_point), 2 + deep(), |l| match choose(2) {
        0 => list_op(l, small_point, point_with),
        _ => list_item_op(l, |p| { p.set_y(t16()); }),
    })
}
/// Removing from the middle of longer lists, then changing what is left.
#[no_mangle]
pub extern "C" fn c11_swap() {
    let mut l: List<Point> = List::new(rt());
    for _ in 0..2 + choose(3) {
        l.push(small_point());
    }
    Rig::run(l, 2, |l| match choose(3) {
        0 => { l.swap_remove(choose(l.len() as u32 + 1) as usize); }
        1 => list_item_op(l, |p| { p.set_y(t16()); }),
        _ => { l.push(small_point()); }
    })
}
#[no_mangle]
pub extern "C" fn c11_shape() {
    Rig::run(list(1, thin_shape), 2, |l| match choose(3) {
        0 => list_op(l, thin_shape, shape_with),
        _ => list_item_op(l, shape_op),
    })
}
#[no_mangle]
pub extern "C" fn c11_maybe() {
    Rig::run(list(2, || maybe(thin_point)), 2, |l| match choose(2) {
        0 => list_op(l, || maybe(u8_point), |rt| Maybe::some(rt, small_point())),
        _ => list_item_op(l, |m| maybe_op(m, small_point, point_with, |p| { p.set_y(t16()); })),
    })
}
fn u8_point() -> Point {
    small_point()
}
#[no_mangle]
pub extern "C" fn c11_list() {
    Rig::run(list(2, || list(1, t8)), 2, |l| match choose(2) {
        0 => list_op(l, || list(1, t8), List::new),
        _ => list_item_op(l, |x| list_op(x, u8_, |_| u8_())),
    })
}
#[no_mangle]
pub extern "C" fn c11_boxed() {
    Rig::run(list(2, || Box::new(thin_point())), 2, |l| match choose(2) {
        0 => list_op(l, || Box::new(thin_point()), |rt| Box::new(point_with(rt))),
        _ => list_item_op(l, |p| point_op(p)),
    })
}
/// A long list: indices of two encoded bytes.
#[no_mangle]
pub extern "C" fn c11_long() {
    let mut l: List<Point> = List::new(rt());
    for _ in 0..130 {
        l.push(Point::new(rt()));
    }
    Rig::run(l, 2, |l| {
        let i = [0, 126, 127, 128, 129][choose(5) as usize];
        match choose(3) {
            0 => { l.swap_remove(i); }
            1 => { if let Some(p) = l.get_mut(i) { p.set_x(u8_()); } }
            _ => { l.push(small_point()); }
        }
    })
}
/// Items taken out do not write into the log of the list any more.
#[no_mangle]
pub extern "C" fn c11_removed() {
    let mut rig = Rig::new(list(3, small_point));
    let n = rig.v.len() as u32;
    let taken = match choose(2) {
        0 => rig.v.pop(),
        _ => rig.v.swap_remove(choose(n + 1) as usize),
    };
    if let Some(mut p) = taken {
        p.set_x(u8_());
        p.set_y(t16());
    }
    rig.sync();
    rig.finish();
}
/// Longer lists still, where an index does not fit into a byte.
#[no_mangle]
pub extern "C" fn c11_many() {
    let n = [256, 300][choose(2) as usize];
    let mut rig = Rig::new(List::from_iter(rt(), (0..n).map(|i| { let mut p = thin_zero(); p.x = i as u8; p })));
    let i = [0, 126, 128, 254, 255, 256, 299][choose(7) as usize];
    match choose(4) {
        0 => { rig.v.swap_remove(i); }
        1 => { if let Some(p) = rig.v.get_mut(i) { p.set_x(u8_()); } }
        2 => { rig.v.pop(); }
        _ => { rig.v.push(small_point()); }
    }
    rig.sync();
    let i = [127, 254, 255, 256][choose(4) as usize];
    if let Some(p) = rig.v.get_mut(i) {
        p.set_x(u8_());
    }
    rig.sync();
    rig.finish();
}
/// And many changes of them.
#[no_mangle]
pub extern "C" fn c11_history() {
    let mut rig = Rig::new(List::new(rt()));
    for i in 0..130 {
        rig.v.push(thin_zero());
        if i % 3 == 2 {
            rig.v.swap_remove(i / 3);
        } else if i % 7 == 3 {
            rig.v[i / 2].set_x(i as u8);
        }
    }
    match choose(3) {
        0 => { rig.v.swap_remove(choose(90) as usize); }
        1 => { if let Some(p) = rig.v.get_mut(choose(90) as usize) { p.set_x(u8_()); } }
        _ => { rig.v.pop(); }
    }
    rig.sync();
    rig.finish();
}
fn thin_zero() -> Point {
    Point::new(rt())
}
