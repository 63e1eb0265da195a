//! C12: replaying what the changes of a map logged reproduces the map.
use crate::{gen::*, ops::*, sym::*, types::*};
use steit::{state::*, types::*};

#[no_mangle]
pub extern "C" fn c12_u8() {
    Rig::run(map_u8(2, z8), 2 + deep(), |m| map_op(m, u8_(), u8_, |_| t8()))
}
#[no_mangle]
pub extern "C" fn c12_u8_long() {
    Rig::run(map_u8(0, u8_), 4, |m| map_op(m, choose(3) as u8, t8, |_| t8()))
}
#[no_mangle]
pub extern "C" fn c12_u16() {
    Rig::run(map_u16(1, i16_), 2 + deep(), |m| map_op(m, u16_(), i16_, |_| t16()))
}
#[no_mangle]
pub extern "C" fn c12_u32() {
    Rig::run(map_u32(1, small_point), 2, |m| match choose(2) {
        0 => map_op(m, key_u32(), small_point, point_with),
        _ => map_item_op(m, key_u32(), |p| { p.set_y(t16()); }),
    })
}
#[no_mangle]
pub extern "C" fn c12_point() {
    Rig::run(map_u8(2, small_point), 2 + deep(), |m| match choose(2) {
        0 => map_op(m, u8_(), small_point, point_with),
        _ => map_item_op(m, u8_(), |p| { p.set_y(t16()); }),
    })
}
#[no_mangle]
pub extern "C" fn c12_shape() {
    Rig::run(map_u8(1, thin_shape), 2, |m| match choose(2) {
        0 => map_op(m, u8_(), thin_shape, shape_with),
        _ => map_item_op(m, u8_(), shape_op),
    })
}
#[no_mangle]
pub extern "C" fn c12_maybe() {
    Rig::run(map_u8(1, || maybe(thin_point)), 2, |m| match choose(2) {
        0 => map_op(m, u8_(), || maybe(thin_point), |rt| Maybe::some(rt, small_point())),
        _ => map_item_op(m, u8_(), |v| maybe_op(v, small_point, point_with, |p| { p.set_y(t16()); })),
    })
}
#[no_mangle]
pub extern "C" fn c12_map() {
    Rig::run(map_u8(1, || map_u8(1, t8)), 2, |m| match choose(2) {
        0 => map_op(m, u8_(), || map_u8(1, t8), Map::new),
        _ => map_item_op(m, u8_(), |v| map_op(v, u8_(), u8_, |_| u8_())),
    })
}
#[no_mangle]
pub extern "C" fn c12_list() {
    Rig::run(map_u8(1, || list(1, thin_point)), 2, |m| match choose(2) {
        0 => map_op(m, u8_(), || list(1, thin_point), List::new),
        _ => map_item_op(m, u8_(), |v| match choose(2) {
            0 => list_op(v, small_point, point_with),
            _ => list_item_op(v, |p| { p.set_x(u8_()); }),
        }),
    })
}
/// What is inserted is attached to the map: later changes inside it are logged below its key.
#[no_mangle]
pub extern "C" fn c12_attached() {
    let mut rig = Rig::new(map_u16(1, small_point));
    let k = u16_();
    let mut p = small_point();
    p.set_runtime(logged().0.nested(9));
    rig.v.insert(k, p);
    rig.sync();
    rig.v[&k].set_y(t16());
    rig.sync();
    rig.finish();
}
/// Values taken out or replaced do not write into the log of the map any more.
#[no_mangle]
pub extern "C" fn c12_removed() {
    let mut rig = Rig::new(map_u8(2, small_point));
    let k = u8_();
    let taken = match choose(3) {
        0 => rig.v.remove(&k),
        1 => rig.v.insert(k, small_point()),
        _ => rig.v.insert_with(k, point_with),
    };
    if let Some(mut p) = taken {
        p.set_x(u8_());
        p.set_y(t16());
    }
    rig.sync();
    rig.finish();
}
/// Many entries: the places of those behind a removed one change.
#[no_mangle]
pub extern "C" fn c12_many() {
    let n = [64u16, 130][choose(2) as usize];
    let mut rig = Rig::new(Map::from_iter(rt(), (0..n).map(|i| (i * 131, 1u8))));
    for i in 0..2 {
        let k = [0u16, 131, 63 * 131, 129 * 131, 7][choose(5) as usize];
        match choose(2 - i) {
            0 => { rig.v.insert(k, u8_()); }
            _ => { rig.v.remove(&k); }
        }
        rig.sync();
    }
    rig.finish();
}
#[no_mangle]
pub extern "C" fn c12_many_points() {
    let m = Map::from_iter(rt(), (0..70u16).map(|i| (i * 131, Point::new(rt()))));
    Rig::run(m, 2, |m| {
        let k = [0, 131, 33 * 131, 69 * 131, 7][choose(5) as usize];
        match choose(3) {
            0 => { m.insert(k, small_point()); }
            1 => { m.remove(&k); }
            _ => { if let Some(p) = m.get_mut(&k) { p.set_x(u8_()); } }
        }
    })
}
