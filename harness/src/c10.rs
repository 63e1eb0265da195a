//! C10: replaying what the setters of messages logged reproduces the state.
use crate::{gen::*, ops::*, sym::*, types::*};
use steit::{state::*, types::*};

fn n() -> u32 {
    2 + deep()
}

#[no_mangle]
pub extern "C" fn c10_point() {
    Rig::run(point(), n(), point_op)
}
#[no_mangle]
pub extern "C" fn c10_lean() {
    Rig::run(lean(), n(), |v| match choose(4) {
        0 => { v.set_a(u8_()); }
        1 => { v.set_p(point()); }
        2 => { v.set_p_with(point_with); }
        _ => point_op(&mut v.p),
    })
}
#[no_mangle]
pub extern "C" fn c10_renamed() {
    Rig::run(renamed(), n(), |v| match choose(3) {
        0 => { v.set_size_cache(u8_()); }
        1 => { v.set_runtime(small_point()); }
        _ => point_op(&mut v.runtime),
    })
}
#[no_mangle]
pub extern "C" fn c10_tuple() {
    Rig::run(tuple(), n(), |v| match choose(5) {
        0 => { v.set_f0(u8_()); }
        1 => { v.set_f1(point()); }
        2 => { v.set_f1_with(point_with); }
        3 => { v.set_f2(list(2, u8_)); }
        _ => point_op(&mut v.1),
    })
}
#[no_mangle]
pub extern "C" fn c10_kind() {
    Rig::run(thin_kind(), n(), kind_op)
}
#[no_mangle]
pub extern "C" fn c10_distant() {
    Rig::run(distant(), 1 + deep(), distant_op)
}
#[no_mangle]
pub extern "C" fn c10_shape() {
    Rig::run(shape(), n(), shape_op)
}
#[no_mangle]
pub extern "C" fn c10_shape_with() {
    Rig::run(shape(), 2, |s| {
        let x = u8_();
        match choose(3) {
            0 => { s.set_circle_f0_with(|_| x); }
            1 => { s.set_rect_a_with(|_| x); }
            _ => { s.set_rect_p_with(|rt| { let mut p = small_point(); p.set_runtime(rt); p }); }
        }
    })
}
/// Setters of fields below a nested message; values of every encoded length.
#[no_mangle]
pub extern "C" fn c10_numbers() {
    let mut v = Numbers::new(rt());
    v.a = u32_();
    Rig::run(v, n(), |v| match choose(8) {
        0 => { v.set_a(u32_()); }
        1 => { v.set_b(i32_()); }
        2 => { v.set_c(u64_()); }
        3 => { v.set_d(i64_()); }
        4 => { v.set_e(bool_()); }
        5 => { v.set_f(u16_()); }
        6 => { v.set_g(i8_()); }
        _ => { v.set_a_with(|_| u32_()); }
    })
}
/// Far field numbers: paths of every encoded length.
#[no_mangle]
pub extern "C" fn c10_far() {
    Rig::run(far(), n(), |v| match choose(6) {
        0 => { v.set_a(u8_()); }
        1 => { v.set_b(small_point()); }
        2 => { v.set_c_with(point_with); }
        3 => point_op(&mut v.b),
        4 => point_op(&mut v.c),
        _ => shape_op(&mut v.d),
    })
}
/// Fields that are no states are carried with the message but not logged on their own.
#[no_mangle]
pub extern "C" fn c10_plain() {
    let mut rig = Rig::new(World::new(rt()));
    let s = string(1);
    rig.v.set_note(s.clone());
    check(rig.v.note == s && take(&rig.log).is_empty(), 10);
    cover(1);
}
/// Each call of a setter appends one entry for its field, or two when it switches the variant.
#[no_mangle]
pub extern "C" fn c10_entries() {
    let mut rig = Rig::new(shape());
    let was = match &rig.v {
        Shape::Empty { .. } => 0,
        Shape::Circle(..) => 3,
        Shape::Rect { .. } => 16,
    };
    let (now, x) = (choose(2), u8_());
    if now == 0 {
        rig.v.set_circle_f0(x);
    } else {
        rig.v.set_rect_a(x);
    }
    let now = if now == 0 { 3 } else { 16 };
    let entries = rig.log.lock().unwrap().pluck();
    check(entries.len() == if was == now { 1 } else { 2 }, 11);
    match entries.last().unwrap() {
        steit::log::LogEntry::Update { path, .. } => check(path[..] == [now, if now == 3 { 0 } else { 1 }][..], 12),
        _ => check(false, 13),
    }
    cover(1);
}
/// Many changes.
#[no_mangle]
pub extern "C" fn c10_history() {
    let mut rig = Rig::new(Shape::new_rect(rt()));
    for i in 0..300u32 {
        match i % 5 {
            0 => { rig.v.set_circle_f0(i as u8); }
            1 => { rig.v.set_rect_a(i as u8); }
            _ => { if let Shape::Rect { p, .. } = &mut rig.v { p.set_y(i as i16); } }
        }
    }
    shape_op(&mut rig.v);
    rig.sync();
    rig.finish();
}
/// Far below.
#[no_mangle]
pub extern "C" fn c10_deep() {
    let depth = [7, 20, 40][choose(3) as usize];
    let mut rig = Rig::new(deep_tree(depth));
    for _ in 0..2 {
        deepest(&mut rig.v, &deep_way(depth)).set_v(u8_());
        rig.sync();
    }
    rig.finish();
}
