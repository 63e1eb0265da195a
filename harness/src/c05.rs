//! C05: states and state collections survive encoding and decoding.
use crate::{common::*, gen::*, sym::*, types::*};
use steit::{de::*, rt::*, ser::*, state::*, types::*, wire_fmt::*};

macro_rules! round {
    ($($name:ident $gen:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { if choose(2) == 0 { round($gen) } else { field($gen) } })*
    };
}

round! {
    c05_point point();
    c05_shape shape();
    c05_world world();
    c05_tree tree();
    c05_lean lean();
    c05_renamed renamed();
    c05_tuple tuple();
    c05_kind kind();
    c05_holder holder();
    c05_distant distant();
    c05_list_distant list(1, distant);
    c05_list_u8 list(4, u8_);
    c05_list_i32 list(2, i32_);
    c05_list_bool list(3, bool_);
    c05_list_point list(2, point);
    c05_list_shape list(2, shape);
    c05_list_list list(2, || list(2, u8_));
    c05_list_maybe list(2, || maybe(u8_));
    c05_list_box list(2, || Box::new(small_point()));
    c05_map_u8 map_u8(2, u8_);
    c05_map_u8_point map_u8(2, small_point);
    c05_map_u16 map_u16(2, i16_);
    c05_map_u32 map_u32(2, small_point);
    c05_map_shape map_u8(2, shape);
    c05_map_list map_u8(2, || list(1, u8_));
    c05_map_map map_u8(2, || map_u16(1, u8_));
    c05_maybe_u8 maybe(u8_);
    c05_maybe_i64 maybe(i64_);
    c05_maybe_point maybe(point);
    c05_maybe_maybe maybe(|| maybe(u8_));
    c05_maybe_list maybe(|| list(2, u8_));
    c05_box_shape Box::new(shape());
    c05_many_u8 many_u8();
    c05_many_points many_points();
    c05_many_map many_map();
    c05_deep deep_tree([7, 20, 40][choose(3) as usize]);
    c05_either_maybe wrap(maybe(|| maybe(point)));
}

/// Lists keep their order, maps their keys and insertion order.
#[no_mangle]
pub extern "C" fn c05_contents() {
    let items = vec_of(3, u16_);
    let l: List<u16> = List::from_iter(rt(), items.clone());
    let back = List::<u16>::deserialize(&mut Reader::new(&l.to_bytes()[..])).unwrap();
    check(back.len() == items.len(), 40);
    for i in 0..items.len() {
        check(back[i] == items[i], 41);
    }
    cover(1);
}

#[no_mangle]
pub extern "C" fn c05_map_contents() {
    let n = choose(4);
    let mut model: Vec<(u8, u16)> = Vec::new();
    let mut m: Map<u8, u16> = Map::new(rt());
    for _ in 0..n {
        let (k, v) = (u8_(), u16_());
        m.insert(k, v);
        match model.iter_mut().find(|e| e.0 == k) {
            Some(e) => e.1 = v,
            None => model.push((k, v)),
        }
    }
    let bytes = m.to_bytes();
    let back = Map::<u8, u16>::deserialize(&mut Reader::new(&bytes[..])).unwrap();
    check(back.len() == model.len(), 42);
    for (k, v) in &model {
        check(back.get(k) == Some(v), 43);
    }
    check(same(&back.to_bytes(), &bytes), 44);
    // On the wire a map is one field per entry, numbered by its key, defaults included.
    let w = walk(&bytes);
    check(w.len() == model.len(), 45);
    for (i, f) in w.iter().enumerate() {
        check(f.0 == model[i].0 as u32 && f.1 == 0 && same(&f.2, &model[i].1.to_bytes()), 46);
    }
    cover(1);
}

/// Any map key that fits a field number works; 32-bit keys that do not are a known finding.
fn map_u32_key(k: u32) {
    let v = u8_();
    let mut m: Map<u32, u8> = Map::new(rt());
    m.insert(k, v);
    let back = Map::<u32, u8>::deserialize(&mut Reader::new(&m.to_bytes()[..])).unwrap();
    check(back == m && back.get(&k) == Some(&v), 47);
    cover(1);
}

#[no_mangle]
pub extern "C" fn c05_map_u32_key() {
    map_u32_key(key_u32());
}

#[no_mangle]
pub extern "C" fn c05_map_u32_key_too_big() {
    let k = u32_();
    assume(k >= 1 << 29);
    map_u32_key(k);
}

/// Decoding is the same with and without a runtime, and remembers the runtime it was given.
#[no_mangle]
pub extern "C" fn c05_with_runtime() {
    let w = world();
    let bytes = w.to_bytes();
    let mut v = World::with_runtime(Runtime::new());
    v.merge(&mut Reader::new(&bytes[..])).unwrap();
    check(v == w, 48);
    check(v.is_root(), 49);
    check(same(&v.to_bytes(), &bytes), 50);
    cover(1);
}
