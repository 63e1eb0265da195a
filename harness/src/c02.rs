//! C02: the reported size is the number of bytes written.
use crate::{common::*, gen::*, sym::*, types::*};
use std::collections::HashMap;
use steit::{log::LogEntry, rt::*, ser::*, types::*, wire_fmt::*};

macro_rules! agree {
    ($($name:ident $gen:expr;)*) => { $(#[no_mangle] pub extern "C" fn $name() { agree(&$gen); })* };
}

agree! {
    c02_u8 u8_();
    c02_u16 u16_();
    c02_u32 u32_();
    c02_u64 u64_();
    c02_i8 i8_();
    c02_i16 i16_();
    c02_i32 i32_();
    c02_i64 i64_();
    c02_bool bool_();
    c02_string string(3);
    c02_long_string long_string();
    c02_str &string(2)[..];
    c02_bytes Bytes::from_raw(vec_of(4, u8_));
    c02_long_bytes Bytes::from_raw(long_bytes());
    c02_bytes_value Bytes::from_value(&vec_of(2, i16_));
    c02_vec_u8 vec_of(3, u8_);
    c02_long_vec long_bytes();
    c02_huge_string huge_string();
    c02_huge_bytes Bytes::from_raw(huge_bytes());
    c02_huge_nested vec![Some((u8_(), Bytes::from_raw(huge_bytes())))];
    c02_huge_msg { let mut v = Msg::new(); v.raw = Bytes::from_raw(huge_bytes()); v };
    c02_many_foo many(130, { let mut f = Foo::new(); f.0 = 1; f }, foo);
    c02_vec_i32 vec_of(2, i32_);
    c02_vec_foo vec_of(2, foo);
    c02_vec_vec vec_of(2, || vec_of(2, u8_));
    c02_vec_string vec_of(2, || ascii(2));
    c02_opt_u8 opt(u8_);
    c02_opt_opt opt(|| opt(u8_));
    c02_opt_foo opt(foo);
    c02_opt_string opt(|| string(1));
    c02_arr1 [u16_()];
    c02_arr2 [foo(), foo()];
    c02_arr3 [u8_(), u8_(), u8_()];
    c02_arr4 [bool_(), true, false, bool_()];
    c02_arr5 [u8_(), u8_(), u8_(), u8_(), u8_()];
    c02_arr6 [i8_(), i8_(), 0, 0, i8_(), i8_()];
    c02_arr7 [u8_(), u8_(), 1, 2, 3, u8_(), u8_()];
    c02_tup2 (u16_(), foo());
    c02_tup3 (u8_(), bool_(), vec_of(2, u8_));
    c02_tup4 (u8_(), i8_(), (u8_(), u8_()), 1u8);
    c02_tup5 (u8_(), u8_(), u8_(), u8_(), opt(u8_));
    c02_tup6 (u8_(), foo(), 1u16, ascii(1), u8_(), false);
    c02_tup7 (u8_(), 0u8, u8_(), 0i64, u8_(), vec![1u8], u8_());
    c02_hash hash_u8();
    c02_hash_str hash_str();
    c02_box_u8 Box::new(u8_());
    c02_box_foo Box::new(foo());
    c02_box_vec Box::new(vec_of(2, u8_));
    c02_foo foo();
    c02_unit Unit::new();
    c02_flat flat();
    c02_wide wide();
    c02_act act();
    c02_msg msg(choose(10));
    c02_pair pair();
    c02_either either();
    c02_w_w wrap(wrap(foo()));
    c02_slim slim(slim(wrap(u8_())));
    c02_w_slim wrap(slim(act()));
    c02_w_list_list wrap(list(1, || list(2, u8_)));
    c02_point point();
    c02_shape shape();
    c02_world world();
    c02_tree tree();
    c02_list_u8 list(3, u8_);
    c02_list_point list(2, point);
    c02_list_shape list(1, shape);
    c02_map_u8 map_u8(2, u8_);
    c02_map_u16 map_u16(1, point);
    c02_map_u32 map_u32(1, shape);
    c02_maybe_u8 maybe(u8_);
    c02_maybe_point maybe(point);
    c02_maybe_maybe maybe(|| maybe(u8_));
    c02_lean lean();
    c02_renamed renamed();
    c02_tuple tuple();
    c02_kind kind();
    c02_holder holder();
    c02_log log_entry();
    c02_distant distant();
    c02_hash_vec hash_vec();
    c02_list_distant list(1, distant);
}

/// Sizes remembered from an earlier serialization never leak into a later one.
#[no_mangle]
pub extern "C" fn c02_stale_world() {
    let mut w = world();
    let _ = w.to_bytes();
    world_part(&mut w, choose(9));
    sizes(&w);
    cover(1);
}

#[no_mangle]
pub extern "C" fn c02_stale_tree() {
    let mut t = tree();
    t.cache_size();
    match choose(4) {
        0 => t.v = u8_(),
        1 => { t.kids.pop(); }
        2 => { t.kids.push(leaf()); }
        _ => { t.named.insert(65535, leaf()); }
    }
    sizes(&t);
    cover(1);
}

#[no_mangle]
pub extern "C" fn c02_stale_msg() {
    let mut m = msg(7);
    m.cache_size();
    match choose(3) {
        0 => m.foos.push(foo()),
        1 => m.foos.clear(),
        _ => m.opt = opt(foo),
    }
    sizes(&m);
    cover(1);
}

/// One value written twice, changed in between: the bytes are those of its parts, each with its own size.
fn parts<T: Serialize, V: Serialize>(mut v: T, change: impl FnOnce(&mut T), each: impl FnOnce(&T) -> Vec<V>) {
    match choose(3) {
        0 => (),
        1 => { v.cache_size(); }
        _ => { v.to_bytes(); }
    }
    change(&mut v);
    let mut want = Vec::new();
    for p in each(&v) {
        let bytes = p.to_bytes();
        if V::WIRE_TYPE == WireType::Sized {
            put(&mut want, bytes.len() as u64);
        }
        want.extend_from_slice(&bytes);
    }
    check(v.compute_size() as usize == want.len(), 20);
    check(same(&v.to_bytes(), &want), 21);
    let field = W2(v).to_bytes();
    if want.is_empty() {
        check(field.is_empty() || same(&field, &[10, 0]), 22);
    } else {
        let mut b = vec![10];
        put(&mut b, want.len() as u64);
        b.extend_from_slice(&want);
        check(same(&field, &b), 23);
    }
    cover(1);
}

/// A message with one field, 1.
struct W2<T>(T);
impl<T: Serialize> HasWireType for W2<T> { const WIRE_TYPE: WireType = WireType::Sized; }
impl<T: Serialize> Serialize for W2<T> {
    fn compute_size(&self) -> u32 { self.0.compute_size_nested(1, true).unwrap() }
    fn serialize_cached(&self, w: &mut impl std::io::Write) -> std::io::Result<()> { self.0.serialize_nested(1, true, w) }
    fn size_cache(&self) -> Option<&SizeCache> { None }
}

fn some_foo() -> Foo {
    let mut f = Foo::new();
    f.0 = t8();
    f
}

harness! {
    c02_parts_arr1 => { parts([some_foo()], |v| v[0].1 = 1, |v| v.to_vec()) }
    c02_parts_arr2 => { parts([some_foo(), some_foo()], |v| v[1].0 = 0, |v| v.to_vec()) }
    c02_parts_arr4 => { parts([some_foo(), Foo::new(), Foo::new(), some_foo()], |v| v[1].0 = t8(), |v| v.to_vec()) }
    c02_parts_arr_vec => { parts([vec![u8_()], vec![]], |v| v[choose(2) as usize].push(t8()), |v| v.to_vec()) }
    c02_parts_arr_point => { parts([small_point(), small_point(), small_point()], |v| { v[choose(3) as usize].set_x(200); }, |v| v.to_vec()) }
    c02_parts_vec => { parts(vec![some_foo(), some_foo()], |v| match choose(3) { 0 => v[1].1 = 1, 1 => { v.pop(); } _ => v.push(some_foo()) }, |v| v.clone()) }
    c02_parts_vec_vec => { parts(vec![vec![some_foo()], vec![]], |v| match choose(2) { 0 => v[0][0].0 = 0, _ => v[1].push(some_foo()) }, |v| v.clone()) }
    c02_parts_long => { parts(vec![vec![1u8; 126], long_bytes()], |v| v[0].push(2), |v| v.clone()) }
    c02_parts_list => { parts(list(2, small_point), |v| match choose(2) { 0 => { v.push(small_point()); } _ => { v.pop(); } }, |v| v.iter().cloned().collect()) }
    c02_parts_list_list => { parts(list(2, || list(1, t8)), |v| { v.push(list(1, t8)); v[0].push(1); }, |v| v.iter().cloned().collect()) }
    c02_parts_hash => {
        let mut m = HashMap::new();
        m.insert(1u8, some_foo());
        parts(m, |m| match choose(2) { 0 => m.get_mut(&1).unwrap().0 = t8(), _ => { m.clear(); m.insert(2, Foo::new()); } }, |m| {
            m.iter().flat_map(|(k, v)| {
                let b = v.to_bytes();
                let mut all = vec![*k, b.len() as u8];
                all.extend_from_slice(&b);
                all
            }).map(Raw).collect()
        })
    }
    c02_parts_tuple => {
        parts((t8(), some_foo(), vec![some_foo()]), |v| match choose(3) { 0 => v.1.0 = 0, 1 => v.2.push(some_foo()), _ => v.2[0].1 = -1 }, |v| {
            let mut all = vec![v.0];
            for b in &[v.1.to_bytes(), v.2.to_bytes()] {
                all.push(b.len() as u8);
                all.extend_from_slice(b);
            }
            all.into_iter().map(Raw).collect()
        })
    }
}

/// A byte as it is.
struct Raw(u8);
impl HasWireType for Raw { const WIRE_TYPE: WireType = WireType::Varint; }
impl Serialize for Raw {
    fn compute_size(&self) -> u32 { 1 }
    fn serialize_cached(&self, w: &mut impl std::io::Write) -> std::io::Result<()> { w.write_all(&[self.0]) }
    fn size_cache(&self) -> Option<&SizeCache> { None }
}
