//! C03: built-in composite types survive encoding and decoding.
use crate::{common::*, gen::*, sym::*, types::*};
use std::collections::HashMap;
use steit::{de::*, rt::*, ser::*, types::*, wire_fmt::*};

macro_rules! round {
    ($($name:ident $gen:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { if choose(2) == 0 { round($gen) } else { field($gen) } })*
    };
}

round! {
    c03_string string(3);
    c03_long_string long_string();
    c03_bytes Bytes::from_raw(vec_of(4, u8_));
    c03_long_bytes Bytes::from_raw(long_bytes());
    c03_vec_u8 vec_of(4, u8_);
    c03_long_vec long_bytes();
    c03_vec_bool vec_of(4, bool_);
    c03_vec_i32 vec_of(2, i32_);
    c03_vec_u64 vec_of(2, u64_);
    c03_vec_string vec_of(2, || string(1));
    c03_vec_vec vec_of(2, || vec_of(2, u8_));
    c03_vec_opt vec_of(2, || opt(u8_));
    c03_vec_tup vec_of(2, || (u8_(), i8_()));
    c03_vec_arr vec_of(2, || [u8_(), u8_()]);
    c03_opt_u8 opt(u8_);
    c03_opt_i64 opt(i64_);
    c03_opt_bool opt(bool_);
    c03_opt_opt opt(|| opt(|| opt(u8_)));
    c03_opt_string opt(|| string(1));
    c03_opt_vec opt(|| vec_of(2, u8_));
    c03_arr1 [u32_()];
    c03_arr2 [string(1), ascii(1)];
    c03_arr3 [opt(u8_), opt(u8_), opt(u8_)];
    c03_arr4 [i16_(), i16_(), i16_(), i16_()];
    c03_arr5 [u8_(), u8_(), u8_(), u8_(), u8_()];
    c03_arr6 [i8_(), i8_(), bool_() as i8, 3, i8_(), i8_()];
    c03_arr7 [u8_(), u8_(), u8_(), 7, u8_(), 8, u8_()];
    c03_arr_foo [foo(), foo()];
    c03_tup_foo (foo(), vec![foo()], u8_());
    c03_opt_arr opt(|| [foo(), foo()]);
    c03_hash_empty hash_vec();
    c03_arr_arr [[u8_(), u8_()], [u8_(), u8_()]];
    c03_tup2 (u16_(), i16_());
    c03_tup3 (string(1), u8_(), vec_of(2, u8_));
    c03_tup4 (opt(u8_), (u8_(), bool_()), [u8_()], i8_());
    c03_tup5 (u8_(), i8_(), u8_(), i8_(), u8_());
    c03_tup6 (u8_(), ascii(1), i8_(), bool_(), vec_of(1, u8_), u8_());
    c03_tup7 (u8_(), i8_(), bool_(), u8_(), ascii(1), u8_(), i8_());
    c03_hash hash_u8();
    c03_hash_str hash_str();
    c03_hash_vec { let mut m = HashMap::new(); for k in 0..choose(3) { m.insert(300 * k as u16, vec_of(1, u8_)); } m };
    c03_box_u8 Box::new(u8_());
    c03_box_i32 Box::new(i32_());
    c03_box_vec Box::new(vec_of(2, u8_));
    c03_box_string Box::new(string(1));
    c03_opt_box opt(|| Box::new(i16_()));
    c03_huge_bytes Bytes::from_raw(huge_bytes());
    c03_huge_string huge_string();
    c03_huge_nested vec![Some((u8_(), Bytes::from_raw(huge_bytes())))];
    c03_many_u16 many(150, 300u16, u16_);
    c03_many_string many(70, "..".to_string(), || string(1));
    c03_many_opt many(140, Some(1u8), || opt(u8_));
    c03_many_hash { let mut m = HashMap::new(); for k in 0..40 { m.insert(k as u8, 1u16); } m.insert(u8_(), u16_()); m };
}
