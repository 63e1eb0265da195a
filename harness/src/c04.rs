//! C04: derived messages survive encoding and decoding, and look as their declaration says.
use crate::{common::*, gen::*, sym::*, types::*};
use std::collections::HashMap;
use steit::{de::*, rt::*, ser::*, types::*, wire_fmt::*};

macro_rules! round {
    ($($name:ident $gen:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { if choose(2) == 0 { round($gen) } else { field($gen) } })*
    };
}

round! {
    c04_foo foo();
    c04_unit Unit::new();
    c04_flat flat();
    c04_wide wide();
    c04_act act();
    c04_distant distant();
    c04_msg msg(choose(10));
    c04_pair pair();
    c04_either either();
    c04_vec_act vec_of(2, act);
    c04_opt_act opt(act);
    c04_box_act Box::new(act());
    c04_slim slim(act());
    c04_nested wrap(slim(wrap(foo())));
    c04_arr_foo [foo(), foo()];
    c04_tup_act (act(), foo());
}

/// The wire of a message: one tagged field per value that differs from its default, nothing else.
#[no_mangle]
pub extern "C" fn c04_wire_flat() {
    let v = flat();
    let b = v.to_bytes();
    fields(&b, &[
        (0, 0, v.a != 0, v.a.to_bytes()),
        (15, 0, v.b != 0, v.b.to_bytes()),
        (16, 0, v.c, v.c.to_bytes()),
        (2047, 0, v.d != 0, v.d.to_bytes()),
        (2048, 0, v.e != 0, v.e.to_bytes()),
        (FIELD_NUMBER_MAX, 0, v.f != 0, v.f.to_bytes()),
    ]);
    cover(1);
}

#[no_mangle]
pub extern "C" fn c04_wire_msg() {
    let v = msg(choose(10));
    let b = v.to_bytes();
    fields(&b, &[
        (0, 2, !v.name.is_empty(), v.name.to_bytes()),
        (1, 2, !v.nums.is_empty(), v.nums.to_bytes()),
        (2, 2, v.opt.is_some(), v.opt.to_bytes()),
        (3, 2, true, v.arr.to_bytes()),
        (4, 2, true, v.tup.to_bytes()),
        (5, 2, v.raw.compute_size() > 0, v.raw.to_bytes()),
        (6, 2, v.boxed.0 != 0 || v.boxed.1 != 0, v.boxed.to_bytes()),
        (7, 2, !v.foos.is_empty(), v.foos.to_bytes()),
        (8, 2, !v.map.is_empty(), v.map.to_bytes()),
        (9, 2, true, v.act.to_bytes()),
    ]);
    cover(1);
}

/// The wire of an enum: the tag of its variant, then the fields of the variant.
#[no_mangle]
pub extern "C" fn c04_wire_act() {
    let v = act();
    let b = v.to_bytes();
    let mut i = 0;
    let tag = leb(&b, &mut i);
    match &v {
        Act::Unit { .. } => {
            check(tag == 0, 20);
            fields(&b[i..], &[]);
        }
        Act::Tuple(a, f, ..) => {
            check(tag == 1, 21);
            fields(&b[i..], &[(0, 0, *a != 0, a.to_bytes()), (3, 2, f.0 != 0 || f.1 != 0, f.to_bytes())]);
        }
        Act::Named { x, v, .. } => {
            check(tag == 300, 22);
            fields(&b[i..], &[(2, 0, *x != 0, x.to_bytes()), (1, 2, !v.is_empty(), v.to_bytes())]);
        }
        Act::Lean { y, .. } => {
            check(tag == 7, 23);
            fields(&b[i..], &[(0, 0, *y != 0, y.to_bytes())]);
        }
    }
    cover(1);
}

#[no_mangle]
pub extern "C" fn c04_wire_distant() {
    let v = distant();
    let b = v.to_bytes();
    let mut i = 0;
    let tag = leb(&b, &mut i);
    let (want, x): (u64, Vec<(u32, u8, bool, Vec<u8>)>) = match &v {
        Distant::A { .. } => (0, vec![]),
        Distant::B(x, ..) => (127, vec![(127, 0, *x != 0, x.to_bytes())]),
        Distant::C { n, .. } => (128, vec![(16383, 0, *n != 0, n.to_bytes())]),
        Distant::D(x, y, ..) => (16383, vec![(15, 0, *x, x.to_bytes()), (16, 0, *y != 0, y.to_bytes())]),
        Distant::E { x, y, .. } => (16384, vec![(2047, 0, *x != 0, x.to_bytes()), (2048, 0, *y != 0, y.to_bytes())]),
        Distant::F(p, ..) => (2097152, vec![(262143, 2, p.x != 0 || p.y != 0, p.to_bytes())]),
        Distant::G { l, n, .. } => (268435456, vec![(33554432, 2, l.len() > 0, l.to_bytes()), (0, 0, *n != 0, n.to_bytes())]),
        Distant::H(x, ..) => (536870911, vec![(536870911, 0, *x != 0, x.to_bytes())]),
    };
    check(tag as u64 == want, 26);
    fields(&b[i..], &x);
    cover(1);
}

#[no_mangle]
pub extern "C" fn c04_wire_generic() {
    let v = either();
    let b = v.to_bytes();
    let mut i = 0;
    let tag = leb(&b, &mut i);
    match &v {
        Either::Left(a, ..) => {
            check(tag == 0, 24);
            fields(&b[i..], &[(0, 0, *a != 0, a.to_bytes())]);
        }
        Either::Right(p, ..) => {
            check(tag == 1, 25);
            fields(&b[i..], &[(0, 2, p.a != 0 || p.b != 0, p.to_bytes())]);
            fields(&p.to_bytes(), &[(1, 0, p.a != 0, p.a.to_bytes()), (2, 0, p.b != 0, p.b.to_bytes())]);
        }
    }
    cover(1);
}

/// A default message has no bytes; absent fields decode to their defaults.
#[no_mangle]
pub extern "C" fn c04_default() {
    let empty: [u8; 0] = [];
    check(Flat::new().to_bytes().is_empty(), 30);
    check(Flat::deserialize(&mut Reader::new(&empty[..])).unwrap() == Flat::new(), 31);
    check(Foo::default() == Foo::new(), 32);
    check(Unit::new().to_bytes().is_empty(), 33);
    check(same(&Act::new().to_bytes(), &[0]), 34);
    check(Act::default() == Act::new_unit(), 35);
    check(Pair::<u8, Foo>::new().to_bytes().is_empty(), 36);
    let a = u8_();
    let mut f = Foo::new();
    f.0 = a;
    check(Foo::deserialize(&mut Reader::new(&f.to_bytes()[..])).unwrap().1 == 0, 37);
    cover(1);
}
