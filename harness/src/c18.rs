//! C18: List, Map, Maybe and Bytes behave like the plain collections they stand for.
use crate::{gen::*, ops::*, sym::*, types::*};
use steit::{de::*, rt::*, ser::*, state::*, types::*};

/// A list against a vector, over a history.
fn lists<T: State + Clone + PartialEq>(len: u32, n: u32, item: impl Fn() -> T, change: impl Fn(&mut T, u8)) {
    let start = vec_of(len, &item);
    let mut l = List::from_iter(rt(), start.clone());
    let mut m: Vec<T> = start;
    for _ in 0..n {
        match choose(6) {
            0 => {
                let x = item();
                check(l.push(x.clone()) == m.len(), 1);
                m.push(x);
            }
            1 => {
                let x = item();
                check(l.push_with(|_| x.clone()) == m.len(), 2);
                m.push(x);
            }
            2 => check(l.pop() == m.pop(), 3),
            3 => {
                let i = choose(len + n + 1) as usize;
                let e = if i < m.len() { Some(m.swap_remove(i)) } else { None };
                check(l.swap_remove(i) == e, 4);
            }
            4 => {
                let (i, y) = (choose(len + 1) as usize, t8());
                match (l.get_mut(i), m.get_mut(i)) {
                    (Some(a), Some(b)) => {
                        change(a, y);
                        change(b, y);
                    }
                    (a, b) => check(a.is_none() && b.is_none(), 5),
                }
            }
            _ => {
                let y = t8();
                for x in l.iter_mut() {
                    change(x, y);
                }
                for x in m.iter_mut() {
                    change(x, y);
                }
            }
        }
        check(l.len() == m.len() && l.is_empty() == m.is_empty(), 6);
        for i in 0..m.len() {
            check(l[i] == m[i] && l.get(i) == Some(&m[i]), 7);
        }
        check(l.get(m.len()).is_none() && l.first() == m.first() && l.last() == m.last(), 8);
        let mut i = 0;
        for x in &l {
            check(*x == m[i], 9);
            i += 1;
        }
        check(i == m.len() && l.iter().count() == i, 10);
    }
    check(l == List::from_iter(rt(), m), 11);
    cover(1);
}
fn touch(p: &mut Point, y: u8) {
    p.set_x(y);
}
#[no_mangle]
pub extern "C" fn c18_list_u8() {
    lists(2, 3 + deep(), u8_, |x, y| *x = y)
}
#[no_mangle]
pub extern "C" fn c18_list_point() {
    lists(2, 3, thin_point, touch)
}
#[no_mangle]
pub extern "C" fn c18_list_shape() {
    lists(2, 2, thin_shape, |s, y| { s.set_rect_a(y); })
}
#[no_mangle]
pub extern "C" fn c18_list_maybe() {
    lists(1, 3, || maybe(t8), |m, y| { m.set_some_value(y); })
}
#[no_mangle]
pub extern "C" fn c18_list_list() {
    lists(1, 2, || list(1, t8), |l, y| { l.push(y); })
}
/// A map against an association list, over a history; the order is that of insertion, removal moves the last
/// entry into the gap.
fn maps<V: State + Clone + PartialEq>(len: u32, n: u32, key: impl Fn() -> u16, item: impl Fn() -> V, change: impl Fn(&mut V, u8)) {
    let mut m: Vec<(u16, V)> = Vec::new();
    let put = |m: &mut Vec<(u16, V)>, k: u16, v: V| match m.iter_mut().find(|x| x.0 == k) {
        Some(x) => Some(std::mem::replace(&mut x.1, v)),
        None => {
            m.push((k, v));
            None
        }
    };
    let start: Vec<(u16, V)> = (0..choose(len + 1)).map(|_| (key(), item())).collect();
    for (k, v) in &start {
        put(&mut m, *k, v.clone());
    }
    let mut map = Map::from_iter(rt(), start);
    for _ in 0..n {
        let k = key();
        match choose(6) {
            0 => {
                let v = item();
                check(map.insert(k, v.clone()) == put(&mut m, k, v), 20);
            }
            1 => {
                let v = item();
                check(map.insert_with(k, |_| v.clone()) == put(&mut m, k, v), 21);
            }
            2 => {
                let i = m.iter().position(|x| x.0 == k);
                check(map.remove(&k) == i.map(|i| m.swap_remove(i).1), 22);
            }
            3 => {
                let y = t8();
                match (map.get_mut(&k), m.iter_mut().find(|x| x.0 == k)) {
                    (Some(a), Some(b)) => {
                        change(a, y);
                        change(&mut b.1, y);
                    }
                    (a, b) => check(a.is_none() && b.is_none(), 23),
                }
            }
            4 => {
                let y = t8();
                for (_, v) in map.iter_mut() {
                    change(v, y);
                }
                for (_, v) in m.iter_mut() {
                    change(v, y);
                }
            }
            _ => {
                if let Some(x) = m.iter_mut().find(|x| x.0 == k) {
                    let y = t8();
                    change(&mut map[&k], y);
                    change(&mut x.1, y);
                }
            }
        }
        check(map.len() == m.len(), 24);
        let p = key();
        let e = m.iter().find(|x| x.0 == p).map(|x| &x.1);
        check(map.get(&p) == e && map.contains(&p) == e.is_some(), 25);
        if let Some(e) = e {
            check(map[&p] == *e, 26);
        }
        let mut i = 0;
        for (k, v) in &map {
            check(k == m[i].0 && *v == m[i].1, 27);
            i += 1;
        }
        check(i == m.len(), 28);
    }
    check(map == Map::from_iter(rt(), m), 29);
    cover(1);
}
#[no_mangle]
pub extern "C" fn c18_map_u8() {
    maps(1, 2, u16_, u8_, |x, y| *x = y)
}
#[no_mangle]
pub extern "C" fn c18_map_few() {
    maps(2, 2 + deep(), || choose(2) as u16, t8, |x, y| *x = y)
}
#[no_mangle]
pub extern "C" fn c18_map_three() {
    // Three keys, so that removal reorders.
    let ks: Vec<u16> = vec![u16_(), u16_(), u16_()];
    assume(ks[0] != ks[1] && ks[1] != ks[2] && ks[0] != ks[2]);
    let mut map = Map::from_iter(rt(), ks.iter().map(|k| (*k, t8())).collect::<Vec<_>>());
    let i = choose(3) as usize;
    map.remove(&ks[i]);
    let mut e = ks.clone();
    e.swap_remove(i);
    let mut n = 0;
    for (k, _) in map.iter() {
        check(k == e[n], 30);
        n += 1;
    }
    check(n == 2, 31);
    cover(1);
}
#[no_mangle]
pub extern "C" fn c18_map_point() {
    maps(1, 2, || t8() as u16, thin_point, touch)
}
#[no_mangle]
pub extern "C" fn c18_map_maybe() {
    maps(1, 2, || choose(2) as u16, || maybe(t8), |m, y| { m.set_some_value(y); })
}
/// Keys of each type keep their value.
#[no_mangle]
pub extern "C" fn c18_keys() {
    let (a, b, c) = (u8_(), u16_(), u32_());
    check(a.as_field_number() == a as u32 && b.as_field_number() == b as u32 && c.as_field_number() == c, 40);
    check(u8::try_from_field_number(c).ok() == if c < 256 { Some(c as u8) } else { None }, 41);
    check(u16::try_from_field_number(c).ok() == if c < 65536 { Some(c as u16) } else { None }, 42);
    check(u32::try_from_field_number(c).ok() == Some(c), 43);
    cover(1);
}
#[no_mangle]
pub extern "C" fn c18_maybe() {
    let o = opt(u8_);
    let m = Maybe::from_option(rt(), o);
    check(m.is_some() == o.is_some() && m.is_none() == o.is_none() && m.to_option() == o && m == o, 50);
    check(Maybe::<u8>::new(rt()).is_none() && Maybe::<u8>::default() == None, 51);
    let p = opt(u8_);
    check((m == p) == (o == p), 52);
    let x = u8_();
    let mut n = m.clone();
    n.set_some_value(x);
    check(n.to_option() == Some(x) && m.to_option() == o, 53);
    n.set_some_value_with(|_| x ^ 1);
    check(n == Some(x ^ 1), 54);
    cover(1);
}
#[no_mangle]
pub extern "C" fn c18_bytes() {
    let b = any(4);
    let v = Bytes::from_raw(b.clone());
    check(same(&v.clone().into_raw(), &b), 60);
    check(same(&v.to_bytes(), &b) && v.compute_size() as usize == b.len(), 61);
    check(Bytes::default().into_raw().is_empty(), 62);
    cover(1);
}
fn from_value<T: Serialize + Deserialize + PartialEq>(v: T) {
    let b = Bytes::from_value(&v);
    check(same(&b.clone().into_raw(), &v.to_bytes()), 63);
    check(decode::<T>(&b.into_raw()) == v, 64);
    cover(1);
}
#[no_mangle]
pub extern "C" fn c18_from_value_foo() { from_value(foo()) }
#[no_mangle]
pub extern "C" fn c18_from_value_i64() { from_value(i64_()) }
#[no_mangle]
pub extern "C" fn c18_from_value_list() { from_value(list(2, thin_shape)) }
#[no_mangle]
pub extern "C" fn c18_from_value_string() { from_value(string(2)) }
/// Fresh values are empty.
#[no_mangle]
pub extern "C" fn c18_new() {
    let path = rt().nested(u32_());
    let l: List<Point> = List::new(path.clone());
    let m: Map<u16, Point> = Map::new(path.clone());
    check(l.is_empty() && m.len() == 0 && l.to_bytes().is_empty() && m.to_bytes().is_empty(), 70);
    check(List::<u8>::default().is_empty() && Map::<u8, u8>::default().len() == 0, 71);
    let w = World::new(path);
    check(w.id == 0 && w.at.x == 0 && w.at.y == 0 && w.pts.is_empty() && w.map.len() == 0 && w.opt.is_none(), 72);
    check(w.boxed.x == 0 && w.nums.is_empty() && w.note.is_empty() && matches!(w.shape, Shape::Empty { .. }), 73);
    check(w == World::default(), 74);
    // The default of an enum is its variant number 0, whatever holds it.
    check(matches!(Act::default(), Act::Unit { .. }) && matches!(Act::new(), Act::Unit { .. }), 75);
    check(matches!(Shape::with_runtime(rt()), Shape::Empty { .. }), 76);
    cover(1);
}
/// Setters return the message, set that field and no other.
#[no_mangle]
pub extern "C" fn c18_setters() {
    let mut v = Numbers::new(rt());
    let (a, b, c, d, e, f, g) = (u32_(), i32_(), u64_(), i64_(), bool_(), u16_(), i8_());
    let part = choose(8);
    match part {
        0 => { v.set_a(a); }
        1 => { v.set_b(b); }
        2 => { v.set_c(c); }
        3 => { v.set_d(d); }
        4 => { v.set_e(e); }
        5 => { v.set_f(f); }
        6 => { v.set_g(g); }
        _ => { v.set_a(a).set_b(b).set_c(c).set_d(d).set_e(e).set_f(f).set_g(g); }
    }
    let on = |i: u32| part == i || part == 7;
    check(v.a == if on(0) { a } else { 0 } && v.b == if on(1) { b } else { 0 }, 80);
    check(v.c == if on(2) { c } else { 0 } && v.d == if on(3) { d } else { 0 }, 81);
    check(v.e == (on(4) && e) && v.f == if on(5) { f } else { 0 } && v.g == if on(6) { g } else { 0 }, 82);
    cover(1);
}
/// Setting a field of a variant makes the value that variant; the other fields are kept if it was before.
#[no_mangle]
pub extern "C" fn c18_variants() {
    let mut s = thin_shape();
    let was = match &s {
        Shape::Rect { a, p, .. } => Some((*a, p.clone())),
        _ => None,
    };
    let (x, p) = (u8_(), small_point());
    match choose(3) {
        0 => {
            s.set_circle_f0(x);
            check(matches!(s, Shape::Circle(y, ..) if y == x), 83);
        }
        1 => {
            s.set_rect_a(x);
            let q = was.map_or(Point::new(rt()), |w| w.1);
            check(matches!(&s, Shape::Rect { a, p, .. } if *a == x && *p == q), 84);
        }
        _ => {
            s.set_rect_p(p.clone());
            let y = was.map_or(0, |w| w.0);
            check(matches!(&s, Shape::Rect { a, p: q, .. } if *a == y && *q == p), 85);
        }
    }
    cover(1);
}
#[no_mangle]
pub extern "C" fn c18_msg_setters() {
    let mut a = Choice::new_tuple();
    let (x, f, v) = (u16_(), foo(), vec_of(2, u8_));
    a.set_named_x(x).set_named_v(v.clone());
    check(matches!(&a, Choice::Named { x: y, v: w, .. } if *y == x && *w == v), 86);
    a.set_tuple_f1(f.clone());
    check(matches!(&a, Choice::Tuple(0, g, ..) if *g == f), 87);
    let mut m = Settable::new();
    m.set_nums(vec![x]).set_one(a.clone()).set_opt(Some(f.clone()));
    check(m.nums == vec![x] && m.one == a && m.opt == Some(f) && m.name.is_empty(), 88);
    check(decode::<Settable>(&m.to_bytes()) == m, 89);
    check(matches!(Choice::new(), Choice::Named { x: 0, .. }), 90);
    cover(1);
}
/// Long lists and maps.
#[no_mangle]
pub extern "C" fn c18_many() {
    let mut l = many_u8();
    let mut m: Vec<u8> = l.iter().copied().collect();
    let i = [0, 127, 128, 255, 256, 300][choose(6) as usize];
    for _ in 0..2 {
        match choose(3) {
            0 => check(l.swap_remove(i) == if i < m.len() { Some(m.swap_remove(i)) } else { None }, 60),
            1 => check(l.pop() == m.pop(), 61),
            _ => { let x = u8_(); check(l.push(x) == m.len(), 62); m.push(x); }
        }
    }
    check(l.len() == m.len() && l.iter().count() == m.len(), 63);
    let got: Vec<u8> = l.iter().copied().collect();
    check(same(&got, &m), 64);
    for i in [0, 126, 127, 128, 254, 255, 256, 257, 16383].iter() {
        check(l.get(*i) == m.get(*i), 65);
    }
    cover(1);
}
#[no_mangle]
pub extern "C" fn c18_many_map() {
    let mut m: Map<u16, u8> = Map::new(rt());
    let n = 70 + choose(2) as u16 * 60;
    for i in 0..n {
        check(m.insert(i * 131, i as u8).is_none(), 66);
    }
    let k = [0, 131, 64 * 131, 69 * 131, 7][choose(5) as usize];
    let had = k != 7;
    if choose(2) == 0 {
        check(m.remove(&k).is_some() == had, 67);
        check(m.len() as u16 == n - had as u16, 68);
        check(m.get(&k).is_none() && m.iter().count() as u16 == n - had as u16, 69);
        let rest: usize = m.iter().filter(|(x, v)| **v == (*x / 131) as u8).count();
        check(rest == m.len(), 70);
    } else {
        let x = u8_();
        check(m.insert(k, x).is_some() == had, 71);
        check(m.get(&k) == Some(&x), 72);
        check(m.len() as u16 == n + !had as u16, 73);
    }
    cover(1);
}
