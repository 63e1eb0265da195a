//! C30: a snapshot and the log since then restore a state, even if the log was cut off at any byte; the restored
//! state can take over.
use crate::{common::*, gen::*, ops::*, sym::*, types::*};
use steit::{de::*, rt::*, ser::*, state::*, types::*};

/// Where the complete entries of a log end.
fn ends(log: &[u8]) -> Vec<usize> {
    let (mut i, mut out) = (0, vec![0]);
    while i < log.len() {
        let n = leb(log, &mut i) as usize;
        i += n;
        check(i <= log.len(), 1);
        out.push(i);
    }
    out
}

/// `n` changes of a state, a snapshot before any of them, a log that is lost from any byte on.
fn recover<S: State + PartialEq + Placed + Clone>(mut v: S, n: u32, step: impl Fn(&mut S)) {
    let (home, log) = logged();
    v.set_runtime(home);
    let mut bytes = Vec::new();
    let mut states = Vec::new();
    let at = choose(n) as usize;
    let (mut snapshot, mut start) = (Vec::new(), 0);
    for i in 0..n as usize {
        states.push((bytes.len(), decode::<S>(&v.to_bytes())));
        if i == at {
            snapshot = v.to_bytes();
            start = bytes.len();
        }
        step(&mut v);
        bytes.extend_from_slice(&take(&log));
    }
    states.push((bytes.len(), decode::<S>(&v.to_bytes())));

    let rest = &bytes[start..];
    let cut = choose(rest.len() as u32 + 1) as usize;
    let ends = ends(rest);
    let last = *ends.iter().filter(|e| **e <= cut).last().unwrap();

    let (there, heard) = logged();
    let mut new = S::with_runtime(there.clone());
    check(new.merge(&mut Reader::new(&snapshot[..])).is_ok(), 2);
    // Whatever is complete is applied, and the loss of the rest is noticed.
    check(new.replay(&mut Reader::new(&rest[..cut])).is_ok() == (last == cut), 3);
    for (end, state) in &states {
        if *end == start + last {
            check(new == *state, 4);
        }
    }
    let mut whole: S = decode(&snapshot);
    check(whole.replay(&mut Reader::new(&rest[..last])).is_ok(), 5);
    check(new == whole, 6);
    // Nothing that is replayed is logged again.
    check(take(&heard).is_empty(), 7);
    placed_at(&new, &there);

    if choose(2) == 0 {
        // What was lost turns up.
        check(new.replay(&mut Reader::new(&rest[last..])).is_ok(), 8);
        check(new == v, 9);
        check(take(&heard).is_empty(), 10);
    } else {
        // It takes over.
        step(&mut new);
        let b = take(&heard);
        check(whole.replay(&mut Reader::new(&b[..])).is_ok(), 11);
        check(whole == new, 12);
    }
    observe_bytes(rest);
    cover(1);
}

fn small_list_op<T: State>(l: &mut List<T>, item: impl Fn() -> T, with: impl Fn(Runtime) -> T, change: impl Fn(&mut T)) {
    match choose(2) {
        0 => list_op(l, item, with),
        _ => {
            if l.len() > 0 {
                change(&mut l[0]);
            }
        }
    }
}

harness! {
    c30_list => { recover(list(1 + deep(), t8), 2 + deep(), |l| list_op(l, t8, |_| t8())) }
    c30_list_point => { recover(list(1, thin_point), 2, |l| small_list_op(l, thin_point, Point::new, |p| { p.set_y(t16()); })) }
    c30_list_shape => { recover(list(2, thin_shape), 1 + deep(), |l| small_list_op(l, thin_shape, Shape::new_rect, shape_op)) }
    c30_map => { recover(map_u8(1, t8), 2 + deep(), |m| map_op(m, [2, 3][choose(2) as usize], t8, |_| t8())) }
    c30_map_shape => {
        recover(map_u16(1, thin_shape), 1 + deep(), |m| match choose(2) {
            0 => map_op(m, [0, 300][choose(2) as usize], thin_shape, Shape::new_rect),
            _ => map_item_op(m, [0, 300][choose(2) as usize], shape_op),
        })
    }
    c30_map_list => {
        recover(map_u8(1, || list(1, t8)), 1 + deep(), |m| match choose(2) {
            0 => map_op(m, 5, || list(1, t8), List::new),
            _ => map_item_op(m, 5, |l| list_op(l, t8, |_| t8())),
        })
    }
    c30_point => { recover(point(), 2 + deep(), point_op) }
    c30_shape => { recover(thin_shape(), 2, shape_op) }
    c30_maybe => { recover(maybe(thin_point), 2, |m| maybe_op(m, thin_point, point_with, point_op)) }
    c30_maybe_list => {
        recover(maybe(|| list(1, t8)), 1 + deep(), |m| maybe_op(m, || list(1, t8), List::new, |l| list_op(l, t8, |_| t8())))
    }
    c30_list_list => {
        recover(list(2, || list(1, t8)), 1 + deep(), |l| small_list_op(l, || list(1, t8), List::new, |l| list_op(l, t8, |_| t8())))
    }
    c30_world => { recover(World::new(rt()), 1, |w| world_op(w, choose(WORLD_OPS))) }
    c30_kind => { recover(thin_kind(), 1 + deep(), kind_op) }
    c30_far => { recover(far(), 1, |f| { f.set_a(u8_()); }) }
    c30_box => { recover(Box::new(thin_shape()), 1 + deep(), |s| shape_op(s)) }
    // A long log, cut off anywhere around some of its entries.
    c30_long => {
        let (home, log) = logged();
        let mut v = List::<Point>::new(home);
        let snapshot = v.to_bytes();
        let mut bytes = Vec::new();
        let mut states = vec![(0, decode::<List<Point>>(&snapshot))];
        for i in 0..140usize {
            match i % 4 {
                3 => { v.swap_remove(i / 5); }
                2 => { v[i / 4].set_x(i as u8); }
                _ => { v.push(Point::new(rt())); }
            }
            bytes.extend_from_slice(&take(&log));
            if i % 13 == 0 || i > 137 {
                states.push((bytes.len(), decode(&v.to_bytes())));
            }
        }
        let (end, state) = &states[choose(states.len() as u32) as usize];
        let cut = (*end + choose(3) as usize).min(bytes.len());
        let mut new: List<Point> = decode(&snapshot);
        let whole = ends(&bytes).contains(&cut);
        check(new.replay(&mut Reader::new(&bytes[..cut])).is_ok() == whole, 20);
        check(cut - end > 2 || ends(&bytes).iter().any(|e| *e > *end && *e <= cut) || new == *state, 21);
        let from = *ends(&bytes).iter().filter(|e| **e <= cut).last().unwrap();
        check(new.replay(&mut Reader::new(&bytes[from..])).is_ok(), 22);
        check(new == v, 23);
        cover(1);
    }
}
