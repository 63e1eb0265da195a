//! C25: runtimes derived from one another are the paths they should be, and share one logger.
use crate::{common::*, gen::*, ops::*, sym::*, types::*};
use std::sync::Arc;
use steit::{log::{loggers::*, *}, rt::*, state::*, types::*};

fn is(rt: &Runtime, path: &[u32]) {
    place(rt, path);
    check(rt.is_child() != rt.is_root(), 1);
    if let Some(last) = path.last() {
        check(rt.field_number() == *last, 2);
    }
    // The nodes from here to the root.
    let mut node = rt.path().clone();
    for n in path.iter().rev() {
        check(node.get_value() == Some(n) && *node.value() == *n, 3);
        let up = node.get_parent();
        check(up.is_some(), 4);
        let up = up.unwrap();
        check(Arc::ptr_eq(&up, &node.parent()), 5);
        node = up;
    }
    check(node.get_value().is_none() && node.get_parent().is_none(), 6);
}

/// Any walk; nobody on the way changes.
fn walk_(n: u32) {
    let (root, _log) = logged();
    let home = logger_of(&root);
    let mut seen: Vec<(Runtime, Vec<u32>)> = vec![(root, vec![])];
    for _ in 0..n {
        let (rt, path) = seen[choose(seen.len() as u32) as usize].clone();
        let mut p = path;
        let next = match choose(if p.is_empty() { 2 } else { 4 }) {
            0 => { let f = u32_(); p.push(f); rt.nested(f) }
            1 => rt.clone(),
            2 => { p.pop(); rt.parent() }
            _ => { let f = u32_(); p.pop(); p.push(f); rt.sibling(f) }
        };
        seen.push((next, p));
    }
    for (rt, path) in &seen {
        is(rt, path);
        check(logger_of(rt) == home, 7);
    }
    // They outlive the ones they came from.
    let (last, path) = seen.pop().unwrap();
    drop(seen);
    is(&last, &path);
    cover(1);
}

/// Whatever is derived from one runtime logs to the same place, in order, with its path.
fn share(n: u32) {
    let (root, log) = logged();
    let a = root.nested(u32_());
    let b = a.nested(u32_()).sibling(u32_());
    let c = b.parent().parent();
    let all = [root, a, b, c];
    let mut want: Vec<(Vec<u32>, u32)> = Vec::new();
    let mut paused = 0;
    for _ in 0..n {
        let rt = &all[choose(4) as usize];
        match choose(3) {
            0 => { let k = u32_(); rt.log_map_remove(k).unwrap(); if paused == 0 { want.push((rt.path().collect_values(), k)); } }
            1 => { paused += 1; check(rt.pause_logger() == paused, 10); }
            _ => { if paused > 0 { paused -= 1; } check(rt.unpause_logger() == paused, 11); }
        }
    }
    let got = log.lock().unwrap().pluck();
    check(got.len() == want.len(), 12);
    for (e, (p, k)) in got.iter().zip(&want) {
        match e {
            LogEntry::MapRemove { path, key, .. } => check(*key == *k && path == p, 13),
            _ => check(false, 14),
        }
    }
    cover(1);
}

/// Nodes of any kind of value.
fn node<T: Copy + PartialEq>(f: impl Fn() -> T) {
    let root: Arc<Node<T>> = Arc::new(Node::Root);
    let (a, b, c) = (f(), f(), f());
    let x = Arc::new(Node::child(&root, a));
    let y = Arc::new(Node::child(&x, b));
    let z = Node::child(&y.parent(), c);
    check(root.collect_values().is_empty(), 20);
    check(x.collect_values() == [a], 21);
    check(y.collect_values() == [a, b], 22);
    check(z.collect_values() == [a, c], 23);
    check(*z.value() == c && *z.parent().value() == a && z.parent().parent().get_value().is_none(), 24);
    drop((root, x, y));
    check(z.collect_values() == [a, c], 25);
    cover(1);
}

harness! {
    c25_walk => { walk_(5 + deep()) }
    c25_share => { share(4 + deep()) }
    c25_node_u8 => { node(u8_) }
    c25_node_u64 => { node(u64_) }
    c25_node_bool => { node(bool_) }
    c25_long => {
        let f = u32_();
        let mut r = rt();
        let mut p = Vec::new();
        let n = [40, 127, 200][choose(3) as usize];
        for i in 0..n {
            let x = if i == 20 { f } else { i };
            r = r.nested(x);
            p.push(x);
        }
        is(&r, &p);
        for _ in 0..choose(30) {
            r = r.parent();
            p.pop();
        }
        is(&r, &p);
        cover(1);
    }
    // Runtimes with loggers of their own have nothing to do with each other.
    c25_apart => {
        let (a, la) = logged();
        let (b, lb) = logged();
        let (f, g) = (u32_(), u32_());
        let (x, y) = (a.nested(f), b.nested(g));
        a.pause_logger();
        y.log_map_remove(1).unwrap();
        x.log_map_remove(2).unwrap();
        a.unpause_logger();
        check(la.lock().unwrap().pluck().is_empty() && lb.lock().unwrap().pluck().len() == 1, 30);
        x.log_map_remove(3).unwrap();
        check(la.lock().unwrap().pluck().len() == 1 && lb.lock().unwrap().pluck().is_empty(), 31);
        check(logger_of(&a) == logger_of(&x) && logger_of(&b) == logger_of(&y) && logger_of(&a) != logger_of(&b), 32);
        // Where a value is does not make a difference to what it is.
        check(a == y, 33);
        cover(1);
    }
    // A state goes where its runtime is.
    c25_states => {
        let base: Vec<u32> = (0..choose(3)).map(|_| u32_()).collect();
        let mut r = rt();
        for f in &base {
            r = r.nested(*f);
        }
        let mut w = World::new(r.clone());
        w.pts.push(thin_point());
        let before = r.path().collect_values();
        placed_at(&w, &r);
        let next = r.nested(u32_());
        w.set_runtime(next.clone());
        placed_at(&w, &next);
        check(r.path().collect_values() == before && before == base, 34);
        is(&r, &base);
        check(w.is_child() && !w.is_root(), 35);
        cover(1);
    }
}
