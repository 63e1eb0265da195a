//! C26: loggers hand over what was logged, in order, once.
use crate::{common::*, gen::*, ops::*, sym::*, types::*};
use std::{io::{self, ErrorKind, Write}, sync::{Arc, Mutex}};
use steit::{de::*, log::{loggers::*, *}, rt::*, ser::*, state::*, types::*};

fn bytes_of(e: &LogEntry) -> Vec<u8> {
    // Of a copy: the sizes cached in the entry itself are the logger's business.
    let e = e.clone();
    let mut b = Vec::new();
    e.cache_size();
    e.serialize_nested(None, false, &mut b).unwrap();
    b
}

/// Some entry, with a number to know it by.
fn some() -> LogEntry {
    let k = u8_();
    assume(k > 0 && k < 128);
    rt().entry_map_remove(k as u32)
}

fn same_entries(got: &[LogEntry], want: &[Vec<u8>]) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(g, w)| same(&bytes_of(g), w))
}

fn all(want: &[Vec<u8>]) -> Vec<u8> {
    let mut b = Vec::new();
    for w in want {
        b.extend_from_slice(w);
    }
    b
}

/// Any history over the buffer.
fn buffer(n: u32) {
    let mut l = BufferLogger::new();
    let mut want: Vec<Vec<u8>> = Vec::new();
    for _ in 0..n {
        match choose(6) {
            0 => { let e = some(); want.push(bytes_of(&e)); check(l.log(e).is_ok(), 1); }
            1 => { let (a, b) = (some(), some()); want.push(bytes_of(&a)); want.push(bytes_of(&b)); check(l.log_multi(vec![a, b]).is_ok(), 2); }
            2 => check(same(&l.bytes(), &all(&want)), 3),
            3 => { check(same_entries(&l.pluck(), &want), 4); want.clear(); }
            4 => { check(same(&l.pluck_bytes(), &all(&want)), 5); want.clear(); }
            _ => { l.clear(); want.clear(); }
        }
    }
    check(same(&l.bytes(), &all(&want)), 6);
    check(same_entries(&l.pluck(), &want), 7);
    check(l.bytes().is_empty() && l.pluck().is_empty(), 8);
    cover(1);
}

/// The same through a runtime, with pauses and an exchange of the logger.
fn runtime(n: u32) {
    let (rt, log) = logged();
    let mut want: Vec<Vec<u8>> = Vec::new();
    let mut paused = 0u32;
    for _ in 0..n {
        match choose(6) {
            0 => { let e = some(); if paused == 0 { want.push(bytes_of(&e)); } check(rt.log(e).is_ok(), 10); }
            1 => { let (a, b) = (some(), some()); if paused == 0 { want.push(bytes_of(&a)); want.push(bytes_of(&b)); } check(rt.log_multi(vec![a, b]).is_ok(), 11); }
            2 => { paused += 1; check(log.lock().unwrap().pause() == paused, 12); }
            3 => { if paused > 0 { paused -= 1; } check(rt.unpause_logger() == paused, 13); }
            4 => { check(same(&take(&log), &all(&want)), 14); want.clear(); }
            _ => { log.lock().unwrap().replace(BufferLogger::new()); want.clear(); }
        }
    }
    check(same_entries(&log.lock().unwrap().pluck(), &want), 15);
    cover(1);
}

/// Records what it gets, and refuses the entry number `fail`.
struct Recorder {
    got: Arc<Mutex<Vec<Vec<u8>>>>,
    fail: u32,
    kind: ErrorKind,
}

impl Logger for Recorder {
    fn log(&mut self, e: LogEntry) -> io::Result<()> {
        if self.fail == 0 {
            self.fail = 99;
            return Err(self.kind.into());
        }
        self.fail -= 1;
        self.got.lock().unwrap().push(bytes_of(&e));
        Ok(())
    }
}

fn recorder() -> (Recorder, Arc<Mutex<Vec<Vec<u8>>>>) {
    let got = Arc::new(Mutex::new(Vec::new()));
    let kind = [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::Interrupted][choose(3) as usize];
    (Recorder { got: got.clone(), fail: choose(4), kind }, got)
}

/// Entries reach a logger until it refuses one; its error comes back, and logging goes on afterwards.
fn refused(mut log: impl FnMut(Vec<LogEntry>) -> io::Result<()>, fail: u32, kind: ErrorKind, got: Arc<Mutex<Vec<Vec<u8>>>>) {
    let e = [some(), some(), some()];
    let want: Vec<_> = e.iter().map(bytes_of).collect();
    let n = choose(4) as usize;
    let r = log(e[..n].to_vec());
    if (fail as usize) < n {
        check(r.is_err(), 20);
        check(r.err().unwrap().kind() == kind, 21);
        check(got.lock().unwrap().len() == fail as usize, 22);
        cover(2);
    } else {
        check(r.is_ok(), 23);
        check(got.lock().unwrap().len() == n, 24);
    }
    let g = got.lock().unwrap();
    for (g, w) in g.iter().zip(&want) {
        check(same(g, w), 25);
    }
    cover(1);
}

/// Accepts `room` bytes, then fails.
struct Sink {
    out: Arc<Mutex<Vec<u8>>>,
    room: usize,
    kind: ErrorKind,
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.room);
        if n == 0 && !b.is_empty() {
            return Err(self.kind.into());
        }
        self.room -= n;
        self.out.lock().unwrap().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// The numbers in the list at the end of a line.
fn listed(line: &[u8]) -> Vec<u8> {
    let open = line.iter().rposition(|b| *b == b'[');
    check(open.is_some(), 40);
    let mut out = Vec::new();
    let mut n: Option<u32> = None;
    for b in &line[open.unwrap() + 1..] {
        match *b {
            b'0'..=b'9' => n = Some(n.unwrap_or(0) * 10 + (*b - b'0') as u32),
            b',' | b']' => {
                if let Some(x) = n.take() {
                    check(x < 256, 41);
                    out.push(x as u8);
                }
            }
            b => check(b == b' ', 42),
        }
    }
    check(line[line.len() - 1] == b']', 43);
    out
}

harness! {
    c26_buffer => { buffer(4 + deep()) }
    c26_runtime => { runtime(4 + deep()) }

    // Entries of any kind at few places: what is alike is not the same.
    c26_alike => {
        let (rt, log) = logged();
        let (near, far) = (rt.nested(3), rt.nested(1).nested(200));
        let mut want: Vec<Vec<u8>> = Vec::new();
        for _ in 0..2 + deep() {
            let place = [&rt, &near, &far][choose(3) as usize];
            let e = match choose(5) {
                0 => place.entry_update(&u8_()),
                1 => place.entry_update(&vec![u8_(), 1]),
                2 => place.entry_list_push(&u8_()),
                3 => place.entry_list_pop(),
                _ => place.entry_map_remove(u32_()),
            };
            let twice = choose(2) == 1;
            for _ in 0..1 + twice as u32 {
                want.push(bytes_of(&e));
                check(place.log(e.clone()).is_ok(), 16);
            }
        }
        let mut l = log.lock().unwrap();
        check(same(&l.bytes(), &all(&want)), 17);
        check(same_entries(&l.pluck(), &want), 18);
        cover(1);
    }
    // Many entries at once, and more after them.
    c26_many => {
        let n = [63, 64, 65, 127, 129, 200, 1025][choose(7) as usize];
        let mut l = BufferLogger::new();
        let first = some();
        let filler = rt().entry_list_pop();
        let (last, after) = (some(), some());
        check(l.log(first.clone()).is_ok(), 50);
        if choose(2) == 0 {
            for _ in 0..n - 2 {
                check(l.log(filler.clone()).is_ok(), 51);
            }
        } else {
            check(l.log_multi(vec![filler.clone(); n - 2]).is_ok(), 52);
        }
        check(l.log(last.clone()).is_ok(), 53);
        let f = bytes_of(&filler);
        let mut whole = bytes_of(&first);
        for _ in 0..n - 2 {
            whole.extend_from_slice(&f);
        }
        whole.extend_from_slice(&bytes_of(&last));
        check(same(&l.bytes(), &whole), 54);
        if choose(2) == 0 {
            check(same(&l.pluck_bytes(), &whole), 55);
        } else {
            let got = l.pluck();
            check(got.len() == n, 56);
            check(same(&bytes_of(&got[0]), &bytes_of(&first)) && same(&bytes_of(&got[n - 1]), &bytes_of(&last)), 57);
            check(got[1..n - 1].iter().all(|e| same(&bytes_of(e), &f)), 58);
        }
        check(l.bytes().is_empty() && l.log(after.clone()).is_ok(), 59);
        check(same_entries(&l.pluck(), &[bytes_of(&after)]), 60);
        cover(1);
    }
    c26_refused => { let (r, got) = recorder(); let (f, k) = (r.fail, r.kind); let mut r = r; refused(|e| r.log_multi(e), f, k, got) }
    c26_refused_one => { let (r, got) = recorder(); let (f, k) = (r.fail, r.kind); let mut r = r; refused(|e| { for e in e { r.log(e)?; } Ok(()) }, f, k, got) }
    c26_refused_box => { let (r, got) = recorder(); let (f, k) = (r.fail, r.kind); let mut r: Box<dyn Logger> = Box::new(r); refused(|e| if choose(2) == 0 { r.log_multi(e) } else { for e in e { r.log(e)?; } Ok(()) }, f, k, got) }
    c26_refused_runtime => { let (r, got) = recorder(); let (f, k) = (r.fail, r.kind); let rt = Runtime::with_logger(r); refused(|e| rt.nested(1).log_multi(e), f, k, got) }
    c26_refused_boxed_runtime => { let (r, got) = recorder(); let (f, k) = (r.fail, r.kind); let b: Box<dyn Logger> = Box::new(r); let (rt, _l) = Runtime::with_logger_returned(b); refused(|e| { for e in e { rt.log(e)?; } Ok(()) }, f, k, got) }
    // Each way to log reports the error.
    c26_refused_ways => {
        let (mut r, got) = recorder();
        r.fail = 0;
        let kind = r.kind;
        let rt = Runtime::with_logger(r);
        let x = match choose(6) {
            0 => rt.log_update(&u8_()),
            1 => rt.log_update_child(u32_(), &u8_()),
            2 => rt.log_list_push(&u8_()),
            3 => rt.log_list_pop(),
            4 => rt.log_map_remove(u32_()),
            _ => rt.log_multi(vec![some()]),
        };
        check(x.is_err() && x.err().unwrap().kind() == kind, 30);
        check(got.lock().unwrap().is_empty(), 31);
        check(rt.log_list_pop().is_ok() && got.lock().unwrap().len() == 1, 32);
        cover(1);
    }
    // While paused nothing reaches the logger, not even to be refused.
    c26_paused => {
        let (mut r, got) = recorder();
        r.fail = 0;
        let rt = Runtime::with_logger(r);
        rt.pause_logger();
        check(rt.log(some()).is_ok() && rt.log_multi(vec![some(), some()]).is_ok() && rt.log_list_push(&u8_()).is_ok(), 33);
        rt.unpause_logger();
        check(got.lock().unwrap().is_empty() && rt.log(some()).is_err(), 34);
        cover(1);
    }
    c26_replaced => {
        let (r, got) = recorder();
        let mut r = r;
        r.fail = 99;
        let b: Box<dyn Logger> = Box::new(r);
        let (rt, log) = Runtime::with_logger_returned(b);
        let (x, y) = (some(), some());
        let (bx, by) = (bytes_of(&x), bytes_of(&y));
        rt.log(x).unwrap();
        let paused = choose(2);
        for _ in 0..paused {
            rt.pause_logger();
        }
        let other = Arc::new(Mutex::new(Vec::new()));
        log.lock().unwrap().replace(Box::new(Recorder { got: other.clone(), fail: 99, kind: ErrorKind::Other }));
        rt.log(y).unwrap();
        check(got.lock().unwrap().len() == 1 && same(&got.lock().unwrap()[0], &bx), 35);
        let o = other.lock().unwrap();
        check(o.len() as u32 == 1 - paused, 36);
        check(paused == 1 || same(&o[0], &by), 37);
        cover(1);
    }
    c26_noop => { let mut l = NoopLogger::new(); check(l.log(some()).is_ok() && l.log_multi(vec![some(), some()]).is_ok(), 38); cover(1) }

    // The writer gets a line with the bytes of each entry, and its errors are reported.
    c26_writer => {
        let out = Arc::new(Mutex::new(Vec::new()));
        let mut l = WriterLogger::new(Sink { out: out.clone(), room: 1 << 20, kind: ErrorKind::Other });
        for _ in 0..1 + choose(2) {
            let e = match choose(3) { 0 => rt().entry_list_pop(), 1 => rt().nested(7).entry_map_remove(u8_() as u32), _ => rt().entry_update(&u8_()) };
            let want = bytes_of(&e);
            out.lock().unwrap().clear();
            check(l.log(e).is_ok(), 44);
            let o = out.lock().unwrap();
            check(!o.is_empty() && o[o.len() - 1] == b'\n', 45);
            check(same(&listed(&o[..o.len() - 1]), &want), 46);
        }
        cover(1);
    }
    c26_writer_fails => {
        let out = Arc::new(Mutex::new(Vec::new()));
        let kind = [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock][choose(3) as usize];
        let room = choose(60) as usize;
        let l = WriterLogger::new(Sink { out: out.clone(), room, kind });
        let rt = Runtime::with_logger(l);
        let r = rt.log_list_pop();
        check(r.is_err(), 47);
        check(r.err().unwrap().kind() == kind, 48);
        check(out.lock().unwrap().len() == room, 49);
        cover(1);
    }
}
