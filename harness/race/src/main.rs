//! Two detections in a fresh process under a schedule of their I/O and synchronisation operations.
use ffmc::doc::{Doc, EnvReader, Plan};
use ffmc::history::DOCS;
use ffmc::model;
use ffmc::run::{guarded, silent_panics};
use std::io::{self, Read, Seek, SeekFrom};
use std::sync::{Condvar, Mutex};

struct State {
    /// Runs of (thread, operations).
    segs: Vec<(usize, usize)>,
    cur: usize,
    done: [bool; 2],
    /// The operations of each thread: synchronisation or not.
    ops: [Vec<bool>; 2],
    /// Operations since another thread had its turn; vain waits since the last operation.
    alone: u64,
    stuck: u64,
    total: u64,
}
struct Sched {
    m: Mutex<State>,
    cv: Condvar,
}
impl State {
    fn next(&mut self) {
        loop {
            self.cur += 1;
            self.alone = 0;
            match self.segs.get(self.cur) {
                None => {
                    let t = self.done.iter().position(|d| !d).unwrap_or(usize::MAX);
                    self.segs.push((t, usize::MAX));
                    return;
                }
                Some(s) if s.0 > 1 || !self.done[s.0] => return,
                _ => {}
            }
        }
    }
    /// The other thread has its turn for one operation, if it can, and then this one again.
    fn give(&mut self, t: usize) {
        if self.done[1 - t] {
            return;
        }
        let rest = self.segs[self.cur].1;
        let at = self.cur + 1;
        self.segs.splice(at..at, [(1 - t, 1), (t, rest)]);
        self.next();
    }
}
impl Sched {
    fn start(&self, t: usize) {
        let mut s = self.m.lock().unwrap();
        while s.segs[s.cur].0 != t {
            s = self.cv.wait(s).unwrap();
        }
    }
    fn operation(&self, t: usize, sync: bool) {
        let mut s = self.m.lock().unwrap();
        s.ops[t].push(sync);
        s.alone += 1;
        s.total += 1;
        s.stuck = 0;
        if s.total > 20_000_000 {
            fail("the threads never end");
        }
        let c = s.cur;
        if s.segs[c].1 == 0 {
            s.next();
        } else {
            s.segs[c].1 -= 1;
            if s.alone > 20_000 {
                // Perhaps it waits for the other one.
                s.give(t);
            }
        }
        if s.segs[s.cur].0 != t {
            self.cv.notify_all();
            while s.segs[s.cur].0 != t {
                s = self.cv.wait(s).unwrap();
            }
        }
    }
    fn finish(&self, t: usize) {
        let mut s = self.m.lock().unwrap();
        s.done[t] = true;
        s.stuck = 0;
        s.next();
        self.cv.notify_all();
    }
}
impl ffmc_sync::Scheduler for Sched {
    fn point(&self, t: usize) {
        self.operation(t, true);
    }
    fn blocked(&self, t: usize) {
        let mut s = self.m.lock().unwrap();
        s.stuck += 1;
        if s.stuck > 10_000 {
            fail("the threads wait for each other for ever");
        }
        s.give(t);
        if s.segs[s.cur].0 != t {
            self.cv.notify_all();
            while s.segs[s.cur].0 != t {
                s = self.cv.wait(s).unwrap();
            }
        }
    }
}

struct Stepped<'a> {
    r: EnvReader<'a>,
    s: &'static Sched,
    t: usize,
}
impl Read for Stepped<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.s.operation(self.t, false);
        self.r.read(b)
    }
}
impl Seek for Stepped<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.s.operation(self.t, false);
        self.r.seek(p)
    }
}

fn fail(s: &str) -> ! {
    println!("{s}");
    std::process::exit(3)
}
fn bytes(d: usize) -> u16 {
    ff::FileFormat::from_bytes(&DOCS[d]) as u16
}
fn want(d: usize) -> u16 {
    model::detect(&DOCS[d].clone().into(), model::ALL) as u16
}
fn judge(what: &str, d: usize, got: u16) {
    if got != want(d) {
        fail(&format!("{what}: document {d} is {}, must be {}", ffmc::subject::name(got), ffmc::subject::name(want(d))));
    }
}

/// Performs the detections of documents a and b in two threads; the operations of each.
fn race(slices: bool, a: usize, b: usize, segs: Vec<(usize, usize)>) -> [Vec<bool>; 2] {
    let state = State { segs, cur: 0, done: [false; 2], ops: [vec![], vec![]], alone: 0, stuck: 0, total: 0 };
    let s: &'static Sched = Box::leak(Box::new(Sched { m: Mutex::new(state), cv: Condvar::new() }));
    let docs: [Doc; 2] = [DOCS[a].clone().into(), DOCS[b].clone().into()];
    let run = |t: usize| {
        let plan = Plan::default();
        s.start(t);
        ffmc_sync::enter(s, t);
        let mut r = Stepped { r: EnvReader::new(&docs[t], &plan), s, t };
        let g = guarded(|| if slices { Ok(bytes([a, b][t])) } else { ff::FileFormat::from_reader(&mut r).map(|f| f as u16) });
        ffmc_sync::leave();
        s.finish(t);
        g
    };
    let res = std::thread::scope(|sc| {
        let h = sc.spawn(|| run(1));
        [run(0), h.join().unwrap()]
    });
    for (t, r) in res.into_iter().enumerate() {
        match r {
            Ok(Ok(g)) => judge(&format!("thread {t}"), [a, b][t], g),
            Ok(Err(e)) => fail(&format!("thread {t}: {e}")),
            Err(e) => fail(&format!("thread {t}: {e}")),
        }
    }
    std::mem::take(&mut s.m.lock().unwrap().ops)
}

fn main() {
    silent_panics();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let n = |i: usize| args[i].parse::<usize>().unwrap();
    match args[0].as_str() {
        // Synchronisation operations of the first detection of each document in one process.
        "count" => {
            for d in 0..DOCS.len() {
                let p = ffmc_sync::points();
                let _ = guarded(|| bytes(d));
                println!("{}", ffmc_sync::points() - p);
            }
        }
        // before form a b thread operations ...
        mode => {
            if let Ok(d) = args[1].parse() {
                judge("before", d, bytes(d));
            }
            let (a, b) = (n(3), n(4));
            let mut segs: Vec<(usize, usize)> = (5..args.len()).step_by(2).map(|i| (n(i), args[i + 1].parse().unwrap_or(usize::MAX))).collect();
            if segs.is_empty() {
                segs.push((0, usize::MAX));
            }
            let ops = race(n(2) == 1, a, b, segs);
            if mode == "points" {
                for o in ops {
                    println!("{}", o.iter().map(|&s| if s { 's' } else { 'i' }).collect::<String>());
                }
                return;
            }
            for d in [a, b, ffmc::history::twin(a), ffmc::history::twin(b), a] {
                match guarded(|| bytes(d)) {
                    Ok(g) => judge("afterwards", d, g),
                    Err(e) => fail(&format!("afterwards: {e}")),
                }
            }
            println!("same");
        }
    }
}
