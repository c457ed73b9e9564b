//! Interleaving search for W01-W03: the real writeback.rs (token `std` redirected to vpstd, whose AtomicIsize and Mutex
//! are shuttle's) under every schedule with a bounded number of preemptions of small thread programs.
#![allow(dead_code, unused_imports)]
pub mod vpstd {
    pub use ::std::*;
    pub mod sync {
        pub use ::std::sync::*;
        pub use ::shuttle::sync::{Mutex, MutexGuard};
        pub mod atomic {
            pub use ::std::sync::atomic::*;
            pub struct AtomicIsize(::shuttle::sync::atomic::AtomicIsize);
            impl AtomicIsize { pub fn new(v: isize) -> Self { Self(::shuttle::sync::atomic::AtomicIsize::new(v)) } }
            impl ::std::ops::Deref for AtomicIsize { type Target = ::shuttle::sync::atomic::AtomicIsize; fn deref(&self) -> &Self::Target { &self.0 } }
            impl ::std::ops::DerefMut for AtomicIsize { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }
            impl ::std::fmt::Debug for AtomicIsize { fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result { self.0.fmt(f) } }
            impl ::serde::Serialize for AtomicIsize { fn serialize<S: ::serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_i64(0) } }
        }
    }
}
#[path = "writeback_src.rs"] mod writeback;
use futures::{Future, FutureExt};
use shuttle::scheduler::{Schedule, Scheduler, Task, TaskId};
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use writeback::*;

// ------------------------------------------------------------------ preemption-bounded depth-first scheduler
struct Shared { levels: Vec<(usize, usize)>, runs: u64, stop: bool }
struct Dfs { sh: Arc<Mutex<Shared>>, step: usize, used: usize, bound: usize, max: u64, data: u64, fixed: bool, seed: Option<u64>, rng: u64 }
impl Scheduler for Dfs {
    fn new_execution(&mut self) -> Option<Schedule> {
        let mut s = self.sh.lock().unwrap_or_else(|e| e.into_inner());
        if s.stop || s.runs >= self.max { return None }
        if self.fixed { if s.runs > 0 { return None } }
        else if let Some(sd) = self.seed { self.rng = (sd.wrapping_add(s.runs)).wrapping_mul(0x9E3779B97F4A7C15) | 1; s.levels.clear(); }
        else if s.runs > 0 {
            while let Some((c, n)) = s.levels.last().copied() { if c + 1 < n { break } s.levels.pop(); }
            match s.levels.last_mut() { None => return None, Some(l) => l.0 += 1 }
        }
        s.runs += 1; self.step = 0; self.used = 0;
        Some(Schedule::new(0))
    }
    fn next_task(&mut self, runnable: &[&Task], current: Option<TaskId>, _y: bool) -> Option<TaskId> {
        let mut s = self.sh.lock().unwrap_or_else(|e| e.into_inner());
        let mut ch: Vec<TaskId> = runnable.iter().map(|t| t.id()).collect();
        let cur = current.and_then(|c| ch.iter().position(|t| *t == c));
        if let Some(i) = cur { let c = ch.remove(i); if self.used >= self.bound { ch.clear(); } ch.insert(0, c); }
        let pick = if self.step < s.levels.len() { s.levels[self.step].0.min(ch.len() - 1) }
            else if self.seed.is_some() { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17;
                let p = if cur.is_some() && (self.rng >> 40) % 3 != 0 { 0 } else { ((self.rng >> 20) % ch.len() as u64) as usize }; s.levels.push((p, ch.len())); p }
            else { s.levels.push((0, ch.len())); 0 };
        if self.step < s.levels.len() && !self.fixed && self.seed.is_none() { s.levels[self.step].1 = ch.len(); }
        if cur.is_some() && pick > 0 { self.used += 1; }
        self.step += 1;
        Some(ch[pick])
    }
    fn next_u64(&mut self) -> u64 { self.data += 1; self.data }
}
// ------------------------------------------------------------------ scenarios
type Fut = Pin<Box<dyn Future<Output = Credit> + Send>>;
#[derive(Clone, Debug, PartialEq)]
enum Op { Hold(usize), Wait(usize), Borrow(usize), Repay, Poll, Abandon, Asplit(usize) }
#[derive(Clone, Debug)]
struct Scen { cap: usize, th: Vec<Vec<Op>> }
fn show(s: &Scen) -> String {
    format!("{}|{}", s.cap, s.th.iter().map(|t| t.iter().map(|o| match o { Op::Hold(n) => format!("h{n}"), Op::Wait(n) => format!("w{n}"), Op::Borrow(n) => format!("b{n}"), Op::Repay => "r".into(), Op::Poll => "p".into(),
        Op::Abandon => "x".into(), Op::Asplit(n) => format!("a{n}") }).collect::<Vec<_>>().join(".")).collect::<Vec<_>>().join(";"))
}
fn parse(s: &str) -> Scen {
    let (c, t) = s.split_once('|').unwrap();
    Scen { cap: c.parse().unwrap(), th: t.split(';').map(|x| x.split('.').filter(|y| !y.is_empty()).map(|o| { let n = o[1..].parse().unwrap_or(0);
        match o.as_bytes()[0] { b'h' => Op::Hold(n), b'w' => Op::Wait(n), b'b' => Op::Borrow(n), b'r' => Op::Repay, b'p' => Op::Poll, b'x' => Op::Abandon, _ => Op::Asplit(n) } }).collect()).collect() }
}
/// a request: when it was made, when the call returned
#[derive(Clone, Debug)]
struct Req { wants: usize, start: u64, end: u64 }
#[derive(Default)]
struct Mine { held: Vec<(Req, Credit)>, wait: Vec<(Req, Fut)>, gone: Vec<Req>, granted: Vec<Req> }
struct Env { clock: AtomicU64, lent: AtomicI64, bad: Mutex<Option<String>>, cap: usize }
impl Env {
    fn tick(&self) -> u64 { self.clock.fetch_add(1, SeqCst) }
    fn fail(&self, s: String) { let mut b = self.bad.lock().unwrap(); if b.is_none() { *b = Some(s); } }
    fn grant(&self, r: &Req, c: &mut Credit) {
        let got = &mut *c + 0usize;
        if got != r.wants as isize { self.fail(format!("asked for {}, got {got}", r.wants)); }
        let l = self.lent.fetch_add(got as i64, SeqCst) + got as i64;
        if l > self.cap as i64 { self.fail(format!("{l} lent out at once, the capacity is {}", self.cap)); }
    }
}
fn poll(f: &mut Fut) -> Option<Credit> { match f.as_mut().poll(&mut Context::from_waker(futures::task::noop_waker_ref())) { Poll::Ready(c) => Some(c), Poll::Pending => None } }
fn borrow(e: &Env, wb: &Arc<WriteBack>, m: &mut Mine, n: usize) {
    let start = e.tick();
    let wb2: &'static WriteBack = unsafe { &*Arc::as_ptr(wb) };       // outlives the futures: kept until the end of the run
    let mut f: Fut = Box::pin(wb2.borrow(n));
    let r = Req { wants: n, start, end: e.tick() };
    match poll(&mut f) { Some(mut c) => { e.grant(&r, &mut c); m.granted.push(r.clone()); m.held.push((r, c)); } None => m.wait.push((r, f)) }
}
fn repay(e: &Env, wb: &WriteBack, m: &mut Mine) {
    if m.held.is_empty() { return }
    let (r, c) = m.held.remove(0); e.lent.fetch_sub(r.wants as i64, SeqCst); wb.repay(c);
}
fn poll_all(e: &Env, m: &mut Mine) {
    let mut k = 0;
    while k < m.wait.len() { if let Some(mut c) = poll(&mut m.wait[k].1) { let (r, _) = m.wait.remove(k); e.grant(&r, &mut c); m.granted.push(r.clone()); m.held.push((r, c)); } else { k += 1; } }
}
fn step(e: &Env, wb: &Arc<WriteBack>, m: &mut Mine, o: &Op) {
    match o {
        Op::Borrow(n) => borrow(e, wb, m, *n),
        Op::Repay => repay(e, wb, m),
        Op::Poll => poll_all(e, m),
        Op::Abandon => { poll_all(e, m); if !m.wait.is_empty() { let (r, f) = m.wait.remove(0); drop(f); m.gone.push(r); } }
        _ => {}
    }
}
fn quiet(e: &Env, m: &Mine) {
    for (a, _) in &m.wait {
        // nobody who asked after a was queued may have been served before it
        for b in &m.granted { if b.start > a.end { e.fail(format!("a request for {} made after the request for {} was queued was granted first", b.wants, a.wants)); } }
    }
    if m.wait.is_empty() { return }
    let free = e.cap as i64 - e.lent.load(SeqCst);
    let first = |a: &Req| !m.wait.iter().any(|(b, _)| b.end < a.start);
    let cand = m.wait.iter().map(|x| &x.0).filter(|a| first(a)).chain(m.gone.iter()).any(|a| a.wants as i64 > free);
    if !cand { e.fail(format!("{} free and no call in progress, yet the first waiter of {:?} sleeps", free, m.wait.iter().map(|x| x.0.wants).collect::<Vec<_>>())); }
}
fn run_once(sc: &Scen) -> Option<String> {
    let e = Arc::new(Env { clock: AtomicU64::new(0), lent: AtomicI64::new(0), bad: Mutex::new(None), cap: sc.cap });
    if sc.th.iter().flatten().any(|o| matches!(o, Op::Asplit(_))) { return run_split(sc, &e); }
    let wb = Arc::new(WriteBack::with_capacity(sc.cap));
    let mut mines: Vec<Mine> = sc.th.iter().map(|_| Mine::default()).collect();
    for pass in 0..2 { for (t, m) in sc.th.iter().zip(&mut mines) { for o in t { match (pass, o) { (0, Op::Hold(n)) => { borrow(&e, &wb, m, *n); }
        (1, Op::Wait(n)) => borrow(&e, &wb, m, *n), _ => {} } } } }
    let hs: Vec<_> = sc.th.iter().zip(mines).map(|(t, mut m)| { let (t, e, wb) = (t.clone(), e.clone(), wb.clone());
        shuttle::thread::spawn(move || { for o in &t { step(&e, &wb, &mut m, o); } m }) }).collect();
    let mut m = Mine::default();
    for h in hs { let x = h.join().unwrap(); m.held.extend(x.held); m.wait.extend(x.wait); m.gone.extend(x.gone); m.granted.extend(x.granted); }
    poll_all(&e, &mut m);
    quiet(&e, &m);
    while e.bad.lock().unwrap().is_none() && !(m.wait.is_empty() && m.held.is_empty()) {
        if !m.wait.is_empty() {                       // a newcomer must queue
            let n = m.wait.len(); borrow(&e, &wb, &mut m, 1);
            if m.wait.len() == n { e.fail("a newcomer was served while others wait".into()); break }
            let (r, f) = m.wait.pop().unwrap(); drop(f); m.gone.push(r);
        }
        if m.held.is_empty() { e.fail(format!("all credit is repaid, yet {} requests wait", m.wait.len())); break }
        repay(&e, &wb, &mut m); poll_all(&e, &mut m); quiet(&e, &m);
    }
    if e.bad.lock().unwrap().is_none() {
        borrow(&e, &wb, &mut m, sc.cap);
        if m.held.is_empty() { e.fail("all credit is repaid, but the full capacity cannot be borrowed".into()); }
        else { borrow(&e, &wb, &mut m, 1); if m.held.len() > 1 { e.fail("more than the capacity can be borrowed".into()); } }
    }
    for (_, c) in m.held.drain(..) { std::mem::forget(c); }
    let b = e.bad.lock().unwrap().clone();
    std::mem::forget(m);
    b
}
/// threads that split one shared credit
fn run_split(sc: &Scen, e: &Arc<Env>) -> Option<String> {
    let wb = Arc::new(WriteBack::with_capacity(100));
    let c = Arc::new(wb.borrow(sc.cap).now_or_never().unwrap());
    let hs: Vec<_> = sc.th.iter().map(|t| { let (t, c, e) = (t.clone(), c.clone(), e.clone());
        shuttle::thread::spawn(move || { let mut got = vec![]; for o in &t { match o { Op::Asplit(n) => { let mut x = c.atomic_split(*n); let g = &mut x + 0usize; got.push((x, g, *n)); }
            _ => { if c.partial_cmp_zero() { e.fail("the shared credit went negative".into()); } } } } got }) }).collect();
    let mut all: Vec<(Credit, isize, usize)> = vec![]; for h in hs { all.extend(h.join().unwrap()); }
    let mut c = Arc::try_unwrap(c).ok().unwrap(); let left = &mut c + 0usize;
    let sum: isize = all.iter().map(|x| x.1).sum();
    if left + sum != sc.cap as isize { e.fail(format!("{} split concurrently into {:?} leaving {left}: credit was {}", sc.cap, all.iter().map(|x| x.1).collect::<Vec<_>>(), if left + sum > sc.cap as isize { "created" } else { "destroyed" })); }
    if left < 0 { e.fail(format!("the shared credit ended at {left}")); }
    for x in &all { if x.1 < 0 || x.1 > x.2 as isize { e.fail(format!("asked for {}, got {}", x.2, x.1)); } }
    std::mem::forget(c); for x in all { std::mem::forget(x.0); }
    e.bad.lock().unwrap().clone()
}
trait Z { fn partial_cmp_zero(&self) -> bool; }
impl Z for Credit { fn partial_cmp_zero(&self) -> bool { *self < 0usize } }

/// explore one scenario; -> (runs, failure with schedule, complete)
fn explore(sc: &Scen, bound: usize, max: u64, fixed: Option<Vec<usize>>, seed: Option<u64>) -> (u64, Option<String>, bool) {
    let sh = Arc::new(Mutex::new(Shared { levels: fixed.clone().unwrap_or_default().into_iter().map(|c| (c, c + 1)).collect(), runs: 0, stop: false }));
    let sch = Dfs { sh: sh.clone(), step: 0, used: 0, bound: if fixed.is_some() { 1000 } else { bound }, max, data: 0, fixed: fixed.is_some(), seed, rng: 1 };
    let bad = Arc::new(Mutex::new(None)); let (b2, sh2, s2) = (bad.clone(), sh.clone(), sc.clone());
    let mut cfg = shuttle::Config::new(); cfg.failure_persistence = shuttle::FailurePersistence::None; cfg.max_steps = shuttle::MaxSteps::FailAfter(20_000); cfg.silence_warnings = true;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| shuttle::Runner::new(sch, cfg).run(move || { if let Some(x) = run_once(&s2) { *b2.lock().unwrap() = Some(x); sh2.lock().unwrap().stop = true; } })));
    let s = sh.lock().unwrap_or_else(|e| e.into_inner());
    let path = s.levels.iter().map(|l| l.0.to_string()).collect::<Vec<_>>().join(",");
    let mut what = bad.lock().unwrap_or_else(|e| e.into_inner()).clone();
    if let Err(p) = r { what = what.or(Some(format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))); }
    (s.runs, what.map(|w| format!("{}@{}\t{}", show(sc), path, w.replace(['\n', '\t'], " "))), s.runs < max)
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" {
        let (s, p) = a[3].split_once('@').unwrap();
        let path = p.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        if let (_, Some(f), _) = explore(&parse(s), 1000, 1, Some(path), None) { println!("FAIL\t{f}"); } return;
    }
    let thorough = a[3] == "thorough"; let seed: u64 = a[4].parse().unwrap();
    let mut list: Vec<Scen> = vec![];
    if a[2] == "W01" {
        for c in [1usize, 3, 4, 7] { for x in [1usize, 2, 4] { for y in [1usize, 3, 9] { for z in ["", ";a2", ";c;a1"] { list.push(parse(&format!("{c}|a{x};a{y}.c{z}"))); list.push(parse(&format!("{c}|a{x}.a1;c.a{y}{z}"))); } } } }
    } else {
        let progs = ["h1.r", "h2.r", "h1.r.b2", "b1", "b2", "b3", "b1.r", "b2.r", "b1.p.r", "w1.p.r", "w2.p", "w2.p.r", "w3", "w2.x", "w1.x", "b2.x", "b2.p.x", "b2.x.b1", "h1.h1.r.r", "b1.b1.r", "h2.r.b1.r", ""];
        let n = progs.len();
        for cap in 1..=4usize { for i in 0..n { for j in i..n { for k in j..n {
            let s = parse(&format!("{cap}|{};{};{}", progs[i], progs[j], progs[k]));
            let sum = |f: fn(&Op) -> usize| s.th.iter().flatten().map(f).sum::<usize>();
            let h = sum(|o| if let Op::Hold(n) = o { *n } else { 0 });
            let mx = s.th.iter().flatten().map(|o| match o { Op::Hold(n) | Op::Wait(n) | Op::Borrow(n) => *n, _ => 0 }).max().unwrap_or(0);
            if h > cap || mx > cap || sum(|o| if matches!(o, Op::Wait(_) | Op::Borrow(_)) { 1 } else { 0 }) == 0 { continue }
            list.push(s);
        } } } }
    }
    let (b, mx) = if thorough { (3, 60_000) } else { (2, 3_000) };
    // shuffle by seed so that a time limit cuts evenly
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1; for i in (1..list.len()).rev() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; list.swap(i, (x % (i as u64 + 1)) as usize); }
    let limit = std::time::Instant::now() + std::time::Duration::from_secs(if thorough { 500 } else { 60 });
    let list = Arc::new(list); let next = Arc::new(AtomicUsize::new(0)); let (runs, full, nf, done) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
    let hs: Vec<_> = (0..8).map(|_| { let (list, next, runs, full, nf, done) = (list.clone(), next.clone(), runs.clone(), full.clone(), nf.clone(), done.clone());
        std::thread::spawn(move || loop {
            let i = next.fetch_add(1, SeqCst); if i >= list.len() || nf.load(SeqCst) > 3 || std::time::Instant::now() > limit { break }
            let (n, f, c) = explore(&list[i], b, mx, None, None); runs.fetch_add(n, SeqCst); if c { full.fetch_add(1, SeqCst); } done.fetch_add(1, SeqCst);
            if i < 3 { println!("SAMPLE\t{} ({n} schedules)", show(&list[i])); }
            if let Some(f) = f { nf.fetch_add(1, SeqCst); println!("FAIL\t{f}"); continue }
            if !c { let (n, f, _) = explore(&list[i], 1000, mx / 2, None, Some(seed.wrapping_mul(1000003) + i as u64)); runs.fetch_add(n, SeqCst); if let Some(f) = f { nf.fetch_add(1, SeqCst); println!("FAIL\t{f}"); } }
        }) }).collect();
    for h in hs { h.join().unwrap(); }
    println!("COUNT\t{}\t{}", runs.load(SeqCst), done.load(SeqCst));
    println!("INFO\tscenarios\t{} of {}, {} with every schedule of at most {b} preemptions", done.load(SeqCst), list.len(), full.load(SeqCst));
}
