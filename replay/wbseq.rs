//! W02, W03: single-threaded operation sequences on the real writeback.rs against a first-come-first-served reference model.
#![allow(dead_code, unused_imports)]
#[path = "@REPO@/bfffs-core/src/writeback/writeback.rs"] mod writeback;
use futures::Future;
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::task::{Context, Poll};
use writeback::*;

@WATCH@
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn below(&mut self, n: u64) -> u64 { (self.next() >> 33) % n }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Borrow(usize), Repay(usize), Part(usize), Drop(usize) }      // Part: repay half of a credit
fn fmt(o: &Op) -> String { match o { Op::Borrow(n) => format!("b{n}"), Op::Repay(n) => format!("r{n}"), Op::Part(n) => format!("h{n}"), Op::Drop(n) => format!("x{n}") } }
fn parse(s: &str) -> Op { let n = s[1..].parse().unwrap(); match s.as_bytes()[0] { b'b' => Op::Borrow(n), b'r' => Op::Repay(n), b'h' => Op::Part(n), _ => Op::Drop(n) } }
type Fut<'a> = Pin<Box<dyn Future<Output = Credit> + 'a>>;
struct Model { free: usize, q: VecDeque<(usize, u64, bool)> }          // wants, id, alive
impl Model {
    fn serve(&mut self) -> Vec<u64> { let mut v = vec![]; while let Some((w, id, alive)) = self.q.front().copied() { if w > self.free { break } self.q.pop_front(); if alive { self.free -= w; v.push(id); } } v }
}
fn run(cap: usize, ops: &[Op]) -> Result<(), String> {
    let wb = WriteBack::with_capacity(cap);
    if wb.capacity() != cap { return Err(format!("capacity() is {}, not {cap}", wb.capacity())); }
    let mut held: Vec<(usize, Credit)> = vec![]; let mut wait: Vec<(u64, usize, Fut)> = vec![];
    let mut m = Model { free: cap, q: VecDeque::new() };
    let mut cx = Context::from_waker(futures::task::noop_waker_ref()); let mut id = 0u64;
    let mut all: Vec<Op> = ops.to_vec(); let n = all.len(); let mut k = 0;
    let mut res = Ok(());
    loop {
        let o = if k < n { all[k] } else if !held.is_empty() { Op::Repay(0) } else { break };
        k += 1;
        let mut due: Vec<u64> = vec![];
        match o {
            Op::Borrow(w) => {
                let mut f: Fut = Box::pin(wb.borrow(w)); id += 1;
                let want = m.q.is_empty() && m.free >= w;
                if want { m.free -= w; } else { m.q.push_back((w, id, true)); due = m.serve(); }
                match f.as_mut().poll(&mut cx) {
                    Poll::Ready(c) => { held.push((w, c)); if !want && !due.contains(&id) { res = Err(format!("step {k}: borrowing {w} was granted; {} is free and {} wait", m.free, m.q.len())); break } due.retain(|x| *x != id); }
                    Poll::Pending => { wait.push((id, w, f)); if want { res = Err(format!("step {k}: borrowing {w} sleeps with {} free and nobody waiting", m.free + w)); break } }
                }
            }
            Op::Repay(i) => { if held.is_empty() { continue } let i = i % held.len(); let (w, c) = held.remove(i); wb.repay(c); m.free += w; due = m.serve(); }
            Op::Part(i) => { if held.is_empty() { continue } let i = i % held.len(); let h = held[i].0 / 2; let c = held[i].1.split(h); held[i].0 -= h; wb.repay(c); m.free += h; if h > 0 { due = m.serve(); } }
            Op::Drop(i) => { if wait.is_empty() { continue } let i = i % wait.len(); let (d, _, f) = wait.remove(i); drop(f); for x in m.q.iter_mut() { if x.1 == d { x.2 = false; } } }
        }
        let mut j = 0;
        while j < wait.len() {
            match wait[j].2.as_mut().poll(&mut cx) {
                Poll::Ready(c) => { let (d, w, _f) = wait.remove(j); held.push((w, c)); if !due.contains(&d) { res = Err(format!("step {k} ({}): the waiter for {w} was served; {} free, queue {:?}", fmt(&o), m.free, m.q)); } due.retain(|x| *x != d); }
                Poll::Pending => j += 1,
            }
        }
        for (w, c) in &mut held { let g = &mut *c + 0usize; if g != *w as isize { res = Err(format!("step {k}: a credit for {w} holds {g}")); } }
        if res.is_err() { break }
        if !due.is_empty() { res = Err(format!("step {k} ({}): a waiter that now fits was not served; {} free", fmt(&o), m.free)); break }
        if held.iter().map(|h| h.0).sum::<usize>() > cap { res = Err(format!("step {k}: more than {cap} lent")); break }
    }
    if res.is_ok() {
        if !wait.is_empty() { res = Err("all credit is repaid, yet somebody waits".into()); }
        else { let mut f: Fut = Box::pin(wb.borrow(cap)); match f.as_mut().poll(&mut cx) { Poll::Ready(c) => { std::mem::forget(c);
                let mut g: Fut = Box::pin(wb.borrow(1)); if let Poll::Ready(c) = g.as_mut().poll(&mut cx) { std::mem::forget(c); res = Err("more than the capacity can be borrowed".into()); } }
            Poll::Pending => res = Err("all credit is repaid, but the full capacity cannot be borrowed".into()) } }
    }
    for (_, c) in held { std::mem::forget(c); }
    res
}
fn inp(cap: usize, ops: &[Op]) -> String { format!("{cap}|{}", ops.iter().map(fmt).collect::<Vec<_>>().join(",")) }
fn go(cap: usize, ops: &[Op]) -> Option<String> {
    watch::case(inp(cap, ops));
    match catch_unwind(AssertUnwindSafe(|| run(cap, ops))) { Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(p) =>
        Some(format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {})); watch::start(30);
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" { let (c, o) = a[3].split_once('|').unwrap(); let ops: Vec<Op> = o.split(',').filter(|x| !x.is_empty()).map(parse).collect();
        if let Some(e) = go(c.parse().unwrap(), &ops) { println!("FAIL\t{}\t{e}", a[3]); } return; }
    let thorough = a[3] == "thorough"; let mut r = Rng(a[4].parse::<u64>().unwrap() * 7919 + 99); let (mut n, mut fails) = (0u64, 0);
    let mut rep = |cap: usize, ops: &[Op], fails: &mut i32| if let Some(e) = go(cap, ops) {
        let mut best = ops.to_vec(); let mut why = e; let mut k = 0;
        while k < best.len() { let mut t = best.clone(); t.remove(k); if let Some(e) = go(cap, &t) { best = t; why = e; } else { k += 1; } }
        println!("FAIL\t{}\t{why}", inp(cap, &best)); *fails += 1;
    };
    let len = if thorough { 7 } else { 6 };
    for cap in 1..=4usize {
        let mut alpha: Vec<Op> = (1..=cap).map(Op::Borrow).collect(); alpha.extend([Op::Repay(0), Op::Repay(1), Op::Drop(0), Op::Drop(1), Op::Part(0)]);
        if cap == 4 { alpha.retain(|o| *o != Op::Borrow(2)); }
        let b = alpha.len() as u64; let tot = b.pow(len);
        for x in 0..tot { let mut y = x; let ops: Vec<Op> = (0..len).map(|_| { let o = alpha[(y % b) as usize]; y /= b; o }).collect();
            if !matches!(ops[0], Op::Borrow(_)) { continue }
            n += 1; rep(cap, &ops, &mut fails); if fails > 4 { return } }
    }
    for t in 0..if thorough { 2_000_000 } else { 200_000 } {
        let cap = [5usize, 10, 100, 4096, 1 << 20, (1 << 40) - 1, (isize::MAX >> 1) as usize][r.below(7) as usize];
        let l = 3 + r.below(12) as usize;
        let ops: Vec<Op> = (0..l).map(|_| match r.below(8) { 0..=3 => { let q = r.below(5); Op::Borrow(match q { 0 => 0, 1 => cap.min(1 << 50), 2 => (cap / 2).min(1 << 50), _ => r.below(cap.min(1 << 30) as u64 + 1) as usize }) } 4 | 5 => Op::Repay(r.below(4) as usize), 6 => Op::Part(r.below(3) as usize), _ => Op::Drop(r.below(3) as usize) }).collect();
        n += 1; rep(cap, &ops, &mut fails); if fails > 4 { return }
        if t < 3 { println!("SAMPLE\t{}", inp(cap, &ops)); }
    }
    // long queues
    for t in 0..if thorough { 20_000 } else { 2_000 } {
        let cap = [10usize, 100, 1000, 4096][r.below(4) as usize]; let l = 20 + r.below(if t % 20 == 0 { 600 } else { 100 }) as usize; let big = r.below(3);
        let mut ops = vec![Op::Borrow(cap)];
        if big == 0 { for _ in 0..l { ops.push(Op::Borrow(r.below(3) as usize)); } for _ in 0..r.below(6) { ops.push(Op::Drop(r.below(l as u64) as usize)); } ops.push(Op::Repay(0)); }
        for _ in 0..l { ops.push(match r.below(9) { 0..=4 => Op::Borrow(1 + r.below(cap as u64 / [1, 3, 10][big as usize]) as usize), 5 | 6 => Op::Repay(r.below(8) as usize), 7 => Op::Part(r.below(8) as usize), _ => Op::Drop(r.below(40) as usize) }); }
        n += 1; rep(cap, &ops, &mut fails); if fails > 2 { return }
    }
    println!("COUNT\t{n}\t{n}");
}
