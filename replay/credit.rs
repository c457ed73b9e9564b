//! Failing-input search for W01: sequences of Credit operations on the real writeback.rs against integer arithmetic.
#![allow(dead_code, unused_imports)]
#[path = "@REPO@/bfffs-core/src/writeback/writeback.rs"] mod writeback;
use futures::FutureExt;
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};
use writeback::*;

@WATCH@
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn below(&mut self, n: u64) -> u64 { (self.next() >> 33) % n }
}
const CAP: usize = 1 << 40;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Split(usize, usize), Isplit(usize, i64), Halve(usize), Take(usize), Extend(usize, usize), Asplit(usize, usize), Null, Drop(usize), Cmp(usize) }
fn fmt(o: &Op) -> String { match o { Op::Split(i, n) => format!("s{i}:{n}"), Op::Isplit(i, n) => format!("i{i}:{n}"), Op::Halve(i) => format!("h{i}"), Op::Take(i) => format!("t{i}"),
    Op::Extend(i, j) => format!("e{i}:{j}"), Op::Asplit(i, n) => format!("a{i}:{n}"), Op::Null => "n".into(), Op::Drop(i) => format!("d{i}"), Op::Cmp(i) => format!("c{i}") } }
fn parse(s: &str) -> Op {
    let r = &s[1..]; let f: Vec<&str> = r.split(':').collect(); let u = |k: usize| f[k].parse::<usize>().unwrap();
    match s.as_bytes()[0] { b's' => Op::Split(u(0), u(1)), b'i' => Op::Isplit(u(0), f[1].parse().unwrap()), b'h' => Op::Halve(u(0)), b't' => Op::Take(u(0)), b'e' => Op::Extend(u(0), u(1)),
        b'a' => Op::Asplit(u(0), u(1)), b'n' => Op::Null, b'd' => Op::Drop(u(0)), _ => Op::Cmp(u(0)) }
}
fn look(c: &mut Credit, m: i64) -> Result<(), String> {
    let s = &mut *c + 0usize; if s as i64 != m { return Err(format!("credit + 0 is {s}, it holds {m}")); }
    let s = &mut *c + 5usize; if s as i64 != m + 5 { return Err(format!("credit + 5 is {s}, it holds {m}")); }
    let s = &mut *c - 7usize; if s as i64 != m - 7 { return Err(format!("credit - 7 is {s}, it holds {m}")); }
    if c.is_null() != (m == 0) { return Err(format!("is_null is {}, it holds {m}", c.is_null())); }
    for q in [0usize, 1, 2, 5, (m.unsigned_abs() as usize).saturating_sub(1), m.unsigned_abs() as usize, m.unsigned_abs() as usize + 1] {
        if (*c == q) != (m == q as i64) { return Err(format!("compared equal to {q}: {}, it holds {m}", *c == q)); }
        if (*c).partial_cmp(&q) != Some(m.cmp(&(q as i64))) { return Err(format!("compared to {q}: {:?}, it holds {m}", (*c).partial_cmp(&q))); }
    }
    Ok(())
}
fn run(start: &[usize], ops: &[Op]) -> Result<(), String> {
    let wb = WriteBack::with_capacity(CAP);
    let mut cs: Vec<Credit> = vec![]; let mut ms: Vec<i64> = vec![];
    for n in start { cs.push(wb.borrow(*n).now_or_never().ok_or("borrow slept")?); ms.push(*n as i64); }
    let r = step(&mut cs, &mut ms, ops);
    match r {
        Ok(gone) => {
            let mut all = Credit::null(); let mut sum = 0;
            for c in cs { all.extend(c); } for m in &ms { sum += m; }
            let e = look(&mut all, sum);
            if e.is_err() { std::mem::forget(all); return e.map_err(|x| format!("after merging everything: {x}")); }
            if gone { std::mem::forget(all); return Ok(()) }
            wb.repay(all);
            match wb.borrow(CAP).now_or_never() { Some(c) => { wb.repay(c); Ok(()) } None => Err("the full capacity cannot be borrowed again: credit was lost".into()) }
        }
        Err(e) => { for c in cs { std::mem::forget(c); } Err(e) }
    }
}
fn step(cs: &mut Vec<Credit>, ms: &mut Vec<i64>, ops: &[Op]) -> Result<bool, String> {
    for o in ops {
        let n = cs.len();
        let at = |e: String| format!("at {}: {e}", fmt(o));
        match *o {
            Op::Split(i, k) => { let i = i % n; let c = cs[i].split(k); let g = ms[i].min(k as i64); ms[i] -= g; cs.push(c); ms.push(g); }
            Op::Isplit(i, k) => { let i = i % n; let c = cs[i].isplit(k as isize); ms[i] -= k; cs.push(c); ms.push(k); }
            Op::Asplit(i, k) => { let i = i % n; if ms[i] < 0 { continue; } let c = cs[i].atomic_split(k); let g = ms[i].min(k as i64); ms[i] -= g; cs.push(c); ms.push(g); }
            Op::Halve(i) => { let i = i % n; let mut c = cs[i].halve(); let g = (&mut c + 0usize) as i64; let left = ms[i] - g;
                if (left - g).abs() > 1 { std::mem::forget(c); return Err(at(format!("{} halved into {g} and {left}", ms[i]))); } ms[i] = left; cs.push(c); ms.push(g); }
            Op::Take(i) => { let i = i % n; let c = cs[i].take(); cs.push(c); ms.push(ms[i]); ms[i] = 0; }
            Op::Extend(i, j) => { let (i, j) = (i % n, j % n); if i == j { continue; } let c = std::mem::replace(&mut cs[j], Credit::null()); cs[i].extend(c); ms[i] += ms[j]; ms[j] = 0; }
            Op::Null => { cs.push(Credit::null()); ms.push(0); }
            Op::Drop(i) => { let i = i % n; let c = std::mem::replace(&mut cs[i], Credit::null());
                // (the panic's Drop runs on a moved value: the amount is discarded either way)
                let p = catch_unwind(AssertUnwindSafe(move || drop(c))).is_err();
                if p != (ms[i] != 0) { ms[i] = 0; return Err(at(format!("dropping it {}", if p { "panicked although it was empty" } else { "was silent although it held credit" }))); }
                ms[i] = 0; if p { return Ok(true) } }
            Op::Cmp(i) => { let i = i % n; let m = ms[i]; look(&mut cs[i], m).map_err(at)?; }
        }
        for i in 0..cs.len() { let m = ms[i]; look(&mut cs[i], m).map_err(|e| at(format!("credit {i}: {e}")))?; }
    }
    Ok(false)
}
fn inp(st: &[usize], ops: &[Op]) -> String { format!("{}|{}", st.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), ops.iter().map(fmt).collect::<Vec<_>>().join(",")) }
fn go(st: &[usize], ops: &[Op]) -> Option<String> {
    watch::case(inp(st, ops));
    match catch_unwind(AssertUnwindSafe(|| run(st, ops))) { Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(p) =>
        Some(format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {})); watch::start(30);
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" {
        let (s, o) = a[3].split_once('|').unwrap();
        let st: Vec<usize> = s.split(',').map(|x| x.parse().unwrap()).collect();
        let ops: Vec<Op> = o.split(',').filter(|x| !x.is_empty()).map(parse).collect();
        if let Some(e) = go(&st, &ops) { println!("FAIL\t{}\t{e}", a[3]); } return;
    }
    let thorough = a[3] == "thorough"; let mut r = Rng(a[4].parse::<u64>().unwrap() * 7919 + 12345);
    let mut n = 0u64; let mut fails = 0;
    let mut rep = |st: &[usize], ops: &[Op], fails: &mut i32| if let Some(e) = go(st, ops) {
        // shrink by dropping operations
        let mut best = ops.to_vec(); let mut why = e; let mut k = 0;
        while k < best.len() { let mut t = best.clone(); t.remove(k); if let Some(e) = go(st, &t) { best = t; why = e; } else { k += 1; } }
        println!("FAIL\t{}\t{why}", inp(st, &best)); *fails += 1;
    };
    // every amount up to 40 (thorough 200) with every single operation and every request up to 45
    let top = if thorough { 200 } else { 40 };
    for v in 0..top { for k in 0..top + 5 { for o in [Op::Split(0, k), Op::Isplit(0, k as i64), Op::Isplit(0, -(k as i64)), Op::Asplit(0, k)] { n += 1; rep(&[v], &[o], &mut fails); if fails > 4 { return } } }
        for o in [Op::Halve(0), Op::Take(0), Op::Drop(0), Op::Cmp(0), Op::Null] { n += 1; rep(&[v, 3], &[o], &mut fails); } if fails > 4 { return } }
    let total = if thorough { 3_000_000 } else { 300_000 };
    let big = [0usize, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 100, 4096, 131072, 1 << 20, (1 << 31) - 1, 1 << 31, (1 << 32) + 1, (1 << 33) - 1];
    for t in 0..total {
        let st: Vec<usize> = (0..1 + r.below(3)).map(|_| if r.below(2) == 0 { r.below(20) as usize } else { big[r.below(19) as usize] }).collect();
        let l = 1 + r.below(8) as usize;
        let ops: Vec<Op> = (0..l).map(|_| { let i = r.below(6) as usize; let k = if r.below(2) == 0 { r.below(20) as usize } else { big[r.below(19) as usize] };
            match r.below(16) { 0..=2 => Op::Split(i, k), 3 => Op::Isplit(i, k as i64), 4 => Op::Isplit(i, -(r.below(9) as i64)), 5..=6 => Op::Halve(i), 7..=8 => Op::Take(i), 9..=11 => Op::Extend(i, r.below(6) as usize),
                12..=13 => Op::Asplit(i, k), 14 => Op::Null, _ => if r.below(4) == 0 { Op::Drop(i) } else { Op::Cmp(i) } } }).collect();
        n += 1; rep(&st, &ops, &mut fails); if fails > 4 { return }
        if t < 3 { println!("SAMPLE\t{}", inp(&st, &ops)); }
    }
    println!("COUNT\t{n}\t{n}");
}
