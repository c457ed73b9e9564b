//! C01, C02: operation sequences on the real cache/{mod,lru}.rs against a reference least-recently-used model.
#![allow(dead_code, unused_imports, unused_macros)]
pub mod types {
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct PBA { pub cluster: u16, pub lba: u64 }
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct RID(pub u64);
}
#[path = "@REPO@/bfffs-core/src/cache/mod.rs"] mod cache;
use cache::*;
use divbuf::{DivBuf, DivBufShared};
use std::panic::{catch_unwind, AssertUnwindSafe};
use types::*;

@WATCH@
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn below(&mut self, n: u64) -> u64 { (self.next() >> 33) % n }
}
fn key(i: usize) -> Key { match i % 3 { 0 => Key::Rid(RID(i as u64)), 1 => Key::PBA(PBA { cluster: 0, lba: i as u64 }), _ => Key::PBA(PBA { cluster: i as u16, lba: 1 }) } }
/// Ins: a new block, or (if the key is present) an equal one; Get, Peek, Rem, Drop
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Ins(usize, usize), Get(usize), Peek(usize), Rem(usize), Drop }
fn fmt(o: &Op) -> String { match o { Op::Ins(k, n) => format!("i{k}:{n}"), Op::Get(k) => format!("g{k}"), Op::Peek(k) => format!("p{k}"), Op::Rem(k) => format!("r{k}"), Op::Drop => "d".into() } }
fn parse(s: &str) -> Op { let f: Vec<usize> = s[1..].split(':').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    match s.as_bytes()[0] { b'i' => Op::Ins(f[0], f[1]), b'g' => Op::Get(f[0]), b'p' => Op::Peek(f[0]), b'r' => Op::Rem(f[0]), _ => Op::Drop } }
fn bytes(k: usize, n: usize, v: usize) -> Vec<u8> { (0..n).map(|i| (k * 37 + v * 101 + i * 7) as u8).collect() }
fn run(cap: usize, nk: usize, ops: &[Op], every: bool) -> Result<(), String> {
    let mut c = Cache::with_capacity(cap);
    let mut m: Vec<(usize, Vec<u8>)> = vec![];               // least recently used first
    if c.capacity() != cap { return Err(format!("capacity() is {}", c.capacity())); }
    for (t, o) in ops.iter().enumerate() {
        let t = t + 1;
        let at = |k: usize, m: &Vec<(usize, Vec<u8>)>| m.iter().position(|x| x.0 == k);
        match *o {
            Op::Ins(k, n) => match at(k, &m) {
                Some(i) => { let b = m[i].1.clone(); c.insert(key(k), Box::new(DivBufShared::from(b))); }
                None => {
                    let b = bytes(k, n, t);
                    c.insert(key(k), Box::new(DivBufShared::from(b.clone())));
                    while m.iter().map(|x| x.1.len()).sum::<usize>() + n > cap { m.remove(0); }
                    m.push((k, b));
                }
            },
            Op::Get(k) => match (c.get::<DivBuf>(&key(k)), at(k, &m)) {
                (None, None) => {}
                (Some(b), Some(i)) => { if b[..] != m[i].1[..] { return Err(format!("step {t}: lookup of {k} returned other bytes")); } let e = m.remove(i); m.push(e); }
                (a, b) => return Err(format!("step {t}: lookup of {k} found {}, expected {}", a.is_some(), b.is_some())),
            },
            Op::Peek(k) => match (c.get_ref(&key(k)), at(k, &m)) {
                (None, None) => {}
                (Some(b), Some(i)) => { if b.serialize()[..] != m[i].1[..] { return Err(format!("step {t}: peek at {k} returned other bytes")); } }
                (a, b) => return Err(format!("step {t}: peek at {k} found {}, expected {}", a.is_some(), b.is_some())),
            },
            Op::Rem(k) => match (c.remove(&key(k)), at(k, &m)) {
                (None, None) => {}
                (Some(b), Some(i)) => { if b.make_ref().serialize()[..] != m[i].1[..] { return Err(format!("step {t}: removing {k} returned other bytes")); } m.remove(i); }
                (a, b) => return Err(format!("step {t}: removing {k} found {}, expected {}", a.is_some(), b.is_some())),
            },
            Op::Drop => { c.drop_cache(); m.clear(); }
        }
        if every || t == ops.len() {
            let want: usize = m.iter().map(|x| x.1.len()).sum();
            for k in 0..nk { match (c.get_ref(&key(k)), at(k, &m)) {
                (None, None) => {}
                (Some(b), Some(i)) => if b.serialize()[..] != m[i].1[..] { return Err(format!("after step {t} ({}): {k} holds other bytes", fmt(o))); },
                (a, b) => return Err(format!("after step {t} ({}): {k} is {}cached, expected {}cached", fmt(o), if a.is_some() { "" } else { "not " }, if b.is_some() { "" } else { "not " })),
            } }
            if c.size() != want { return Err(format!("after step {t} ({}): size() is {}, the cached blocks hold {want}", fmt(o), c.size())); }
            if c.size() > cap { return Err(format!("after step {t}: size() is {} of {cap}", c.size())); }
        }
    }
    Ok(())
}
fn go(cap: usize, nk: usize, ops: &[Op], every: bool) -> Option<String> {
    watch::case(inp(cap, nk, ops));
    match catch_unwind(AssertUnwindSafe(|| run(cap, nk, ops, every))) { Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(p) =>
        Some(format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) }
}
fn inp(cap: usize, nk: usize, ops: &[Op]) -> String { format!("{cap}|{nk}|{}", ops.iter().map(fmt).collect::<Vec<_>>().join(",")) }
fn main() {
    std::panic::set_hook(Box::new(|_| {})); watch::start(30);
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" { let f: Vec<&str> = a[3].split('|').collect(); let ops: Vec<Op> = f[2].split(',').filter(|x| !x.is_empty()).map(parse).collect();
        if let Some(e) = go(f[0].parse().unwrap(), f[1].parse().unwrap(), &ops, true) { println!("FAIL\t{}\t{e}", a[3]); } return; }
    let thorough = a[3] == "thorough"; let mut r = Rng(a[4].parse::<u64>().unwrap() * 7919 + 99); let (mut n, mut fails) = (0u64, 0);
    let mut rep = |cap: usize, nk: usize, ops: &[Op], every: bool, fails: &mut i32| if go(cap, nk, ops, every).is_some() {
        let mut best = ops.to_vec(); let mut why = String::new(); let mut k = 0;
        while k < best.len() { let mut t = best.clone(); t.remove(k); if let Some(e) = go(cap, nk, &t, true) { best = t; why = e; } else { k += 1; } }
        if let Some(e) = go(cap, nk, &best, true) { why = e; }
        println!("FAIL\t{}\t{why}", inp(cap, nk, &best)); *fails += 1;
    };
    // every sequence over 3 keys and a capacity of 10
    let len = if thorough { 6 } else { 5 };
    let mut alpha: Vec<Op> = vec![Op::Drop];
    for k in 0..3 { alpha.extend([Op::Ins(k, 4), Op::Ins(k, 7), Op::Get(k), Op::Rem(k)]); }
    alpha.push(Op::Ins(0, 0)); alpha.push(Op::Ins(1, 10)); alpha.push(Op::Peek(1));
    let b = alpha.len() as u64;
    for x in 0..b.pow(len) {
        let mut y = x; let ops: Vec<Op> = (0..len).map(|_| { let o = alpha[(y % b) as usize]; y /= b; o }).collect();
        if !matches!(ops[0], Op::Ins(..)) { continue }
        n += 1; rep(10, 3, &ops, false, &mut fails); if fails > 4 { return }
    }
    for t in 0..if thorough { 400_000 } else { 60_000 } {
        let cap = [1usize, 7, 64, 1000, 65536][r.below(5) as usize]; let nk = 2 + r.below(9) as usize; let l = 4 + r.below(40) as usize;
        let ops: Vec<Op> = (0..l).map(|_| { let k = r.below(nk as u64) as usize; match r.below(16) {
            0..=7 => Op::Ins(k, match r.below(8) { 0 => 0, 1 => cap, 2 => cap / 2, _ => r.below(cap as u64 / 3 + 2) as usize }.min(cap).min(4096)),
            8..=11 => Op::Get(k), 12 => Op::Peek(k), 13 | 14 => Op::Rem(k), _ => if r.below(6) == 0 { Op::Drop } else { Op::Get(k) } } }).collect();
        n += 1; rep(cap, nk, &ops, true, &mut fails); if fails > 4 { return }
        if t < 3 { println!("SAMPLE\t{}", inp(cap, nk, &ops)); }
    }
    println!("COUNT\t{n}\t{n}");
}
