//! H01: histories of faults, rebuilds, restores and losses on real mirrors and RAID devices, the reported health compared with the leaves' states.
#![allow(dead_code, unused_imports, unused_macros, unused_mut)]
pub mod types; pub mod util; pub mod label; pub mod vdev; pub mod vpshim; pub mod vdev_file; pub mod vdev_block; pub mod mirror; pub mod raid; pub mod cluster;
pub use types::*; pub use util::*;
use vpshim::*; use vdev::{Health, FaultedReason}; use mirror::Mirror; use raid::{RaidImpl, VdevRaidApi, vp_access as va}; use cluster::Cluster;
use std::{num::NonZeroU8, panic::{catch_unwind, AssertUnwindSafe}, sync::Arc};
@WATCH@
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn below(&mut self, n: u64) -> u64 { (self.next() >> 33) % n }
}
/// F: fault a child; f: fault a leaf; n: fault a name nobody has; d: fault the device's own name; b: begin rebuilding a leaf; r: restore a child; h: the same while somebody holds the device (refused)
#[derive(Clone, Debug, PartialEq)] enum Op { Child(usize), Leaf(usize, usize), None, Own, Rebuild(usize, usize), Restore(usize), Held(usize) }
#[derive(Clone, Debug, PartialEq)] struct Case { parity: i16, /** leaves of every child; and which are missing from the start: a whole child ('m') or leaves */ shape: Vec<(usize, bool, Vec<usize>)>, ops: Vec<Op> }
fn fmt(c: &Case) -> String { format!("{}/{}/{}", c.parity, c.shape.iter().map(|(n, m, l)| format!("{n}{}{}", if *m { "m" } else { "" }, l.iter().map(|x| format!("-{x}")).collect::<String>())).collect::<Vec<_>>().join(","),
    c.ops.iter().map(|o| match o { Op::Child(i) => format!("F{i}"), Op::Leaf(i, j) => format!("f{i}.{j}"), Op::None => "n".into(), Op::Own => "d".into(), Op::Rebuild(i, j) => format!("b{i}.{j}"), Op::Restore(i) => format!("r{i}"), Op::Held(i) => format!("h{i}") }).collect::<Vec<_>>().join(",")) }
fn parse(s: &str) -> Case { let f: Vec<&str> = s.split('/').collect();
    Case { parity: f[0].parse().unwrap(), shape: f[1].split(',').map(|x| { let p: Vec<&str> = x.split('-').collect(); (p[0].trim_end_matches('m').parse().unwrap(), p[0].ends_with('m'), p[1..].iter().map(|y| y.parse().unwrap()).collect()) }).collect(),
        ops: f[2].split(',').filter(|x| !x.is_empty()).map(|x| { let n: Vec<usize> = x[1..].split('.').filter(|y| !y.is_empty()).map(|y| y.parse().unwrap()).collect(); match x.as_bytes()[0] { b'F' => Op::Child(n[0]), b'f' => Op::Leaf(n[0], n[1]), b'n' => Op::None, b'd' => Op::Own, b'b' => Op::Rebuild(n[0], n[1]), b'h' => Op::Held(n[0]), _ => Op::Restore(n[0]) } }).collect() } }
// ---- the reference
#[derive(Clone, Copy, Debug, PartialEq)] enum S { Up, Gone, Rebuilding, Faulted }
struct Ch { s: S, leaves: Vec<S> }
fn deg(n: usize) -> Health { match NonZeroU8::new(n.min(255) as u8) { Some(n) => Health::Degraded(n), None => Health::Online } }
fn leaf(s: S) -> Health { match s { S::Up => Health::Online, S::Rebuilding => deg(1), S::Faulted => Health::Faulted(FaultedReason::User), S::Gone => Health::Faulted(FaultedReason::Removed) } }
fn mirror_health(l: &[S]) -> Health { let n = l.iter().filter(|s| **s != S::Up).count(); if n == l.len() { Health::Faulted(FaultedReason::InsufficientRedundancy) } else { deg(n) } }
fn child_health(c: &Ch) -> Health { match c.s { S::Up => mirror_health(&c.leaves), s => leaf(s) } }
fn raid_health(c: &[Ch], f: i16) -> Health {
    if c.iter().filter(|c| c.s != S::Up).count() > f as usize { return Health::Faulted(FaultedReason::InsufficientRedundancy) }
    deg(c.iter().map(|c| match child_health(c) { Health::Online => 0, Health::Degraded(n) => n.get() as usize, _ => if c.s == S::Gone { 1 } else { c.leaves.len().min(255) } }).sum())
}
fn worse(h: Health) -> u32 { match h { Health::Online => 0, Health::Degraded(n) => n.get() as u32, Health::Faulted(FaultedReason::User) => 1000, Health::Faulted(FaultedReason::InsufficientRedundancy) => 1001, Health::Faulted(FaultedReason::Removed) => 1002 } }
fn run(c: &Case) -> std::result::Result<(), String> {
    let mut mirrors = vec![]; let mut ch = vec![]; let mut names = vec![];
    for (i, (n, m, lost)) in c.shape.iter().enumerate() {
        let paths: Vec<String> = (0..*n).map(|j| { let p = mypath(&format!("/d{i}.{j}")); plug(&p, Disk::new(2000)); p }).collect();
        let mut x = Mirror::create(&paths, std::num::NonZeroU64::new(100)).map_err(|e| format!("{e:?}"))?;
        paths.iter().for_each(|p| unplug(p));
        names.push((x.uuid(), x.status().leaves.iter().map(|l| l.uuid).collect::<Vec<_>>()));
        let mut l = vec![S::Up; *n];
        if !*m { for &j in lost { mirror::vp_access::lose(&mut x, j); l[j] = S::Gone; } }
        // a mirror of which nothing is left is out of service from the start
        let s = if *m { S::Gone } else if l.iter().all(|s| *s == S::Gone) { S::Faulted } else { S::Up };
        ch.push(Ch { s, leaves: l }); mirrors.push((x.uuid(), (!*m).then_some(x)));
    }
    let null = c.shape.len() == 1;
    let mut v: RaidImpl = if null { raid::NullRaid::create(mirrors.pop().unwrap().1.unwrap()).into() } else { va::raid(c.shape.len() as i16, c.parity, mirrors).into() };
    let check = |v: &RaidImpl, ch: &[Ch], when: &str| -> std::result::Result<(), String> {
        let s = v.status(); let want = if null { mirror_health(&ch[0].leaves) } else { raid_health(ch, c.parity) };
        if s.health != want { return Err(format!("{when}: the device reports {:?}; its children make it {want:?}", s.health)); }
        if s.mirrors.len() != ch.len() { return Err(format!("{when}: {} children reported, there are {}", s.mirrors.len(), ch.len())); }
        for (i, (m, c)) in s.mirrors.iter().zip(ch).enumerate() {
            if m.uuid != names[i].0 { return Err(format!("{when}: child {i} is reported under another name")); }
            let want = if null { mirror_health(&c.leaves) } else { child_health(c) };
            if m.health != want { return Err(format!("{when}: child {i} is reported {:?}; it is {want:?}", m.health)); }
            if c.s == S::Gone { continue; }
            if m.leaves.len() != c.leaves.len() { return Err(format!("{when}: {} leaves of child {i} reported, it has {}", m.leaves.len(), c.leaves.len())); }
            for (j, (l, s)) in m.leaves.iter().zip(&c.leaves).enumerate() { if l.health != leaf(*s) || l.uuid != names[i].1[j] { return Err(format!("{when}: leaf {j} of child {i} is reported {:?}; it is {:?}", l.health, leaf(*s))); } }
        }
        Ok(())
    };
    check(&v, &ch, "at first")?;
    for (k, o) in c.ops.iter().enumerate() {
        let when = format!("after {} operations", k + 1);
        let (got, want) = match o {
            Op::Own => { let u = v.uuid(); (v.fault(u), Err(Error::EINVAL)) }
            Op::None => (v.fault(Uuid::new_v4()), Err(Error::ENOENT)),
            Op::Child(i) => { let r = v.fault(names[*i].0); (r, if null { Err(Error::ENOENT) } else { if ch[*i].s == S::Up { ch[*i].s = S::Faulted; } Ok(()) }) }
            Op::Leaf(i, j) => { let r = v.fault(names[*i].1[*j]); let c = &mut ch[*i]; (r, if null || c.s == S::Up { if c.leaves[*j] != S::Gone { c.leaves[*j] = S::Faulted; } if !null && c.leaves.iter().all(|s| *s != S::Up) { c.s = S::Faulted; } Ok(()) } else { Err(Error::ENOENT) }) }
            Op::Rebuild(i, j) => { let c = &mut ch[*i]; if null || c.s != S::Up { continue; } let RaidImpl::Raid(r) = &mut v else { continue }; let g = va::rebuild(r, *i, names[*i].1[*j]); if c.leaves[*j] == S::Faulted { c.leaves[*j] = S::Rebuilding; } (g, Ok(())) }
            Op::Restore(i) => { let r = v.restore(*i); let c = &mut ch[*i]; if null || c.s == S::Up { c.leaves.iter_mut().for_each(|s| if *s == S::Rebuilding { *s = S::Up; }); } if !null && c.s == S::Faulted { c.s = S::Up; } (r, Ok(())) }
            Op::Held(i) => { let RaidImpl::Raid(x) = &mut v else { continue }; let g = va::hold(x); let r = if k % 2 == 0 { v.fault(names[*i].0) } else { v.restore(*i) }; drop(g); (r, Err(Error::EAGAIN)) }
        };
        if got != want { return Err(format!("{when}: {o:?} answered {got:?} instead of {want:?}")); }
        check(&v, &ch, &when)?;
    }
    Ok(())
}
fn go(c: &Case) -> Option<String> {
    watch::case(fmt(c));
    match catch_unwind(AssertUnwindSafe(|| run(c))) { Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(p) => Some(format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) }
}
fn order(fails: &mut i32, n: &mut u64) {
    let mut all = vec![Health::Online]; all.extend((1..=255).map(deg)); all.extend([FaultedReason::User, FaultedReason::InsufficientRedundancy, FaultedReason::Removed].map(Health::Faulted));
    for a in &all { for b in &all { *n += 1; let w = worse(*a).cmp(&worse(*b)); if (a.cmp(b), a.partial_cmp(b), a == b, *a.max(b)) != (w, Some(w), w.is_eq(), if w.is_gt() { *a } else { *b }) { println!("FAIL\torder\t{a:?} and {b:?} compare {:?}", a.cmp(b)); *fails += 1; return } } }
}
fn rep(c: &Case, fails: &mut i32) {
    if go(c).is_none() { return }
    let mut best = c.clone(); let mut k = 0;
    while k < best.ops.len() { let mut t = best.clone(); t.ops.remove(k); if go(&t).is_some() { best = t; } else { k += 1; } }
    println!("FAIL\t{}\t{}", fmt(&best), go(&best).unwrap_or_default()); *fails += 1;
}
fn main() {
    std::panic::set_hook(Box::new(|_| {})); watch::start(30);
    let a: Vec<String> = std::env::args().collect(); let (mut n, mut fails) = (0, 0);
    if a[1] == "replay" { if a[3] == "order" { order(&mut fails, &mut n); } else { let c = parse(&a[3]); if let Some(e) = go(&c) { println!("FAIL\t{}\t{e}", a[3]); } } return; }
    order(&mut fails, &mut n);
    let thorough = a[3] == "thorough"; let seed = a[4].parse::<u64>().unwrap();
    let out = par(move |th| { let (mut n, mut fails) = (0u64, 0); search(thorough, seed, th, &mut n, &mut fails); n });
    n += out.iter().sum::<u64>(); println!("COUNT\t{n}\t{n}");
}
fn search(thorough: bool, seed: u64, th: usize, n: &mut u64, fails: &mut i32) {
    // more leaves, and more mirrors, than one byte counts
    let big = [(256usize, vec![0usize]), (257, (1..257).collect()), (258, (0..256).collect()), (300, (20..300).collect()), (255, (0..254).collect()), (256, (0..256).collect())];
    let (leaves, lost) = &big[th % big.len()];
    for c in [Case { parity: 0, shape: vec![(*leaves, false, lost.clone())], ops: vec![] }, Case { parity: 1, shape: vec![(*leaves, false, lost.clone()), (2, false, vec![]), (1, false, vec![])], ops: vec![Op::Leaf(1, 0), Op::Child(1)] },
              Case { parity: 2, shape: (0..5).map(|i| (110 + i, false, (0..100 - i + th).collect())).collect(), ops: vec![Op::Child(th % 5), Op::Restore(th % 5)] }] { *n += 1; rep(&c, fails); }
    let mut r = Rng((seed * 7919 + 5 + th as u64 * 104729) | 1); for _ in 0..20 { r.next(); }
    for t in 0..if thorough { 300_000 } else { 12_000 } {
        let k = if r.below(6) == 0 { 1 } else { [3, 5, 7][r.below(3) as usize] }; let parity = if k == 1 { 0 } else { 1 + r.below(k as u64 - 2) as i16 };
        let missing = r.below(3) == 0; let mut left = parity;
        let shape: Vec<_> = (0..k).map(|i| { let n = 1 + r.below(4) as usize; let m = missing && k > 1 && left > 0 && r.below(4) == 0; if m { left -= 1; }
            let mut l: Vec<usize> = if missing && !m { (0..n).filter(|_| r.below(5) == 0).collect() } else { vec![] }; if l.len() == n && left > 0 && k > 1 { left -= 1; } else if l.len() == n { l.pop(); } (n, m, l) }).collect();
        let ops = (0..r.below(14)).map(|_| { let i = r.below(k as u64) as usize; let j = r.below(shape[i].0 as u64) as usize; match r.below(15) { 0 | 1 => Op::Child(i), 2..=6 => Op::Leaf(i, j), 7 => Op::None, 8 => Op::Own, 9..=11 => Op::Rebuild(i, j), 12 | 13 => Op::Restore(i), _ => Op::Held(i) } }).collect();
        let c = Case { parity, shape, ops }; *n += 1; rep(&c, fails); if *fails > 2 { return }
        if t < 1 && th < 3 { println!("SAMPLE\t{}", fmt(&c)); }
    }
}
