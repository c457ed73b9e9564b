//! M01: operations on real mirrors whose leaves are complete, missing, faulted or being rebuilt, and fail at will: what every disk was asked, and where what is read comes from.
#![allow(dead_code, unused_imports, unused_macros, unused_mut)]
pub mod types; pub mod util; pub mod label; pub mod vdev; pub mod vpshim; pub mod vdev_file; pub mod vdev_block; pub mod mirror; pub mod raid; pub mod cluster;
pub use types::*; pub use util::*;
use vpshim::*; use mirror::Mirror; use divbuf::{DivBufShared, DivBufInaccessible}; use vdev::Vdev;
use std::{num::NonZeroU64, panic::{catch_unwind, AssertUnwindSafe}, sync::Arc};
@WATCH@
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn below(&mut self, n: u64) -> u64 { (self.next() >> 33) % n }
}
const LBAS: u64 = 400; const ZONE: u64 = 100; const LABELS: u64 = 8;
/// op, where, sizes; and the leaves (bits) that fail what they are asked.
/// w write, v write several buffers, p write a space map, e erase, f finish, o open, y sync; r read, s read several, m read a space map, a read all copies; z repair a zone; x k: fault leaf k, b: begin rebuilding it, t: restore
#[derive(Clone, Debug, PartialEq)] struct Op { k: char, at: u64, n: Vec<u64>, bad: u32 }
#[derive(Clone, Debug, PartialEq)] struct Case { leaves: usize, lost: u32, ops: Vec<Op> }
fn fmt(c: &Case) -> String { format!("{}/{}/{}", c.leaves, c.lost, c.ops.iter().map(|o| format!("{}{}:{}:{}", o.k, o.at, o.n.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("."), o.bad)).collect::<Vec<_>>().join(",")) }
fn parse(s: &str) -> Case { let f: Vec<&str> = s.split('/').collect();
    Case { leaves: f[0].parse().unwrap(), lost: f[1].parse().unwrap(), ops: f[2].split(',').filter(|x| !x.is_empty()).map(|x| { let p: Vec<&str> = x[1..].split(':').collect(); Op { k: x.as_bytes()[0] as char, at: p[0].parse().unwrap(), n: p[1].split('.').filter(|y| !y.is_empty()).map(|y| y.parse().unwrap()).collect(), bad: p[2].parse().unwrap() } }).collect() } }
#[derive(Clone, Copy, Debug, PartialEq)] enum S { Up, Gone, Rebuilding, Faulted }
type Res = std::result::Result<(), String>;
fn data(seed: u64, lba: u64) -> Vec<u8> { let mut v = vec![(seed * 31 + lba * 7 + 1) as u8; 4096]; v[..8].copy_from_slice(&(seed << 32 | lba).to_le_bytes()); v }
fn run(c: &Case) -> Res {
    let disks: Vec<_> = (0..c.leaves).map(|_| { let d = Disk::new(LBAS); d.lock().deletable = true; d }).collect();
    let paths: Vec<String> = (0..c.leaves).map(|j| { let p = mypath(&format!("/m{j}")); plug(&p, disks[j].clone()); p }).collect();
    let mut sim = Sim::new(disks.clone()); let mut ch = |_: usize| 0usize;
    let m = Mirror::create(&paths, NonZeroU64::new(ZONE)); paths.iter().for_each(|p| unplug(p));
    let mut m = m.map_err(|e| format!("{e:?}"))?;
    let names: Vec<Uuid> = m.status().leaves.iter().map(|l| l.uuid).collect();
    let mut st = vec![S::Up; c.leaves];
    for j in 0..c.leaves { if c.lost >> j & 1 == 1 { mirror::vp_access::lose(&mut m, j); st[j] = S::Gone; } }
    for (j, d) in disks.iter().enumerate() { for l in LABELS..LBAS { d.set(l, data(1000 + j as u64, l)); } d.take_log(); }
    for (k, o) in c.ops.iter().enumerate() {
        let when = format!("operation {k} ({}{}:{:?}, leaves {st:?}, failing {:b})", o.k, o.at, o.n, o.bad);
        match o.k {
            'x' | 'b' | 't' => {
                let j = o.at as usize % c.leaves; let (r, want) = match o.k { 'x' => (m.fault(names[j]), match st[j] { S::Gone => S::Gone, _ => S::Faulted }), 'b' => (m.rebuild(names[j]), match st[j] { S::Faulted => S::Rebuilding, s => s }), _ => { m.restore(); st.iter_mut().for_each(|s| if *s == S::Rebuilding { *s = S::Up }); (Ok(()), st[j]) } };
                st[j] = want; if r != Ok(()) { return Err(format!("{when}: {r:?}")); }
                if disks.iter().any(|d| !d.take_log().is_empty()) { return Err(format!("{when}: a disk was accessed")); }
                continue;
            }
            _ => {}
        }
        let up: Vec<usize> = (0..c.leaves).filter(|j| st[*j] == S::Up).collect();
        if o.k == 'z' && up.is_empty() { continue; }
        for (j, d) in disks.iter().enumerate() { let f = (o.bad >> j & 1 == 1).then_some(5); d.lock().fail = [f; 3]; }
        let before: Vec<Vec<Vec<u8>>> = disks.iter().map(|d| (0..LBAS).map(|l| d.block(l)).collect()).collect();
        let total: u64 = o.n.iter().sum(); let content: Vec<Vec<u8>> = (0..total).map(|i| data(k as u64 + 1, o.at + i)).collect();
        let fails = |j: &usize| o.bad >> *j & 1 == 1;
        match o.k {
            'w' | 'v' | 'p' | 'e' | 'f' | 'o' | 'y' => {
                let mut at = 0; let mut parts: Vec<DivBufShared> = o.n.iter().map(|n| { let v = content[at..at + *n as usize].concat(); at += *n as usize; DivBufShared::from(v) }).collect();
                let r = match o.k {
                    'w' => { let f = m.write_at(parts[0].try_const().unwrap(), o.at); sim.block_on(f, &mut ch) }
                    'v' => { let f = m.writev_at(parts.iter().map(|p| p.try_const().unwrap()).collect(), o.at); sim.block_on(f, &mut ch) }
                    'p' => { let f = m.write_spacemap(parts.iter().map(|p| p.try_const().unwrap()).collect(), o.at as u32, 0); sim.block_on(f, &mut ch) }
                    'e' => { let f = m.erase_zone(o.at * ZONE, (o.at + 1) * ZONE - 1); sim.block_on(f, &mut ch) }
                    'f' => { let f = m.finish_zone(o.at * ZONE, (o.at + 1) * ZONE - 1); sim.block_on(f, &mut ch) }
                    'o' => { let f = m.open_zone(o.at * ZONE); sim.block_on(f, &mut ch) }
                    _ => { let f = m.sync_all(); sim.block_on(f, &mut ch) }
                };
                // whatever was asked for in vain goes on in the background
                while sim.step(&mut ch) {}
                let asked = |j: usize| st[j] == S::Up || o.k == 'y' && st[j] == S::Rebuilding;
                let can_fail = matches!(o.k, 'w' | 'v' | 'p' | 'y' | 'e');
                let r = match r { Some(r) => r, None => return Err(format!("{when}: it is never done")) };
                let lba = match o.k { 'p' => LABELS + o.at, _ => o.at };
                for (j, d) in disks.iter().enumerate() {
                    let log = d.take_log();
                    if !asked(j) { if !log.is_empty() { return Err(format!("{when}: leaf {j}, which is out of service, was asked {log:?}")); } }
                    else { match o.k {
                        'w' | 'v' | 'p' => if log.len() != 1 || log[0].k != K::Write || log[0].lba != lba || log[0].lbas != total { return Err(format!("{when}: leaf {j} was asked {log:?} instead of the write")); },
                        'y' => if log.iter().filter(|e| e.k == K::Sync).count() != 1 || log.len() != 1 { return Err(format!("{when}: leaf {j} was asked {log:?} instead of a sync")); },
                        'e' => if log.len() != 1 || log[0].k != K::Erase || log[0].lba != (o.at * ZONE).max(log[0].lba) || log[0].lba >= (o.at + 1) * ZONE { return Err(format!("{when}: leaf {j} was asked {log:?} instead of the erasure")); },
                        _ => if log.iter().any(|e| e.k != K::Sync) { return Err(format!("{when}: leaf {j} was asked {log:?}")); },
                    } }
                    let writes = matches!(o.k, 'w' | 'v' | 'p') && asked(j) && !fails(&j);
                    for l in 0..LBAS { if o.k == 'e' && asked(j) && l >= o.at * ZONE && l < (o.at + 1) * ZONE { continue; } let want = if writes && l >= lba && l < lba + total { &content[(l - lba) as usize] } else { &before[j][l as usize] }; if d.block(l) != *want { return Err(format!("{when}: block {l} of leaf {j} holds {:?}..., not {:?}...", &d.block(l)[..8], &want[..8])); } }
                }
                let bad = can_fail && (0..c.leaves).any(|j| asked(j) && fails(&j) && o.k != 'e');
                if o.k != 'e' && r.is_err() != bad || o.k == 'e' && r.is_err() && !(0..c.leaves).any(|j| asked(j) && fails(&j)) { return Err(format!("{when}: answered {r:?}; {}", if bad { "a leaf failed" } else { "no leaf failed" })); }
            }
            'r' | 's' | 'm' => {
                let bufs: Vec<DivBufShared> = o.n.iter().map(|n| DivBufShared::from(vec![0xa5u8; *n as usize * 4096])).collect();
                let r = match o.k {
                    'r' => { let f = m.read_at(bufs[0].try_mut().unwrap(), o.at); sim.block_on(f, &mut ch) }
                    's' => { let f = m.readv_at(bufs.iter().map(|b| b.try_mut().unwrap()).collect(), o.at); sim.block_on(f, &mut ch) }
                    _ => { let f = m.read_spacemap(bufs[0].try_mut().unwrap(), o.at as u32); sim.block_on(f, &mut ch) }
                };
                let lba = if o.k == 'm' { LABELS + o.at } else { o.at };
                let r = match r { Some(r) => r, None => return Err(format!("{when}: it is never done")) };
                let mut asked = vec![];
                for (j, d) in disks.iter().enumerate() {
                    let log = d.take_log(); if log.is_empty() { continue; }
                    if st[j] != S::Up { return Err(format!("{when}: leaf {j}, which is not complete, was asked {log:?}")); }
                    if log.len() != 1 || log[0].k != K::Read || log[0].lba != lba || log[0].lbas != total { return Err(format!("{when}: leaf {j} was asked {log:?} instead of the read")); }
                    asked.push(j);
                }
                let good: Vec<usize> = asked.iter().cloned().filter(|j| !fails(j)).collect();
                match r {
                    Ok(()) => {
                        if good.len() != 1 { return Err(format!("{when}: read although {} leaves that work were asked (asked: {asked:?})", good.len())); }
                        let got = bufs.iter().map(|b| b.try_const().unwrap().to_vec()).collect::<Vec<_>>().concat(); let want = before[good[0]][lba as usize..(lba + total) as usize].concat();
                        if got != want { return Err(format!("{when}: what was read is not what leaf {} holds", good[0])); }
                    }
                    Err(e) => {
                        if up.is_empty() { if e != Error::ENXIO { return Err(format!("{when}: no complete leaf, but {e:?}")); } }
                        else if asked != up || !good.is_empty() { return Err(format!("{when}: fails with {e:?} after asking {asked:?}")); }
                        else if e != Error::EIO { return Err(format!("{when}: the leaves' error EIO is reported as {e:?}")); }
                    }
                }
                for (j, d) in disks.iter().enumerate() { for l in 0..LBAS { if d.block(l) != before[j][l as usize] { return Err(format!("{when}: reading changed leaf {j}")); } } }
            }
            'a' => {
                let f = m.read_long(total, o.at); let r = sim.block_on(async move { f.await.map(|i| i.map(|b| b.try_const().unwrap().to_vec()).collect::<Vec<_>>()) }, &mut ch);
                let r = match r { Some(r) => r, None => return Err(format!("{when}: it is never done")) };
                for (j, d) in disks.iter().enumerate() { let log = d.take_log(); let want = up.len() > 1 && st[j] == S::Up; if log.len() != want as usize || want && (log[0].k, log[0].lba, log[0].lbas) != (K::Read, o.at, total) { return Err(format!("{when}: leaf {j} was asked {log:?}")); } }
                let mut want: Vec<Vec<u8>> = up.iter().filter(|j| !fails(j)).map(|&j| before[j][o.at as usize..(o.at + total) as usize].concat()).collect(); want.sort();
                match r { Ok(mut v) => { v.sort(); if up.len() <= 1 || v != want || v.is_empty() { return Err(format!("{when}: {} copies, there are {} that can be read", v.len(), want.len())); } }
                    Err(e) => { let w = if up.len() <= 1 { Error::EINTEGRITY } else { Error::EIO }; if up.len() > 1 && !want.is_empty() || e != w { return Err(format!("{when}: fails with {e:?}")); } } }
            }
            _ => {
                let (s, e) = m.zone_limits(o.at as u32); let n = if o.n.is_empty() { e - s } else { o.n[0].min(e - s) };
                let f = m.repair_zone(o.at as u32, if o.n.is_empty() { None } else { NonZeroU64::new(n) }); let r = sim.block_on(f, &mut ch); while sim.step(&mut ch) {}
                let r = match r { Some(r) => r, None => return Err(format!("{when}: it is never done")) };
                for (j, d) in disks.iter().enumerate() {
                    let log = d.take_log(); let ok = match st[j] { S::Up => log.iter().all(|e| e.k == K::Read), S::Rebuilding => log.iter().all(|e| e.k == K::Write && e.lba >= s && e.lba + e.lbas <= s + n), _ => log.is_empty() };
                    if !ok { return Err(format!("{when}: leaf {j} was asked {log:?}")); }
                    if st[j] != S::Rebuilding && !log.is_empty() && !st.contains(&S::Rebuilding) { return Err(format!("{when}: leaf {j} was read with none to rebuild")); }
                    for l in 0..LBAS { let b = d.block(l); let inside = st[j] == S::Rebuilding && l >= s && l < s + n;
                        if !inside && b != before[j][l as usize] { return Err(format!("{when}: block {l} of leaf {j} changed")); }
                        if inside && r.is_ok() && !up.iter().any(|&u| b == before[u][l as usize]) { return Err(format!("{when}: block {l} of leaf {j} is not what a complete leaf holds")); } }
                }
                if r.is_err() && (0..c.leaves).all(|j| !fails(&j)) { return Err(format!("{when}: {r:?} although no leaf failed")); }
                if r.is_ok() && st.iter().enumerate().any(|(j, s)| *s == S::Rebuilding && fails(&j)) { return Err(format!("{when}: Ok although a leaf could not be written")); }
            }
        }
        if let Some(e) = disks.iter().flat_map(|d| d.lock().errors.clone()).next() { return Err(format!("{when}: {e}")); }
        if let Some(p) = sim.panics.pop() { return Err(format!("{when}: panic: {p}")); }
    }
    Ok(())
}
fn go(c: &Case) -> Option<String> {
    watch::case(fmt(c));
    let r = match catch_unwind(AssertUnwindSafe(|| run(c))) { Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(p) => Some(format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) };
    watch::done(); r
}
fn rep(c: &Case, fails: &mut i32) {
    if go(c).is_none() { return }
    let mut best = c.clone(); let mut k = 0;
    while k < best.ops.len() { let mut t = best.clone(); t.ops.remove(k); if go(&t).is_some() { best = t; } else { k += 1; } }
    println!("FAIL\t{}\t{}", fmt(&best), go(&best).unwrap_or_default()); *fails += 1;
}
fn main() {
    std::panic::set_hook(Box::new(|_| {})); watch::start(30);
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" { let c = parse(&a[3]); if let Some(e) = go(&c) { println!("FAIL\t{}\t{e}", a[3]); } return; }
    let thorough = a[3] == "thorough"; let seed = a[4].parse::<u64>().unwrap();
    let out = par(move |th| { let (mut n, mut fails) = (0u64, 0); search(thorough, seed, th, &mut n, &mut fails); n });
    let n = out.iter().sum::<u64>(); println!("COUNT\t{n}\t{n}");
}
fn search(thorough: bool, seed: u64, th: usize, n: &mut u64, fails: &mut i32) {
    let mut r = Rng((seed * 7919 + 11 + th as u64 * 104729) | 1); for _ in 0..20 { r.next(); }
    for t in 0..if thorough { 40_000 } else { 1_200 } {
        let most = if r.below(4) == 0 { 6 } else { 4 }; let leaves = 1 + r.below(most) as usize;
        let lost = if r.below(3) == 0 { r.next() as u32 & ((1 << leaves) - 1) } else { 0 }; let lost = if lost == (1 << leaves) - 1 { 0 } else { lost };
        let ops = (0..1 + r.below(16)).map(|_| {
            let k = b"wwvvpeefoyyrrrrrssssmmmaazzxxxxbbbt"[r.below(35) as usize] as char;
            let bad = if r.below(2) == 0 { 0 } else { r.next() as u32 & r.next() as u32 & ((1 << leaves) - 1) | if r.below(3) == 0 { r.next() as u32 & ((1 << leaves) - 1) } else { 0 } };
            let (at, v): (u64, Vec<u64>) = match k {
                'w' | 'r' | 'a' => (10 + r.below(LBAS - 30), vec![1 + r.below(5)]),
                'v' | 's' => (10 + r.below(LBAS - 30), (0..1 + r.below(4)).map(|_| 1 + r.below(4)).collect()),
                'p' | 'm' => (r.below(2), vec![1]), 'e' | 'f' | 'o' => (1 + r.below(3), vec![]),
                'z' => (r.below(4), if r.below(2) == 0 { vec![] } else { vec![1 + r.below(ZONE)] }), 'x' | 'b' => (r.below(leaves as u64), vec![]), _ => (0, vec![]) };
            Op { k, at, n: v, bad }
        }).collect();
        let c = Case { leaves, lost, ops }; *n += 1; rep(&c, fails); if *fails > 2 { return }
        if t < 1 && th < 3 { println!("SAMPLE\t{}", fmt(&c)); }
    }
}
