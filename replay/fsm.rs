//! Z01, Z02: the real cluster.rs on an in-memory device that checks every call, against a reference model.
#![allow(dead_code, unused_imports, unused_macros, unused_mut)]
pub mod types;
#[path = "@REPO@/bfffs-core/src/util.rs"] pub mod util;
#[path = "@REPO@/bfffs-core/src/vdev.rs"] pub mod vdev;
pub mod label;
pub mod raid;
pub mod cluster;
use cluster::{Cluster, vp_access::F};
use divbuf::{DivBuf, DivBufShared};
use raid::{RaidImpl, Zs};
use std::{collections::{BTreeMap, BTreeSet}, panic::{catch_unwind, AssertUnwindSafe}, sync::Arc};
use types::{Error, TxgT};
use vdev::Vdev;

@WATCH@
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn below(&mut self, n: u64) -> u64 { (self.next() >> 33) % n }
}
const B: u64 = 4096;
/// W: write (blocks, bytes short of a whole block); X: free the i-th live extent; Y: free its second half; L: flush as a transaction's end does; A: erase dead zones; R: save, load and go on with what was loaded
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { W(u64, u64), X(u64), Y(u64), L, A, R }
fn fmt(ops: &[Op]) -> String { ops.iter().map(|o| match o { Op::W(a, b) => format!("w{a}:{b}"), Op::X(i) => format!("x{i}"), Op::Y(i) => format!("y{i}"), Op::L => "l".into(), Op::A => "a".into(), Op::R => "r".into() }).collect::<Vec<_>>().join(",") }
fn parse(s: &str) -> Vec<Op> { s.split(',').filter(|x| !x.is_empty()).map(|s| { let f: Vec<u64> = s[1..].split(':').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    match s.as_bytes()[0] { b'w' => Op::W(f[0], f[1]), b'x' => Op::X(f[0]), b'y' => Op::Y(f[0]), b'l' => Op::L, b'a' => Op::A, _ => Op::R } }).collect() }
/// zones, blocks per zone, blocks between zones, blocks the device pads a flush to
#[derive(Clone, Copy, Debug)]
struct Geo { n: u32, size: u64, gap: u64, stripe: u64 }
fn geo(s: &str) -> Geo { let f: Vec<u64> = s.split('/').map(|x| x.parse().unwrap()).collect(); Geo { n: f[0] as u32, size: f[1], gap: f[2], stripe: f[3] } }
fn run<T>(f: impl std::future::Future<Output = T>) -> T { futures::executor::block_on(f) }
/// what is known about a zone: allocated so far (with waste), live blocks, first and last transaction
#[derive(Clone, Debug, PartialEq)]
enum Z { Empty, Dead, Open { alloc: u64, live: u64, t0: u32 }, Closed { live: u64, t0: u32, t1: u32 } }
struct Model { g: Geo, z: Vec<Z>, live: Vec<(u64, u64)>, txg: u32 }
impl Model {
    fn lim(&self, z: usize) -> (u64, u64) { let s = 10 + z as u64 * (self.g.size + self.g.gap); (s, s + self.g.size) }
    fn zone(&self, lba: u64) -> usize { ((lba - 10) / (self.g.size + self.g.gap)) as usize }
    fn allocated(&self) -> u64 { self.z.iter().map(|z| match z { Z::Open { alloc, .. } => *alloc, Z::Closed { .. } => self.g.size, _ => 0 }).sum() }
    fn used(&self) -> u64 { self.z.iter().map(|z| match z { Z::Open { live, .. } | Z::Closed { live, .. } => *live, _ => 0 }).sum() }
    fn dev(&self) -> Vec<Zs> { self.z.iter().map(|z| match z { Z::Empty => Zs::Empty, Z::Dead => Zs::Finished, Z::Open { alloc, .. } => Zs::Open(*alloc), Z::Closed { .. } => Zs::Finished }).collect() }
}
fn agree(c: &Cluster, d: &RaidImpl, m: &Model) -> Result<(), String> {
    let e = d.0.errors(); if !e.is_empty() { return Err(format!("the device was misused: {}", e.join("; "))); }
    if c.allocated() != m.allocated() { return Err(format!("allocated() is {}, the zones hold {}", c.allocated(), m.allocated())); }
    if c.used() != m.used() { return Err(format!("used() is {}, live blocks are {}", c.used(), m.used())); }
    let v = F::of(c);
    for i in 0..m.g.n {
        let (k, alloc, used, avail) = v[i as usize];
        let w = match &m.z[i as usize] { Z::Empty => ('E', 0, 0, 0), Z::Dead => ('D', 0, 0, 0), Z::Open { alloc, live, .. } => ('O', *alloc, *live, m.g.size - alloc), Z::Closed { live, .. } => ('C', m.g.size, *live, 0) };
        if (k, used, avail) != (w.0, w.2, w.3) || k != 'D' && alloc != w.1 { return Err(format!("zone {i} is ({k}, allocated {alloc}, used {used}, available {avail}), should be {:?}", w)); }
    }
    let mut z = 0;
    for i in 0..m.g.n as usize {
        if let Z::Closed { live, t0, t1 } = m.z[i] {
            match c.find_closed_zone(z) {
                Some(k) if k.zid as usize == i => {
                    let want = (m.lim(i).0, m.g.size - live, m.g.size, TxgT(t0), TxgT(t1));
                    if (k.start, k.freed_blocks, k.total_blocks, k.txgs.start, k.txgs.end) != want { return Err(format!("closed zone {i} is reported as {k:?}, should be {want:?}")); }
                }
                k => return Err(format!("the first closed zone from {z} is reported as {k:?}, it is {i}")),
            }
            z = i as u32 + 1;
        }
    }
    if let Some(k) = c.find_closed_zone(z) { return Err(format!("zone {} is reported closed", k.zid)); }
    let got = d.0.zones_now();
    if got != m.dev() { return Err(format!("the device's zones are {got:?}, should be {:?}", m.dev())); }
    Ok(())
}
/// loading what is stored must give the state in memory; a changed byte must be rejected
fn reload(d: &RaidImpl, m: &Model, r: &mut Rng, harm: usize) -> Result<(), String> {
    let open = |d2: RaidImpl| -> Result<Result<Cluster, Error>, String> { catch_unwind(AssertUnwindSafe(|| run(Cluster::open(d2)))).map_err(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()) };
    let d2 = d.0.copy();
    match open(d2.clone()) { Err(p) => return Err(format!("loading panics: {p}")), Ok(Err(e)) => return Err(format!("loading gives {e:?}")), Ok(Ok(c)) => agree(&c, &d2, m).map_err(|e| format!("after loading: {e}"))? }
    let blocks = (m.g.n as usize).div_ceil(255);
    for _ in 0..harm {
        let b = r.below(blocks as u64) as usize; let zones = if b + 1 < blocks { 255 } else { m.g.n as usize - b * 255 };
        let d2 = d.0.copy();
        let at = if r.below(3) == 0 { r.below(12) as usize } else { r.below((12 + 16 * zones) as u64) as usize };
        let x = if r.below(2) == 0 { 1u8 << r.below(8) } else { 1 + r.below(255) as u8 };
        d2.0.poke(0, b * 4096 + at, x);
        match open(d2) { Ok(Err(Error::EINTEGRITY)) => {}
            Err(p) => return Err(format!("with byte {at} of stored block {b} changed by {x:#x}, loading panics instead of reporting EINTEGRITY: {p}")),
            Ok(Err(e)) => return Err(format!("with byte {at} of stored block {b} changed by {x:#x}, loading reports {e:?}")),
            Ok(Ok(_)) => return Err(format!("with byte {at} of stored block {b} changed by {x:#x}, loading succeeds")) }
    }
    if harm > 0 && blocks > 1 {
        let d2 = d.0.copy(); let (a, b) = (r.below(blocks as u64) as usize, r.below(blocks as u64) as usize);
        if a != b { d2.0.duplicate(0, a, b);
            match open(d2) { Ok(Err(Error::EINTEGRITY)) => {} o => return Err(format!("with block {a} stored in place of block {b}, loading gives {}", match o { Err(p) => format!("a panic: {p}"), Ok(Err(e)) => format!("{e:?}"), Ok(Ok(_)) => "no error".into() })) } }
        let d2 = d.0.copy(); let b = r.below(blocks as u64) as usize; d2.0.zero(0, b);
        match open(d2) { Ok(Err(Error::EINTEGRITY)) => {} o => return Err(format!("with block {b} lost (zeros), loading gives {}", match o { Err(p) => format!("a panic: {p}"), Ok(Err(e)) => format!("{e:?}"), Ok(Ok(_)) => "no error".into() })) }
    }
    Ok(())
}
fn history(g: Geo, ops: &[Op], seed: u64, prop: &str) -> Result<(), String> {
    let mut r = Rng(seed | 1);
    let d = RaidImpl::new(g.n, g.size, g.gap, g.stripe);
    let mut m = Model { g, z: vec![Z::Empty; g.n as usize], live: vec![], txg: 1 };
    let mut d = d; let mut c = Cluster::create(d.clone());
    let e = |t: usize, o: &Op, s: String| format!("step {} ({}): {s}", t + 1, fmt(&[*o]));
    for (t, o) in ops.iter().enumerate() {
        match *o {
            Op::W(n, short) => {
                let buf = DivBufShared::from(vec![t as u8; (n * B - short) as usize]);
                // the model: an open zone that has room; if none has, the first empty zone is opened and the others are closed
                let fit = (0..m.z.len()).find(|&i| matches!(m.z[i], Z::Open { alloc, .. } if g.size - alloc >= n));
                let got = c.write(buf.try_const().unwrap(), TxgT(m.txg));
                let zi = fit.or_else(|| if g.size < n { None } else { (0..m.z.len()).find(|&i| m.z[i] == Z::Empty) });
                let open: Vec<usize> = (0..m.z.len()).filter(|&i| matches!(m.z[i], Z::Open { .. })).collect();
                // a write that finds no room leaves them open: it has no future in which their last stripes would be written
                for i in open { if zi.is_some() && fit.is_none_or(|f| i < f) { if let Z::Open { live, t0, .. } = m.z[i] { m.z[i] = Z::Closed { live, t0, t1: m.txg + 1 }; } } }
                match (got, zi) {
                    (Err(Error::ENOSPC), None) => {}
                    (Ok((lba, f)), Some(_)) => {
                        if run(f).is_err() { return Err(e(t, o, "the write failed".into())); }
                        if let Some(l) = m.live.iter().find(|l| lba < l.0 + l.1 && l.0 < lba + n) { return Err(e(t, o, format!("blocks {lba}..{} were handed out while {}..{} is live", lba + n, l.0, l.0 + l.1))); }
                        let z = m.zone(lba); if z >= m.z.len() || lba < m.lim(z).0 || lba + n > m.lim(z).1 { return Err(e(t, o, format!("blocks {lba}..{} do not lie inside a zone", lba + n))); }
                        if m.z[z] == Z::Empty { m.z[z] = Z::Open { alloc: 0, live: 0, t0: m.txg }; }
                        match &mut m.z[z] { Z::Open { alloc, live, .. } => { if lba != 10 + z as u64 * (g.size + g.gap) + *alloc { return Err(e(t, o, format!("block {lba} is not where zone {z} continues"))); } *alloc += n; *live += n; }
                            q => return Err(e(t, o, format!("blocks in zone {z}, which is {q:?}"))) }
                        m.live.push((lba, n));
                    }
                    (Ok((lba, _)), None) => return Err(e(t, o, format!("handed out block {lba} though there is no room"))),
                    (Err(x), _) => return Err(e(t, o, format!("reported {x:?}"))),
                }
            }
            Op::X(i) | Op::Y(i) => if !m.live.is_empty() {
                let k = (i % m.live.len() as u64) as usize; let (mut lba, mut n) = m.live.swap_remove(k);
                if let Op::Y(_) = o { if n > 1 { let h = n / 2; m.live.push((lba, h)); lba += h; n -= h; } }
                c.free(lba, n);
                let z = m.zone(lba);
                match &mut m.z[z] { Z::Open { live, .. } => *live -= n, Z::Closed { live, .. } => { *live -= n; if *live == 0 { m.z[z] = Z::Dead; } } _ => unreachable!() }
            },
            Op::L => {
                for idx in 0..2 {
                    if run(c.flush(idx)).is_err() { return Err(e(t, o, "flush failed".into())); }
                    for i in 0..m.z.len() { if let Z::Open { alloc, .. } = &mut m.z[i] { *alloc = alloc.div_ceil(g.stripe) * g.stripe; } }
                }
                if prop == "Z02" { reload(&d, &m, &mut r, 0).map_err(|s| e(t, o, s))?; }
                m.txg += 1;
            }
            Op::A => { if run(c.advance_transaction(TxgT(m.txg))).is_err() { return Err(e(t, o, "failed".into())); } for z in m.z.iter_mut() { if *z == Z::Dead { *z = Z::Empty; } } }
            Op::R => {
                for idx in 0..2 { let _ = run(c.flush(idx)); for i in 0..m.z.len() { if let Z::Open { alloc, .. } = &mut m.z[i] { *alloc = alloc.div_ceil(g.stripe) * g.stripe; } } }
                m.txg += 1;
                reload(&d, &m, &mut r, if prop == "Z02" { 4 } else { 0 }).map_err(|s| e(t, o, s))?;
                d = d.0.copy(); c = match run(Cluster::open(d.clone())) { Ok(c) => c, Err(x) => return Err(e(t, o, format!("loading gives {x:?}"))) };
            }
        }
        agree(&c, &d, &m).map_err(|s| e(t, o, s))?;
    }
    Ok(())
}
/// the map on its own, with several open zones. o: open size n with l blocks; t: try_allocate; f: free; w: waste; c: finish; k: kill if nothing is used; p: reap
fn maps(n: u32, ops: &[(u8, u64, u64)]) -> Result<(), String> {
    let mut f = F::new(n); let mut txg = 1u32;
    #[derive(Clone, Debug, PartialEq)] enum M { E, D, O { start: u64, total: u64, alloc: u64, freed: u64 }, C { total: u64, freed: u64 } }
    let mut m = vec![M::E; n as usize];
    for (t, &(o, a, b)) in ops.iter().enumerate() {
        let what = format!("step {} ({}{a}:{b})", t + 1, o as char);
        let pick = |p: fn(&M) -> bool, m: &Vec<M>| { let v: Vec<usize> = (0..m.len()).filter(|&i| p(&m[i])).collect(); if v.is_empty() { None } else { Some(v[a as usize % v.len()]) } };
        match o {
            b'o' => { let (tot, l) = (4 + a % 12, b % 6); let z = f.find_empty();
                match z { None => if m.iter().any(|x| *x == M::E) { return Err(format!("{what}: no empty zone is found")) },
                    Some(z) => { if z >= n || m[z as usize] != M::E { return Err(format!("{what}: zone {z} is taken for empty; it is {:?}", m.get(z as usize))); }
                        // any empty zone may be opened
                        let z = if a % 2 == 0 { z as usize } else { pick(|x| *x == M::E, &m).unwrap() };
                        let s = z as u64 * 100; let r = f.open_zone(z as u32, s, s + tot, l, txg);
                        let want = if l > tot { Err(()) } else if l > 0 { Ok(Some((z as u32, s))) } else { Ok(None) };
                        if r != want { return Err(format!("{what}: opening zone {z} gives {r:?}, should be {want:?}")); }
                        if l <= tot { m[z] = M::O { start: s, total: tot, alloc: l, freed: 0 }; } } } }
            b't' => { let sp = 1 + b % 8; let (r, full) = f.try_allocate(sp);
                let ok = |x: &M| matches!(x, M::O { total, alloc, .. } if total - alloc >= sp);
                match r { None => { if let Some(i) = (0..m.len()).find(|&i| ok(&m[i])) { return Err(format!("{what}: no room is found for {sp} blocks; zone {i} has it")); }
                        let w: Vec<u32> = (0..n).filter(|&i| matches!(m[i as usize], M::O { .. })).collect(); if full != w { return Err(format!("{what}: nearly full zones {full:?}, should be {w:?}")); } }
                    Some((z, lba)) => match m.get_mut(z as usize) { Some(M::O { start, total, alloc, .. }) if *total - *alloc >= sp && lba == *start + *alloc => { *alloc += sp;
                            if full.iter().any(|&i| i as usize >= m.len() || !matches!(m[i as usize], M::O { total, alloc, .. } if total - alloc < sp)) { return Err(format!("{what}: {full:?} are reported nearly full")); } }
                        x => return Err(format!("{what}: {sp} blocks at {lba} in zone {z}, which is {x:?}")) } } }
            b'f' => if let Some(z) = pick(|x| match x { M::O { alloc, freed, .. } => alloc > freed, M::C { total, freed } => total > freed, _ => false }, &m) {
                let l = match &mut m[z] { M::O { alloc, freed, .. } => { let l = 1 + b % (*alloc - *freed); *freed += l; l } M::C { total, freed } => { let l = 1 + b % (*total - *freed); *freed += l; l } _ => unreachable!() }; f.free(z as u32, l); },
            b'w' => if let Some(z) = pick(|x| matches!(x, M::O { total, alloc, .. } if total > alloc), &m) { if let M::O { total, alloc, freed, .. } = &mut m[z] { let l = 1 + b % (*total - *alloc); *alloc += l; *freed += l; f.waste_space(z as u32, l); } },
            b'c' => if let Some(z) = pick(|x| matches!(x, M::O { .. }), &m) { if let M::O { total, alloc, freed, .. } = m[z].clone() { let w = f.finish_zone(z as u32, txg); if w != total - alloc { return Err(format!("{what}: finishing zone {z} wastes {w}, should be {}", total - alloc)); } m[z] = M::C { total, freed: freed + total - alloc }; } },
            b'k' => if let Some(z) = pick(|x| matches!(x, M::C { total, freed } if total == freed), &m) { if let M::C { total, .. } = m[z] { let w = f.kill_zone(z as u32); if w != total { return Err(format!("{what}: killing zone {z} releases {w}, should be {total}")); } m[z] = M::D; } },
            _ => { let w: Vec<u32> = (0..n).filter(|&i| m[i as usize] == M::D).collect(); let r = f.reap(); if r != w { return Err(format!("{what}: reaped {r:?}, dead are {w:?}")); } for x in m.iter_mut() { if *x == M::D { *x = M::E; } } txg += 1; }
        }
        let (mut ta, mut tu) = (0, 0);
        let v = f.view();
        for i in 0..n as usize {
            let w = match &m[i] { M::E => ('E', 0, 0, 0), M::D => ('D', 0, 0, 0), M::O { total, alloc, freed, .. } => ('O', *alloc, alloc - freed, total - alloc), M::C { total, freed } => ('C', *total, total - freed, 0) };
            ta += w.1; tu += w.2;
            if (v[i].0, v[i].2, v[i].3) != (w.0, w.2, w.3) || w.0 != 'D' && v[i].1 != w.1 { return Err(format!("{what}: zone {i} is {:?}, should be {w:?}", v[i])); }
        }
        if f.totals() != (ta, tu) { return Err(format!("{what}: totals (allocated, used) are {:?}, the zones make {:?}", f.totals(), (ta, tu))); }
    }
    Ok(())
}
fn guarded(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(r) => r, Err(e) => Err(format!("panics: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) }
}
fn one(input: &str, prop: &str) -> Result<(), String> {
    let f: Vec<&str> = input.split(';').collect();
    match f[0] {
        "h" => { let g = geo(f[1]); let ops = parse(f[2]); let s: u64 = f[3].parse().unwrap(); guarded(|| history(g, &ops, s, prop)) }
        "m" => { let n: u32 = f[1].parse().unwrap(); let ops: Vec<(u8, u64, u64)> = f[2].split(',').filter(|x| !x.is_empty()).map(|s| { let p: Vec<u64> = s[1..].split(':').map(|x| x.parse().unwrap()).collect(); (s.as_bytes()[0], p[0], p[1]) }).collect(); guarded(|| maps(n, &ops)) }
        _ => { eprintln!("bad input"); std::process::exit(3) }
    }
}
/// drops operations while the input still fails
fn shrink(input: String, what: String, prop: &str) -> (String, String) {
    let (mut best, mut msg) = (input, what); let mut tries = 0;
    loop {
        let f: Vec<String> = best.split(';').map(|x| x.to_string()).collect(); let ops: Vec<&str> = f[2].split(',').collect(); let mut hit = false;
        for i in (0..ops.len()).rev() {
            let mut o = ops.clone(); o.remove(i); let mut g = f.clone(); g[2] = o.join(","); let c = g.join(";"); tries += 1;
            if let Err(w) = one(&c, prop) { best = c; msg = w; hit = true; break; }
            if tries > 400 { return (best, msg); }
        }
        if !hit { return (best, msg); }
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    watch::start(60);
    let a: Vec<String> = std::env::args().collect(); let prop = a[2].as_str();
    if a[1] == "replay" { match one(&a[3], prop) { Ok(()) => println!("COUNT\t1\t1"), Err(e) => println!("FAIL\t{}\t{}", a[3], e) } return; }
    let thorough = a[3] == "thorough"; let seed: u64 = a[4].parse().unwrap(); let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let (mut n, mut fails) = (0u64, 0); let mut seen = std::collections::HashSet::new();
    let t0 = std::time::Instant::now();
    let mut go = |input: String, n: &mut u64, fails: &mut i32| {
        watch::case(input.clone()); *n += 1; seen.insert(input.clone());
        if *n < 4 { println!("SAMPLE\t{input}"); }
        if let Err(e) = one(&input, prop) { let (i, w) = shrink(input, e, prop); println!("FAIL\t{i}\t{w}"); *fails += 1; }
        watch::done();
    };
    let many = if thorough { 400000 } else { 40000 };
    for k in 0..many {
        if fails >= 3 || t0.elapsed().as_secs() > if thorough { 500 } else { 100 } { break; }
        let stripe = 1 + r.below(3); let size = stripe * (2 + r.below(6));
        let big = k % 40 == 7; let g = Geo { n: if big { [254, 255, 256, 300, 510, 511, 600][r.below(7) as usize] } else { 1 + r.below(6) as u32 }, size: if big { size.max(6) } else { size }, gap: r.below(3), stripe };
        let len = if big { 40 + r.below(400) } else { 1 + r.below(40) };
        let rare = r.below(4); let churn = r.below(3);
        let ops: Vec<Op> = (0..len).map(|_| match r.below(if rare == 0 { 14 } else { 11 }) { 0..=4 => { let w = 1 + r.below(if big { size } else { g.size.min(5) + 1 }); Op::W(w, if r.below(4) == 0 { r.below(B) } else { 0 }) }
            5 | 6 => if churn == 0 { Op::L } else { Op::X(r.below(64)) }, 7 | 8 => if churn == 2 && r.below(2) == 0 { Op::Y(r.below(64)) } else { Op::X(r.below(64)) }, 9 => Op::L, 10 => Op::A, _ => Op::R }).collect();
        // zones around a block boundary of the stored map change after the rest was stored
        let ops = if big && k % 80 == 7 { let fill = [252, 253, 254, 255, 256, 508, 509, 510][r.below(8) as usize]; let mut o: Vec<Op> = vec![Op::W(g.size, 0); fill]; o.push(Op::L); let mut t = ops; t.truncate(1 + r.below(6) as usize); if r.below(2) == 0 { let z = fill as u64 - 1 - r.below(4); t.insert(0, Op::X(z)); } o.extend(t); o } else { ops };
        let mut ops = ops; if prop == "Z02" || big { ops.push(Op::R); ops.push(Op::W(1, 0)); }
        go(format!("h;{}/{}/{}/{};{};{}", g.n, g.size, g.gap, g.stripe, fmt(&ops), r.next() >> 40), &mut n, &mut fails);
        if prop == "Z01" {
            let zn = 1 + r.below(7); let len = 1 + r.below(60); let bias = r.below(3);
            let ops: Vec<String> = (0..len).map(|_| format!("{}{}:{}", (match bias { 0 => b"otfwckp", 1 => b"ottffck", _ => b"ooffckp" })[r.below(7) as usize] as char, r.below(40), r.below(40))).collect();
            go(format!("m;{zn};{}", ops.join(",")), &mut n, &mut fails);
        }
    }
    println!("COUNT\t{n}\t{}", seen.len());
}
