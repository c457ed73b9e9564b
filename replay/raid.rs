//! B01: histories of writes, flushes, reads, losses and repairs on real RAID devices over in-memory disks, compared with a plain array.
#![allow(dead_code, unused_imports, unused_macros, unused_mut)]
pub mod types; pub mod util; pub mod label; pub mod vdev; pub mod vpshim; pub mod vdev_file; pub mod vdev_block; pub mod mirror; pub mod raid; pub mod cluster;
pub use types::*; pub use util::*;
use vpshim::*; use vdev::{Vdev, Health, FaultedReason}; use mirror::Mirror; use raid::{RaidImpl, VdevRaidApi, vp_access as va}; use label::{LabelReader, LabelWriter};
use divbuf::DivBufShared;
use std::{collections::BTreeMap, num::NonZeroU64, panic::{catch_unwind, AssertUnwindSafe}, path::Path, sync::Arc};
@WATCH@
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn below(&mut self, n: u64) -> u64 { (self.next() >> 33) % n }
}
/// o: open a zone; w: write bytes to it; u: flush it; x: finish it; e: erase and forget it; r: read blocks; l: read them every way there is while some children hold garbage;
/// f: fault a child; g: fault a leaf; b: blocks of a child cannot be read; h: blocks of one leaf; k: a child fails every operation; s: write and read a space map; L: write labels; M: replace a child's leaves by a new one, copied; v: close and open the device
#[derive(Clone, Debug, PartialEq)] struct Op(char, Vec<u64>);
#[derive(Clone, Debug, PartialEq)] struct Case { n: u64, k: u64, f: u64, chunk: u64, width: u64, missing: u64, zone: u64, seed: u64, ops: Vec<Op> }
fn fmt(c: &Case) -> String { format!("{}.{}.{}.{}.{}.{}.{}.{}/{}", c.n, c.k, c.f, c.chunk, c.width, c.missing, c.zone, c.seed, c.ops.iter().map(|o| format!("{}{}", o.0, o.1.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("."))).collect::<Vec<_>>().join(",")) }
fn parse(s: &str) -> Case { let (a, b) = s.split_once('/').unwrap(); let g: Vec<u64> = a.split('.').map(|x| x.parse().unwrap()).collect();
    Case { n: g[0], k: g[1], f: g[2], chunk: g[3], width: g[4], missing: g[5], zone: g[6], seed: g[7], ops: b.split(',').filter(|x| !x.is_empty()).map(|x| Op(x.chars().next().unwrap(), x[1..].split('.').filter(|y| !y.is_empty()).map(|y| y.parse().unwrap()).collect())).collect() } }
const ZONES: u64 = 3;
/// with this seed, nothing is forgiven
const STRICT: u64 = 1;
#[derive(Clone, PartialEq)] enum Z { Empty, Open, Done }
struct World { c: Case, v: Option<RaidImpl>, sim: Sim, rng: Rng, disks: Vec<Vec<(String, Arc<Disk>, bool)>>, names: Vec<Uuid>, out: Vec<bool>, bad: Vec<bool>, gone: u64, zs: Vec<(Z, u64)>, data: BTreeMap<u64, Vec<u8>>, /// on disk up to here
    flushed: Vec<u64>, next: u64, sm: BTreeMap<u32, Vec<u8>>, dead: bool, over: bool }
type R<T> = std::result::Result<T, String>;
impl World {
    fn lost(&self) -> u64 { (0..self.c.n as usize).filter(|&i| self.out[i] || self.bad[i]).count() as u64 }
    fn v(&self) -> &RaidImpl { self.v.as_ref().unwrap() }
    fn go<T: 'static>(&mut self, f: impl std::future::Future<Output = T> + 'static, what: &str) -> R<T> {
        let Self { sim, rng, .. } = self;
        let r = sim.block_on(f, &mut |n| rng.below(n as u64) as usize);
        if let Some(p) = self.sim.panics.first() { return Err(format!("{what}: panic: {p}")); }
        r.ok_or(format!("{what} never completes"))
    }
    fn stripe(&self) -> u64 { if self.c.n == 1 { 1 } else { (self.c.k - self.c.f) * self.c.chunk } }
    fn limits(&self, z: usize) -> (u64, u64) { self.v().zone_limits(z as u32) }
    fn open_device(&mut self) -> R<()> {
        let mut ms = vec![]; self.names.clear();
        for i in 0..self.c.n as usize {
            if self.out[i] { let u = Uuid::new_v4(); self.names.push(u); ms.push((u, None)); continue; }
            let paths: Vec<String> = self.disks[i].iter().filter(|d| d.2).map(|d| { plug(&d.0, d.1.clone()); d.0.clone() }).collect();
            let m = Mirror::create(&paths, NonZeroU64::new(self.c.zone)).map_err(|e| format!("{e:?}"))?;
            paths.iter().for_each(|p| unplug(p));
            self.names.push(m.uuid()); ms.push((m.uuid(), Some(m)));
        }
        self.v = Some(if self.c.n == 1 { raid::NullRaid::create(ms.pop().unwrap().1.unwrap()).into() } else { va::raid(self.c.chunk, self.c.k as i16, self.c.f as i16, ms).into() });
        Ok(())
    }
    /// nothing is written or read outside the zone's part of any disk
    fn confined(&self, z: Option<usize>, what: &str) -> R<()> {
        for (i, m) in self.disks.iter().enumerate() { for d in m { for e in d.1.take_log() {
            let ok = match (e.k, z) { (K::Sync, _) => true, (_, Some(z)) => { let (a, b) = ((z as u64 * self.c.zone).max(10), (z as u64 + 1) * self.c.zone); e.lba >= a && e.lba + e.lbas <= b } (_, None) => e.lba + e.lbas <= 10 };
            if !ok { return Err(format!("{what}: child {i} got {:?} of {} blocks at {}, which is not that zone", e.k, e.lbas, e.lba)); }
        } if let Some(e) = d.1.lock().errors.first() { return Err(format!("{what}: child {i}: {e}")); } } }
        Ok(())
    }
    fn want(&self, lba: u64, n: u64) -> Vec<u8> { (lba..lba + n).flat_map(|l| self.data[&l].clone()).collect() }
    /// a read of several stripes may fail if a child not known to be lost cannot be read, unless strict; it never yields anything else
    fn read(&mut self, lba: u64, n: u64, when: &str, strict: bool) -> R<()> {
        let dbs = DivBufShared::from(vec![0xa5u8; n as usize * 4096]);
        let f = self.v().read_at(dbs.try_mut().unwrap(), lba);
        let r = self.go(f, when)?;
        let st = self.stripe(); let several = lba / st != (lba + n - 1) / st; let surprise = (0..self.c.n as usize).any(|i| self.bad[i] && !self.out[i]);
        if r.is_err() && several && surprise && !strict { return Ok(()) }
        if let Err(e) = r { return Err(format!("{when}: reading {n} blocks at {lba} failed with {e:?} with {} of {} tolerable children unreadable", self.lost(), self.c.f)); }
        let got = dbs.try_const().map_err(|_| format!("{when}: the read still holds the buffer"))?; let want = self.want(lba, n);
        if got[..] != want[..] { let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap(); return Err(format!("{when}: reading {n} blocks at {lba}: block {} differs from what was written there", lba + i as u64 / 4096)); }
        Ok(())
    }
    fn step(&mut self, o: &Op, k: usize) -> R<()> {
        let when = format!("operation {k} ({}{:?})", o.0, o.1); let a = |i: usize| o.1.get(i).copied().unwrap_or(0);
        let z = (a(0) % ZONES) as usize; let child = (a(0) % self.c.n) as usize; let null = self.c.n == 1;
        match o.0 {
            'o' => { if self.zs[z].0 != Z::Empty { return Ok(()) } let f = self.v().open_zone(z as u32); let r = self.go(f, &when)?; if !self.dead { r.map_err(|e| format!("{when}: {e:?}"))?; } let s = self.limits(z).0; self.zs[z] = (Z::Open, s); self.flushed[z] = s; self.confined(Some(z), &when)?; }
            'w' => { if self.zs[z].0 != Z::Open { return Ok(()) }
                let (lba, end) = (self.zs[z].1, self.limits(z).1); let len = a(1).min((end - lba) * 4096) as usize; if len == 0 { return Ok(()) }
                self.next += 1; let mut r = Rng((self.next.wrapping_mul(0x9e3779b97f4a7c15) ^ self.c.seed) | 1); let mut d = vec![0u8; len]; for c in d.chunks_mut(8) { let x = r.next().to_le_bytes(); c.copy_from_slice(&x[..c.len()]); }
                let blocks = len.div_ceil(4096);
                for b in 0..blocks { let mut x = d[b * 4096..len.min((b + 1) * 4096)].to_vec(); x.resize(4096, 0); self.data.insert(lba + b as u64, x); }
                let dbs = DivBufShared::from(d); let f = self.v().write_at(dbs.try_const().unwrap(), z as u32, lba);
                self.go(f, &when)?.map_err(|e| format!("{when}: {e:?}"))?;
                self.zs[z].1 += blocks as u64; let s = self.limits(z).0; self.flushed[z] = self.flushed[z].max(s + (self.zs[z].1 - s) / self.stripe() * self.stripe()); self.confined(Some(z), &when)?; }
            // a write while some children fail every write: it succeeds if they are tolerable, and fails if every stripe has lost more than its parity. Nothing follows
            'y' => { if self.zs[z].0 != Z::Open || self.dead { return Ok(()) } let (s, lba, end) = (self.limits(z).0, self.zs[z].1, self.limits(z).1); let len = a(1).min((end - lba) * 4096) as usize; if len == 0 { return Ok(()) }
                let mut fails = 0; for i in 0..self.c.n as usize { let bad = a(2) >> i & 1 == 1; if bad { for d in &self.disks[i] { d.1.lock().fail[1] = Some(5); } } if bad || self.out[i] { fails += 1; } }
                let whole = (lba - s) % self.stripe() + (len as u64).div_ceil(4096) >= self.stripe();
                let dbs = DivBufShared::from(vec![7u8; len]); let f = self.v().write_at(dbs.try_const().unwrap(), z as u32, lba); let r = self.go(f, &when)?; self.over = true;
                if fails <= self.c.f && r.is_err() { return Err(format!("{when}: the write failed with {r:?} though only {fails} of {} tolerable children could not be written", self.c.f)); }
                if whole && fails > self.c.f + (self.c.n - self.c.k) && r.is_ok() { return Err(format!("{when}: the write succeeded though {fails} children could not be written and each stripe tolerates {}", self.c.f)); } }
            'u' | 'x' => { if self.zs[z].0 == Z::Empty || (o.0 == 'x' && self.zs[z].0 != Z::Open) { return Ok(()) }
                let (s, p) = (self.limits(z).0, self.zs[z].1); let pad = if self.zs[z].0 == Z::Done { 0 } else { (self.stripe() - (p - s) % self.stripe()) % self.stripe() };
                if o.0 == 'u' { let (n, f) = self.v().flush_zone(z as u32); self.go(f, &when)?.map_err(|e| format!("{when}: {e:?}"))?; if n != pad { return Err(format!("{when}: flushing reports {n} blocks of padding; {pad} complete the stripe")); } }
                else { let f = self.v().finish_zone(z as u32); let r = self.go(f, &when)?; if !self.dead { r.map_err(|e| format!("{when}: {e:?}"))?; } self.zs[z].0 = Z::Done; }
                for b in 0..pad { self.data.insert(p + b, vec![0; 4096]); } if self.zs[z].0 == Z::Open || o.0 == 'x' { self.zs[z].1 += pad; self.flushed[z] = self.zs[z].1; } self.confined(Some(z), &when)?; }
            'e' => { if self.zs[z].0 != Z::Done { return Ok(()) } let f = self.v().erase_zone(z as u32); let r = self.go(f, &when)?; if !self.dead { r.map_err(|e| format!("{when}: {e:?}"))?; } self.confined(Some(z), &when)?; let (s, e) = self.limits(z); self.data.retain(|l, _| *l < s || *l >= e); self.zs[z] = (Z::Empty, s); self.flushed[z] = s; }
            'r' => { let (s, p) = (self.limits(z).0, self.zs[z].1); if p <= s || self.zs[z].0 == Z::Empty { return Ok(()) } let off = a(1) % (p - s); let n = (a(2) % 200).max(1).min(p - s - off); self.read(s + off, n, &when, false)?; self.confined(Some(z), &when)?; }
            'l' => { let (s, p) = (self.limits(z).0, self.flushed[z]); if null || p <= s || self.zs[z].0 == Z::Empty { return Ok(()) } let st = self.stripe(); let off = a(1) % (p - s); let n = (a(2) % 60).max(1).min(p - s - off); let _ = st;
                if self.out.iter().filter(|x| **x).count() as u64 >= self.c.f { return Ok(()) }
                let mut left = self.c.f - self.lost(); let mut saved = vec![];
                for i in 0..self.c.n as usize { if a(3) >> i & 1 == 1 && left > 0 && !self.out[i] && !self.bad[i] { left -= 1;
                    for d in &self.disks[i] { let keys: Vec<u64> = d.1.lock().data.keys().copied().filter(|l| *l >= 10).collect(); for l in keys { let b = d.1.block(l); let mut x = b.clone(); for y in x.iter_mut() { *y ^= 0x5c ^ (l as u8); } saved.push((d.1.clone(), l, b)); d.1.set(l, x); } } } }
                let f = self.v().read_long(n, s + off); let r = self.go(f, &when)?; let want = self.want(s + off, n);
                let res = match r { Err(e) => Err(format!("{when}: {e:?}")), Ok(it) => { let mut c = 0; let mut hit = false; for d in it { c += 1; let d = d.try_const().unwrap(); if d.len() != want.len() { return Err(format!("{when}: a reconstruction of {} bytes for {n} blocks", d.len())); } if d[..] == want[..] { hit = true; } }
                    if hit { Ok(()) } else { Err(format!("{when}: none of the {c} reconstructions of {n} blocks at {} is the data, though only {} of {} tolerable children are lost or corrupt", s + off, self.c.f - left, self.c.f)) } } };
                for (d, l, b) in saved { d.set(l, b); } res?; self.confined(Some(z), &when)?; }
            'f' => { if null || self.out[child] || (self.lost() >= self.c.f && !self.bad[child]) { return Ok(()) } let u = self.names[child]; let r = self.v.as_mut().unwrap().fault(u); if r != Ok(()) { return Err(format!("{when}: {r:?}")); } self.out[child] = true; }
            'g' => { if null && self.gone > 0 { return Ok(()) } let up: Vec<usize> = (0..self.disks[child].len()).filter(|j| self.disks[child][*j].2).collect(); if self.out[child] || up.len() < 2 { return Ok(()) } let j = up[a(1) as usize % up.len()];
                let st = self.v().status(); let leaves: Vec<_> = st.mirrors[child].leaves.iter().filter(|l| l.health == Health::Online).map(|l| l.uuid).collect(); if leaves.len() != up.len() { return Err(format!("{when}: {} leaves online, not {}", leaves.len(), up.len())); }
                let u = leaves[up.iter().position(|x| *x == j).unwrap()]; let r = self.v.as_mut().unwrap().fault(u); if r != Ok(()) { return Err(format!("{when}: {r:?}")); } self.disks[child][j].2 = false; let _ = self.disks[child][j].1.take_log(); }
            'b' | 'k' => { if null || self.out[child] || (!self.bad[child] && self.lost() >= self.c.f) || self.c.f == 0 { return Ok(()) } self.bad[child] = true;
                for d in &self.disks[child] { let mut s = d.1.lock(); if o.0 == 'k' { s.fail = [Some(5); 3]; self.dead = true; } else { let from = 10 + a(1) % (ZONES * self.c.zone - 10); for l in from..from + 1 + a(2) % 40 { s.bad.insert(l); } } } }
            // one leaf of a mirror cannot be read, the others can
            'h' => { let up: Vec<usize> = (0..self.disks[child].len()).filter(|j| self.disks[child][*j].2).collect(); if self.out[child] || up.len() < 2 || self.bad[child] || (!null && self.lost() >= self.c.f && self.c.seed != STRICT) { return Ok(()) }
                if null { if self.gone > 0 { return Ok(()) } self.gone = 1; } else { self.bad[child] = true; }
                let d = &self.disks[child][up[a(1) as usize % up.len()]].1; let from = 10 + a(2) % (ZONES * self.c.zone - 10); for l in from..from + 1 + a(3) % 40 { d.lock().bad.insert(l); } }
            's' => { let idx = (a(0) % 2) as u32; self.next += 1; let d = vec![self.next as u8 ^ 0x3c; 4096]; if a(1) % 2 == 0 && !self.dead { let dbs = DivBufShared::from(d.clone()); let f = self.v().write_spacemap(vec![dbs.try_const().unwrap()], idx, 0); self.go(f, &when)?.map_err(|e| format!("{when}: writing the space map: {e:?}"))?; self.sm.insert(idx, d); }
                if let Some(w) = self.sm.get(&idx).cloned() { let dbs = DivBufShared::from(vec![0u8; 4096]); let f = self.v().read_spacemap(dbs.try_mut().unwrap(), idx); self.go(f, &when)?.map_err(|e| format!("{when}: reading the space map: {e:?}"))?; if dbs.try_const().map_err(|_| format!("{when}: the read still holds the buffer"))?[..] != w[..] { return Err(format!("{when}: the space map read back differs")); } } self.confined(None, &when)?; }
            'L' => { if self.dead { return Ok(()) } let idx = (a(0) % 2) as u32; let mut lw = LabelWriter::new(idx); lw.serialize(&self.next).unwrap(); let f = self.v().write_label(lw, TxgT(1 + self.next as u32)); self.go(f, &when)?.map_err(|e| format!("{when}: {e:?}"))?; self.confined(None, &when)?;
                for (i, m) in self.disks.iter().enumerate() { if self.out[i] { continue; } for d in m { if !d.2 { continue; } let buf: Vec<u8> = (0..4).flat_map(|b| d.1.block(idx as u64 * 4 + b)).collect();
                    let mut r = LabelReader::new(buf).map_err(|e| format!("{when}: child {i}'s label: {e:?}"))?; let b: vdev_block::Label = r.deserialize().map_err(|_| format!("{when}: child {i}'s label"))?; let ml: mirror::Label = r.deserialize().map_err(|_| format!("{when}: child {i}'s label"))?; let rl: raid::Label = r.deserialize().map_err(|_| format!("{when}: child {i}'s label"))?; let x: u64 = r.deserialize().map_err(|_| format!("{when}: child {i}'s label"))?; let _ = b;
                    if rl.uuid() != self.v().uuid() || x != self.next || rl.iter_children().copied().ne(self.names.iter().copied()) || ml.uuid != self.names[i] { return Err(format!("{when}: child {i}'s label does not describe the device")); } } } }
            'M' => { if self.out[child] || self.bad[child] || self.dead || (null && self.gone > 0) { return Ok(()) }
                let p = mypath(&format!("/m{}.{}", child, self.next)); self.next += 1; let d = Disk::new(ZONES * self.c.zone); d.lock().immediate = self.c.seed & 1 == 0; d.lock().fill = Some(|l| 0x77 ^ l as u8); plug(&p, d.clone()); self.sim.disks.push(d.clone());
                let u = self.names[child]; let r = self.v.as_mut().unwrap().attach(u, Path::new(&p)); unplug(&p); if r != Ok(()) { return Err(format!("{when}: attach: {r:?}")); }
                for z in 0..ZONES as usize { for again in [false, true] {
                    // where an open zone's repair stops is a known finding: it must stay inside the zone, and what it left out is copied when the zone is finished
                    let l = match self.zs[z].0 { Z::Empty => break, Z::Done => None, Z::Open => match NonZeroU64::new(self.zs[z].1 - self.limits(z).0) { None => break, l => l } };
                    let f = self.v().repair_mirror_zone(child, z as u32, l); self.go(f, &when)?.map_err(|e| format!("{when}: repairing zone {z}: {e:?}"))?; self.disks[child].push((p.clone(), d.clone(), true)); let c = self.confined(Some(z), &when); self.disks[child].pop(); c?;
                    if l.is_none() || self.c.seed == STRICT || again { break } self.step(&Op('x', vec![z as u64]), k)?; } }
                for (i, b) in &self.sm { d.set(8 + *i as u64, b.clone()); }
                let r = self.v.as_mut().unwrap().restore(child); if r != Ok(()) { return Err(format!("{when}: restore: {r:?}")); }
                let st = self.v().status(); let leaves: Vec<_> = st.mirrors[child].leaves.iter().filter(|l| l.health == Health::Online).map(|l| l.uuid).collect();
                if leaves.len() < 2 { return Err(format!("{when}: the rebuilt leaf is not online")); }
                for u in &leaves[..leaves.len() - 1] { let r = self.v.as_mut().unwrap().fault(*u); if r != Ok(()) { return Err(format!("{when}: {r:?}")); } }
                for x in self.disks[child].iter_mut() { x.2 = false; } self.disks[child].push((p, d, true)); }
            'v' => { if self.dead { return Ok(()) } for z in 0..ZONES { if self.zs[z as usize].0 == Z::Open { self.step(&Op('u', vec![z]), k)?; } }
                self.v = None; { let Self { sim, rng, .. } = self; sim.run(&mut |n| rng.below(n as u64) as usize); if let Some(p) = sim.panics.first() { return Err(format!("{when}: panic: {p}")); } }
                self.open_device()?; for z in 0..ZONES as usize { if self.zs[z].0 == Z::Open { let n = self.zs[z].1 - self.limits(z).0; let f = self.v().reopen_zone(z as u32, n); self.go(f, &when)?.map_err(|e| format!("{when}: {e:?}"))?; self.confined(Some(z), &when)?; } } }
            _ => unreachable!(),
        }
        Ok(())
    }
}
fn run(c: &Case) -> R<()> {
    let disks: Vec<Vec<(String, Arc<Disk>, bool)>> = (0..c.n).map(|i| (0..c.width).map(|j| { let d = Disk::new(ZONES * c.zone); { let mut s = d.lock(); s.immediate = c.seed & 1 == 0; s.fill = Some(|l| (l as u8).wrapping_mul(37) ^ 0x11); } (mypath(&format!("/d{i}.{j}")), d, true) }).collect()).collect();
    let sim = Sim::new(disks.iter().flatten().map(|d| d.1.clone()).collect());
    let n = c.n as usize; let out: Vec<bool> = (0..n).map(|i| c.missing >> i & 1 == 1).collect();
    if out.iter().filter(|x| **x).count() as u64 > c.f || out.iter().all(|x| *x) { return Ok(()) }
    let mut w = World { c: c.clone(), v: None, sim, rng: Rng(c.seed.wrapping_mul(2654435761) | 1), disks, names: vec![], out, bad: vec![false; n], gone: 0, zs: vec![], data: BTreeMap::new(), flushed: vec![0; ZONES as usize], next: 0, sm: BTreeMap::new(), dead: false, over: false };
    w.open_device()?;
    let mut last = 0;
    for z in 0..ZONES as usize { let (a, b) = w.limits(z); if a < last || b > w.v().size() || a % w.stripe() != 0 || b % w.stripe() != 0 && c.n > 1 || a >= b { return Err(format!("zone {z} is [{a}, {b}) of {} blocks, after {last}, in stripes of {}", w.v().size(), w.stripe())); } last = b; w.zs.push((Z::Empty, a)); w.flushed[z] = a;
        for l in [a, b - 1, (a + b) / 2] { if w.v().lba2zone(l) != Some(z as u32) { return Err(format!("block {l} of zone {z} is said to be in zone {:?}", w.v().lba2zone(l))); } } }
    for (k, o) in c.ops.iter().enumerate() { w.step(o, k)?; if w.over { return Ok(()) } }
    // everything ever written is still there
    for z in 0..ZONES as usize { let (s, p) = (w.limits(z).0, w.zs[z].1); if w.zs[z].0 != Z::Empty && p > s { w.read(s, p - s, "at the end", c.seed == STRICT)?; for o in [0, (p - s) / 2, p - s - 1] { w.read(s + o, 1, "at the end", true)?; } } }
    Ok(())
}
fn go(c: &Case) -> Option<String> {
    watch::case(fmt(c));
    match catch_unwind(AssertUnwindSafe(|| run(c))) { Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(p) => Some(format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) }
}
fn rep(c: &Case, fails: &mut i32) {
    if go(c).is_none() { return }
    let mut best = c.clone(); let mut k = 0;
    while k < best.ops.len() { let mut t = best.clone(); t.ops.remove(k); if go(&t).is_some() { best = t; } else { k += 1; } }
    println!("FAIL\t{}\t{}", fmt(&best), go(&best).unwrap_or_default()); *fails += 1;
}
fn main() {
    if std::env::var("VPBT").is_err() { std::panic::set_hook(Box::new(|_| {})); } watch::start(60);
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" { let c = parse(&a[3]); if let Some(e) = go(&c) { println!("FAIL\t{}\t{e}", a[3]); } return; }
    let thorough = a[3] == "thorough"; let seed = a[4].parse::<u64>().unwrap();
    let out = par(move |th| { let (mut n, mut fails) = (0u64, 0); search(thorough, seed, th, &mut n, &mut fails); n });
    let n = out.iter().sum::<u64>(); println!("COUNT\t{n}\t{n}");
}
fn search(thorough: bool, seed: u64, th: usize, n: &mut u64, fails: &mut i32) {
    let mut r = Rng((seed * 7919 + 11 + th as u64 * 104729) | 1); for _ in 0..20 { r.next(); }
    if th == 0 { for k in KNOWN { *n += 1; if let Some(e) = go(&parse(k)) { println!("FAIL\t{k}\t{e}"); } } }
    for t in 0..if thorough { 12_000 } else { 500 } {
        let c = random(&mut r); *n += 1; rep(&c, fails); if *fails > 2 { return }
        if t < 1 && th < 2 { println!("SAMPLE\t{}", fmt(&c)); }
    }
}
/// known findings: what they are is in KNOWN_FINDINGS
const KNOWN: [&str; 3] = ["3.3.1.4.1.0.66.1/o0,w0.110120,M2", "11.7.3.5.1.0.135.1/o1,k7,w1.383223", "3.3.1.4.2.0.66.1/o0,h0.0.0.39,h1.0.0.39,h2.0.0.39,w0.65536"];
fn random(r: &mut Rng) -> Case {
    let n = [1, 3, 3, 5, 5, 5, 7, 7, 11][r.below(9) as usize]; let k = if n == 1 { 1 } else { 2 + r.below(n - 1) }; let f = if n == 1 { 0 } else { 1 + r.below((k - 1).min(4)) };
    let chunk = [1, 2, 2, 3, 4, 5][r.below(6) as usize]; let width = [1, 1, 2, 3][r.below(4) as usize];
    let missing = if n > 1 && r.below(4) == 0 { let mut m = 0u64; for _ in 0..1 + r.below(f) { m |= 1 << r.below(n); } m } else { 0 };
    let zone = [64, 96, 100, 128, 200][r.below(5) as usize].max(30 + chunk * k * 3); let zone = if n == 1 { 64 } else { zone };
    let st = if n == 1 { 1 } else { (k - f) * chunk } * 4096;
    let mut ops = vec![Op('o', vec![r.below(2)])];
    for _ in 0..3 + r.below(22) {
        let z = r.below(10) / 4; let i = r.below(n);
        let len = match r.below(8) { 0 => 1 + r.below(4096), 1 => 4096 * (1 + r.below(5)), 2 => st, 3 => st * (1 + r.below(4)), 4 => 1 + r.below(st), 5 => st * (1 + r.below(3)) + r.below(st), 6 => (st * (1 + r.below(3))).saturating_sub(1 + r.below(4095)).max(1), _ => 1 + r.below(st * 5) };
        let nb = match r.below(4) { 0 => 1 + r.below(3), 1 => st / 4096, 2 => 1 + r.below(st / 4096 * 2), _ => 1 + r.below(150) };
        ops.push(match r.below(40) { 0..=1 => Op('o', vec![z]), 2..=13 => Op('w', vec![z, len]), 14 | 15 => Op('u', vec![z]), 16 => Op('x', vec![z]), 17 => Op('e', vec![z]), 18..=26 => Op('r', vec![z, r.below(1 << 20), nb]), 27..=29 => Op('l', vec![z, r.below(1 << 20), nb, r.below(1 << n)]),
            30 => Op('f', vec![i]), 31 => Op('g', vec![i, r.below(3)]), 32 => Op('b', vec![i, r.below(1 << 20), r.below(40)]), 33 => Op('h', vec![i, r.below(3), r.below(1 << 20), r.below(40)]), 34 if r.below(3) == 0 => Op('k', vec![i]), 34..=36 => Op('s', vec![r.below(2), r.below(2)]), 37 => Op('L', vec![r.below(2)]), 38 => Op('M', vec![i]), _ => Op('v', vec![]) });
    }
    if r.below(6) == 0 { let len = match r.below(3) { 0 => st, 1 => st * 2 + 5, _ => 1 + r.below(st * 4) }; let mask = match r.below(3) { 0 => r.below(1 << n), 1 => 1 << r.below(n), _ => r.below(1 << n) | r.below(1 << n) }; ops.push(Op('y', vec![r.below(2), len, mask])); }
    Case { n, k, f, chunk, width, missing, zone, seed: 2 + r.below(1 << 30), ops }
}
