//! L02, R01: pools of real mirrors and RAID devices living through writes, syncs, crashes, lost and returning disks, rebuilds and reopenings; what is reported, promised by labels and read back compared with a reference.
#![allow(dead_code, unused_imports, unused_macros, unused_mut)]
pub mod types; pub mod util; pub mod label; pub mod vdev; pub mod vpshim; pub mod vdev_file; pub mod vdev_block; pub mod mirror; pub mod raid; pub mod cluster;
pub use types::*; pub use util::*;
use vpshim::*; use label::*; use vdev::{Vdev, Health, FaultedReason}; use mirror::Mirror; use cluster::{Cluster, RepairMirrorTask}; use divbuf::DivBufShared;
use std::{collections::{BTreeMap, BTreeSet, HashMap}, num::{NonZeroU8, NonZeroU64}, panic::{catch_unwind, AssertUnwindSafe}, path::Path, sync::Arc};
@WATCH@
const STRICT: u64 = 999_999_999;
type R<T> = std::result::Result<T, String>;
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn below(&mut self, n: u64) -> u64 { (self.next() >> 33) % n }
}
/// W bytes: write; F n: free the n-th extent; S how who: sync, or sync and crash on the way and reopen (R); X mirror leaf: fault; A mirror: attach a new disk; B mirror: begin the rebuild; P mirror n: n steps of it; Z mirror: finish it and return the leaf to service; R who order: reopen without a sync; G n: n extents, each of a whole zone; H leaf copy: spoil a copy of the label
type Op = (char, Vec<u64>);
#[derive(Clone, Debug, PartialEq)] struct Case { k: u64, f: u64, chunk: u64, leaves: Vec<u64>, zones: u64, lpz: u64, seed: u64, ops: Vec<Op> }
fn fmt(c: &Case) -> String { format!("{}.{}.{}.{}.{}.{}/{}/{}", c.k, c.f, c.chunk, c.zones, c.lpz, c.seed, c.leaves.iter().map(|n| n.to_string()).collect::<Vec<_>>().join("."), c.ops.iter().map(|o| format!("{}{}", o.0, o.1.iter().map(|n| n.to_string()).collect::<Vec<_>>().join("."))).collect::<Vec<_>>().join(",")) }
fn nums(s: &str) -> Vec<u64> { s.split('.').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() }
fn parse(s: &str) -> Case { let p: Vec<&str> = s.split('/').collect(); let g = nums(p[0]); Case { k: g[0], f: g[1], chunk: g[2], zones: g[3], lpz: g[4], seed: g[5], leaves: nums(p[1]), ops: p[2].split(',').filter(|x| !x.is_empty()).map(|x| (x.chars().next().unwrap(), nums(&x[1..]))).collect() } }
#[derive(Clone, Copy, Debug, PartialEq)] enum St { Up, Rebuilding, Faulted, Gone }
struct Leaf { m: usize, uuid: Uuid, path: String, disk: Arc<Disk>, st: St, /** was in service when the label with this number was written to it */ whole: Option<u32>, /** written to since it was last synced */ loose: bool }
#[derive(Clone, Debug)] struct Ext { n: u64, seed: u64, len: usize }
#[derive(Clone)] struct Snap { live: BTreeMap<u64, Ext>, used: u64 }
struct W { c: Case, leaves: Vec<Leaf>, mirrors: Vec<Uuid>, lost: Vec<bool>, v: Option<Cluster>, id: Uuid, sim: Sim, rng: Rng, txg: u32, live: BTreeMap<u64, Ext>, unchecked: BTreeSet<u64>, snaps: HashMap<u32, Snap>, members: HashMap<(usize, u32), Vec<Uuid>>, tasks: Vec<Option<RepairMirrorTask>>, seq: u64, over: bool }
fn data(e: &Ext) -> Vec<u8> { let mut r = Rng(e.seed.wrapping_mul(0x9e3779b97f4a7c15) | 1); let mut d = vec![0u8; e.n as usize * 4096]; for c in d.chunks_mut(64) { let x = r.next().to_le_bytes(); let k = c.len().min(8); c[..k].copy_from_slice(&x[..k]); } let l = e.len; d[l..].fill(0); d }
impl W {
    fn new(c: Case) -> R<W> {
        let mut leaves = vec![]; let mut ms = vec![]; let mut mirrors = vec![];
        let size = c.zones * c.lpz;
        for (i, n) in c.leaves.iter().enumerate() {
            let mut paths = vec![];
            for j in 0..*n { let path = mypath(&format!("/r{i}.{j}")); let disk = Disk::new(size); disk.lock().immediate = c.seed % 3 != 0; plug(&path, disk.clone()); leaves.push(Leaf { m: i, uuid: Uuid::new_v4(), path: path.clone(), disk, st: St::Up, whole: None, loose: false }); paths.push(path); }
            let m = Mirror::create(&paths, NonZeroU64::new(c.lpz)).map_err(|e| format!("{e:?}"))?;
            let s = m.status(); for j in 0..*n as usize { let k = leaves.len() - *n as usize + j; leaves[k].uuid = s.leaves[j].uuid; }
            mirrors.push(m.uuid()); ms.push(m);
        }
        let sim = Sim::new(leaves.iter().map(|l| l.disk.clone()).collect());
        let n = ms.len();
        let v = Cluster::create(raid::create(NonZeroU64::new(c.chunk), c.k as i16, c.f as i16, ms)); let id = v.uuid();
        let rng = Rng(c.seed.wrapping_mul(0x9e3779b97f4a7c15) | 1);
        Ok(W { c, leaves, mirrors, lost: vec![false; n], v: Some(v), id, sim, rng, txg: 1, live: BTreeMap::new(), unchecked: BTreeSet::new(), snaps: HashMap::new(), members: HashMap::new(), tasks: (0..n).map(|_| None).collect(), seq: 0, over: false })
    }
    fn v(&self) -> &'static Cluster { unsafe { &*(self.v.as_ref().unwrap() as *const Cluster) } }
    fn go<T: 'static>(&mut self, f: impl std::future::Future<Output = T> + 'static, what: &str) -> R<T> {
        let Self { sim, rng, .. } = self;
        let r = sim.block_on(f, &mut |n| rng.below(n as u64) as usize);
        if let Some(p) = self.sim.panics.first() { return Err(format!("{what}: panic: {p}")); }
        r.ok_or(format!("{what} never completes"))
    }
    fn up(&self, m: usize) -> Vec<usize> { (0..self.leaves.len()).filter(|&l| self.leaves[l].m == m && self.leaves[l].st == St::Up).collect() }
    fn in_mirror(&self, m: usize, s: St) -> bool { self.leaves.iter().any(|l| l.m == m && l.st == s) }
    /// what the disk's label says: the first copy that is intact
    fn promise(&self, l: usize) -> Option<u32> {
        for b in [0, 4] { if (b..b + 4).any(|x| self.leaves[l].disk.lock().bad.contains(&x)) { continue; } let a: Vec<u8> = (b..b + 4).flat_map(|x| self.leaves[l].disk.block(x)).collect(); if let Ok(mut r) = LabelReader::new(a) { return Some(vdev_block::vp_access::txg(&mut r)); } }
        None
    }
    fn check_labels(&self, when: &str) -> R<()> {
        for (i, l) in self.leaves.iter().enumerate() { if l.st != St::Rebuilding { continue; } let Some(p) = self.promise(i) else { continue };
            // a leaf just returned to service has its old label until the next sync
            if let Some(q) = (0..self.leaves.len()).filter(|&j| self.leaves[j].m == l.m && self.leaves[j].whole.is_some()).filter_map(|j| self.promise(j)).max() { if p >= q { return Err(format!("{when}: the leaf being rebuilt claims to be up to date with transaction {p}, its complete sibling with {q}")); } } }
        Ok(())
    }
    fn states(&self, when: &str) -> R<()> {
        let s = self.v().status();
        if s.mirrors.len() != self.mirrors.len() { return Err(format!("{when}: {} mirrors, not {}", s.mirrors.len(), self.mirrors.len())); }
        for (m, x) in s.mirrors.iter().enumerate() {
            if x.uuid != self.mirrors[m] { return Err(format!("{when}: mirror {m} has another name")); }
            if self.lost[m] { continue; }
            for l in self.leaves.iter().filter(|l| l.m == m) {
                let got = x.leaves.iter().find(|y| y.uuid == l.uuid).map(|y| y.health);
                let want = match l.st { St::Up => Health::Online, St::Rebuilding => Health::Degraded(NonZeroU8::new(1).unwrap()), St::Faulted => Health::Faulted(FaultedReason::User), St::Gone => { if matches!(got, None | Some(Health::Faulted(FaultedReason::Removed))) { continue } Health::Faulted(FaultedReason::Removed) } };
                if got != Some(want) { return Err(format!("{when}: leaf {} is {got:?}, it should be {want:?}", l.path.split('-').next().unwrap())); }
            }
            for y in &x.leaves { if !self.leaves.iter().any(|l| l.uuid == y.uuid) { return Err(format!("{when}: mirror {m} has a leaf nobody gave it")); } }
        }
        Ok(())
    }
    fn read(&mut self, times: usize, when: &str) -> R<()> {
        for _ in 0..times { for (lba, e) in self.live.clone() {
            if self.unchecked.contains(&lba) { continue; }
            let dbs = DivBufShared::from(vec![0xa5u8; e.n as usize * 4096]); let f = self.v().read(dbs.try_mut().unwrap(), lba);
            self.go(f, when)?.map_err(|x| format!("{when}: reading {} blocks at {lba}: {x:?}", e.n))?;
            let got = dbs.try_const().map_err(|_| format!("{when}: the read still holds the buffer"))?; let want = data(&e);
            if got[..] != want[..] { let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap(); return Err(format!("{when}: block {} is not what was written there", lba + i as u64 / 4096)); }
        } }
        Ok(())
    }
    fn write(&mut self, len: usize, when: &str) -> R<bool> {
        self.seq += 1; let e = Ext { n: (len as u64).div_ceil(4096), seed: self.seq ^ self.c.seed << 20, len };
        let d = data(&e); let dbs = DivBufShared::from(d[..len].to_vec());
        match self.v().write(dbs.try_const().unwrap(), TxgT(self.txg)) { Err(Error::ENOSPC) => { self.sim.run(&mut |_| 0); Ok(false) } Err(x) => Err(format!("{when}: {x:?}")),
            Ok((lba, f)) => { self.go(f, when)?.map_err(|x| format!("{when}: {x:?}"))?;
                if let Some((l, x)) = self.live.range(..lba + e.n).next_back() { if l + x.n > lba { return Err(format!("{when}: the write was given blocks in use")); } }
                self.unchecked.remove(&lba); self.live.insert(lba, e); Ok(true) } }
    }
    /// a sync up to the given stage; the leaves in `refuse` do not take the first label
    fn sync(&mut self, stage: u64, refuse: &[usize], when: &str) -> R<()> {
        let t = TxgT(self.txg); let v = self.v();
        let f = v.flush(0); self.go(f, when)?.map_err(|e| format!("{when}: flush: {e:?}"))?;
        let f = v.sync_all(); self.go(f, when)?.map_err(|e| format!("{when}: sync: {e:?}"))?;
        let snap = Snap { live: self.live.clone(), used: v.used() };
        self.snaps.insert(self.txg, snap);
        for m in 0..self.mirrors.len() { let u = self.leaves.iter().filter(|l| l.m == m && v.status().mirrors.get(m).is_some_and(|x| x.leaves.iter().any(|y| y.uuid == l.uuid))).map(|l| l.uuid).collect(); self.members.insert((m, self.txg), u); }
        for i in 0..2u32 {
            let mut lw = LabelWriter::new(i); lw.serialize(&self.txg).unwrap();
            if i == 0 { for &l in refuse { self.leaves[l].disk.lock().fail[1] = Some(5); } }
            let f = v.write_label(lw, t); let r = self.go(f, when)?; self.sim.run(&mut |_| 0);
            for l in &mut self.leaves { l.disk.lock().fail[1] = None; }
            for l in 0..self.leaves.len() { if self.leaves[l].st == St::Up && !self.lost[self.leaves[l].m] && (i == 1 || !refuse.contains(&l)) {
                // one that was not asked before another failed is as if it had refused
                if !refuse.is_empty() && self.promise(l) != Some(self.txg) { continue; } self.leaves[l].whole = Some(self.txg);
                if self.promise(l) != Some(self.txg) { return Err(format!("{when}: leaf {} holds no label of transaction {}", self.leaves[l].path.split('-').next().unwrap(), self.txg)); } } }
            if i == 0 && !refuse.is_empty() { return Ok(()) }
            r.map_err(|e| format!("{when}: label: {e:?}"))?; self.check_labels(when)?;
            if i == 0 { if stage == 3 { return Ok(()) } let f = v.flush(1); self.go(f, when)?.map_err(|e| format!("{when}: flush: {e:?}"))?; }
            let f = v.sync_all(); self.go(f, when)?.map_err(|e| format!("{when}: sync: {e:?}"))?;
            if i == 0 && stage == 4 { return Ok(()) }
        }
        if stage == 5 { return Ok(()) }
        let f = v.advance_transaction(t); self.go(f, when)?.map_err(|e| format!("{when}: erase: {e:?}"))?;
        self.txg += 1; Ok(())
    }
    fn close(&mut self) { self.tasks.iter_mut().for_each(|t| *t = None); self.v = None; self.sim.run(&mut |_| 0); self.sim.panics.clear(); for l in &self.leaves { unplug(&l.path); } self.sim = Sim::new(self.leaves.iter().map(|l| l.disk.clone()).collect()); }
    /// opens what `with` says, in that order. Everything the labels promise has to be there
    fn open(&mut self, with: &[usize], when: &str) -> R<()> {
        self.close();
        for &l in with { plug(&self.leaves[l].path, self.leaves[l].disk.clone()); }
        let mut mg = cluster::Manager::default();
        for &l in with { let p = self.leaves[l].path.clone(); let has = self.promise(l).is_some();
            let (r, g) = self.go(async move { let r = mg.taste(p).await.map(drop); (r, mg) }, when)?; mg = g;
            if has && r.is_err() { return Err(format!("{when}: leaf {} has a label but is refused with {r:?}", self.leaves[l].path.split('-').next().unwrap())); } }
        let id = self.id; let (r, _g) = { let f = mg.import(id); let f: std::pin::Pin<Box<dyn std::future::Future<Output = Result<(Cluster, LabelReader)>>>> = unsafe { std::mem::transmute::<std::pin::Pin<Box<dyn std::future::Future<Output = Result<(Cluster, LabelReader)>> + '_>>, _>(Box::pin(f)) }; (self.go(f, when)?, ()) };
        drop(mg);
        let (v, mut lr) = r.map_err(|e| format!("{when}: the pool cannot be opened: {e:?}"))?;
        self.v = Some(v); self.lost = (0..self.mirrors.len()).map(|m| self.lost[m] || !with.iter().any(|l| self.leaves[*l].m == m)).collect();
        let mut newest = 0;
        for m in 0..self.mirrors.len() { if self.lost[m] { continue; }
            let t: Vec<(usize, u32)> = with.iter().filter(|l| self.leaves[**l].m == m).filter_map(|l| Some((*l, self.promise(*l)?))).collect();
            let best = t.iter().map(|x| x.1).max().unwrap(); newest = newest.max(best);
            let known = &self.members[&(m, best)];
            for l in 0..self.leaves.len() { if self.leaves[l].m != m { continue; }
                let st = match t.iter().find(|x| x.0 == l) { Some((_, p)) if known.contains(&self.leaves[l].uuid) => if *p == best { St::Up } else { St::Rebuilding }, _ => St::Gone };
                if st == St::Up && self.leaves[l].whole != Some(best) { return Err(format!("{when}: leaf {} claims transaction {best} but was not in service when that was written", self.leaves[l].path.split('-').next().unwrap())); }
                self.leaves[l].st = st; } }
        let got: std::result::Result<u32, _> = lr.deserialize(); if got.as_ref().ok() != Some(&newest) { return Err(format!("{when}: the pool was opened from a label of transaction {:?}; the newest is {newest}", got.ok())); }
        let snap = self.snaps[&newest].clone();
        if self.v().used() != snap.used { return Err(format!("{when}: {} blocks in use, {} were when transaction {newest} was written", self.v().used(), snap.used)); }
        let now = std::mem::take(&mut self.live); self.live = snap.live.into_iter().filter(|(l, e)| now.get(l).is_some_and(|x| x.seed == e.seed)).collect();
        self.txg = newest + 1; self.states(when)?; self.read(1, when)
    }
    /// which disks are there, and in which order they are found. At least one complete leaf of every mirror, except for mirrors the parity makes up for
    fn choose(&mut self, who: u64, order: u64) -> Option<Vec<usize>> {
        let mut r = Rng(who.wrapping_mul(0x9e3779b97f4a7c15) | 1); for _ in 0..4 { r.next(); } let mut with = vec![];
        let lost = self.lost.iter().filter(|x| **x).count() as u64; let mut may = self.c.f - lost.min(self.c.f);
        let top = (0..self.leaves.len()).filter(|&l| !self.lost[self.leaves[l].m] && self.leaves[l].whole.is_some() && self.leaves[l].whole == self.promise(l)).filter_map(|l| self.leaves[l].whole).max()?;
        for m in 0..self.mirrors.len() { if self.lost[m] { continue; }
            let best = (0..self.leaves.len()).filter(|&l| self.leaves[l].m == m).filter(|&l| self.leaves[l].whole == self.promise(l)).filter_map(|l| self.leaves[l].whole).max()?;
            // a leaf lost in the transaction of which only the other mirrors got the label looks like its siblings: see KNOWN_FINDINGS
            let twin = |l: usize| best < top && self.leaves[l].st != St::Up && self.promise(l) == Some(best) && self.c.seed != STRICT;
            let good: Vec<usize> = (0..self.leaves.len()).filter(|&l| self.leaves[l].m == m && self.leaves[l].whole == Some(best) && self.promise(l) == Some(best) && !twin(l)).collect();
            if good.is_empty() { return None }
            if may > 0 && r.below(12) == 0 && best < top { may -= 1; continue; }
            let one = good[r.below(good.len() as u64) as usize]; with.push(one);
            let mood = r.below(3); for l in 0..self.leaves.len() { if self.leaves[l].m == m && l != one && !twin(l) && self.promise(l).is_some() && (mood == 0 || r.below(2) == 0) { with.push(l); } } }
        // the newest label of all is among them
        if !with.iter().any(|&l| self.promise(l) == Some(top)) { return None }
        let mut o = Rng(order.wrapping_mul(0x2545F4914F6CDD1D) | 1); for i in (1..with.len()).rev() { with.swap(i, o.below(i as u64 + 1) as usize); }
        Some(with)
    }
    fn step(&mut self, o: &Op, k: usize) -> R<()> {
        let when = format!("operation {k} ({}{:?})", o.0, o.1); let a = |i: usize| o.1.get(i).copied().unwrap_or(0);
        let m = (a(0) % self.mirrors.len() as u64) as usize;
        match o.0 {
            'W' => { self.write(1 + a(0) as usize, &when)?; }
            'G' => { for _ in 0..a(0) { if !self.write(self.c.lpz as usize * 4096 - 12 * 4096, &when)? { break; } } }
            'F' => { if self.live.is_empty() { return Ok(()) } let (l, e) = self.live.iter().nth(a(0) as usize % self.live.len()).map(|(l, e)| (*l, e.clone())).unwrap(); self.live.remove(&l); self.unchecked.remove(&l); self.v().free(l, e.n); }
            'S' => { let mut refuse = vec![];
                if a(0) == 2 { let ups: Vec<usize> = (0..self.mirrors.len()).filter(|m| !self.lost[*m]).flat_map(|m| self.up(m)).collect(); let keep = ups[a(1) as usize % ups.len()]; refuse = ups.into_iter().filter(|&l| l != keep && (a(2) >> (l % 60)) & 1 == 1).collect(); }
                if a(0) != 1 { self.sync(a(0), &refuse, &when)?; self.read(1, &when)?; }
                if a(0) > 0 { // the labels are older than the space map already written: see KNOWN_FINDINGS
                    if a(0) > 1 && !self.leaves.iter().any(|l| l.whole == Some(self.txg)) { self.over = true; return Ok(()) }
                    if let Some(w) = self.choose(a(1), a(2)) { self.open(&w, &when)?; } else { self.over = true; } } }
            'R' => { if let Some(w) = self.choose(a(0), a(1)) { self.open(&w, &when)?; } }
            'X' => { if self.lost[m] { return Ok(()) } let c: Vec<usize> = (0..self.leaves.len()).filter(|&l| self.leaves[l].m == m && self.leaves[l].st != St::Gone).collect(); if c.is_empty() { return Ok(()) } let l = c[a(1) as usize % c.len()];
                if self.up(m).iter().all(|x| *x == l) { return Ok(()) }
                let u = self.leaves[l].uuid; let r = self.v.as_mut().unwrap().fault(u); if r != Ok(()) { return Err(format!("{when}: {r:?}")); } self.leaves[l].st = St::Faulted; if !self.in_mirror(m, St::Rebuilding) { self.tasks[m] = None; } self.states(&when)?; }
            'A' => { if self.lost[m] || self.leaves.iter().filter(|l| l.m == m).count() > 4 { return Ok(()) } let path = mypath(&format!("/n{}", self.leaves.len())); let disk = Disk::new(self.c.zones * self.c.lpz); disk.lock().immediate = self.c.seed % 3 != 0; disk.lock().fill = Some(|l| 0x5a ^ l as u8); for l in 0..8 { disk.set(l, vec![0; 4096]); } plug(&path, disk.clone()); self.sim.disks.push(disk.clone());
                let busy = self.in_mirror(m, St::Rebuilding); let u = self.mirrors[m]; let r = self.v.as_mut().unwrap().attach(u, Path::new(&path));
                if busy { if r != Err(Error::EBUSY) { return Err(format!("{when}: attached during a rebuild: {r:?}")); } return Ok(()) }
                if r != Ok(()) { return Err(format!("{when}: {r:?}")); }
                let s = self.v().status(); let uuid = s.mirrors[m].leaves.iter().map(|l| l.uuid).find(|u| !self.leaves.iter().any(|l| l.uuid == *u)).ok_or(format!("{when}: the new leaf is not reported"))?;
                self.leaves.push(Leaf { m, uuid, path, disk, st: St::Rebuilding, whole: None, loose: false }); self.states(&when)?; }
            'B' => { if self.lost[m] { return Ok(()) } let s = self.v().status(); let t = s.mirrors[m].rebuilding; if t.is_some() != self.in_mirror(m, St::Rebuilding) { return Err(format!("{when}: the mirror reports it has to be rebuilt from {t:?}")); } if let Some(t) = t { self.tasks[m] = Some(self.v().repair_mirror(m, t..)); } }
            'P' | 'Z' => { let v = self.v(); let open = o.0 == 'Z'; let mut n = 0;
                while let Some(mut t) = self.tasks[m].take() { if !open && n >= a(1) { self.tasks[m] = Some(t); break; } n += 1; if n > 5000 { return Err(format!("{when}: the rebuild never ends")); }
                    let (r, t) = self.go(async move { let r = v.repair_mirror_step(&mut t, open).await; (r, t) }, &when)?;
                    let more = r.map_err(|e| format!("{when}: {e:?}"))?; self.check_labels(&when)?;
                    if !more && open {
                        if self.mirrors.len() > 1 { let z = cluster::vp_access::open_zones(v); for l in self.live.keys() { if cluster::vp_access::zone_of(v, *l).is_some_and(|x| z.contains(&x)) { self.unchecked.insert(*l); } } }
                        let r = self.v.as_mut().unwrap().restore(m); if r != Ok(()) { return Err(format!("{when}: {r:?}")); }
                        for l in &mut self.leaves { if l.m == m && l.st == St::Rebuilding { l.st = St::Up; } } self.states(&when)?; return self.read(2, &when) }
                    self.tasks[m] = Some(t); if !more { break; } } }
            'H' => { let l = a(0) as usize % self.leaves.len(); let b = a(1) % 2 * 4; let d = &self.leaves[l].disk; let other = (4 - b..8 - b).flat_map(|x| d.block(x)).collect::<Vec<u8>>(); let this = (b..b + 4).flat_map(|x| d.block(x)).collect::<Vec<u8>>();
                // only if the other copy says the same
                let t = |v: Vec<u8>| LabelReader::new(v).ok().map(|mut r| vdev_block::vp_access::txg(&mut r)); if t(other) != t(this.clone()) || t(this).is_none() { return Ok(()) }
                let mut x = d.block(b); x[a(2) as usize % 60] ^= 0x10; d.set(b, x); }
            _ => {}
        }
        self.ordered(&when)
    }
    /// a label is written only once everything before it, the other label included, is stable
    fn ordered(&mut self, when: &str) -> R<()> {
        for l in &mut self.leaves { if let Some(e) = l.disk.lock().errors.first() { return Err(format!("{when}: leaf {}: {e}", l.path.split('-').next().unwrap())); }
            for e in l.disk.take_log() { match e.k { K::Sync => l.loose = false, K::Write => { if e.lba < 8 && l.loose { return Err(format!("{when}: leaf {} gets a label before what was written to it earlier is synced", l.path.split('-').next().unwrap())); } l.loose = true; } _ => {} } } }
        Ok(())
    }
    fn last(&mut self) -> R<()> {
        self.read(2, "at the end")?; self.sync(0, &[], "the last sync")?;
        let most = (0..self.mirrors.len()).map(|m| self.up(m).len()).max().unwrap();
        for j in 0..most { let with: Vec<usize> = (0..self.mirrors.len()).filter(|m| !self.lost[*m]).map(|m| { let u: Vec<usize> = (0..self.leaves.len()).filter(|&l| self.leaves[l].m == m && self.leaves[l].whole == Some(self.txg - 1)).collect(); u[j % u.len()] }).collect(); self.open(&with, &format!("reopened with one leaf of each mirror ({j})"))?; }
        Ok(())
    }
}
fn run(c: &Case) -> R<()> {
    let mut w = W::new(c.clone())?;
    for (k, o) in c.ops.iter().enumerate() { w.step(o, k)?; if w.over { w.close(); return Ok(()) } }
    let r = w.last(); w.close(); r
}
fn go(c: &Case) -> Option<String> {
    watch::case(fmt(c));
    let r = match catch_unwind(AssertUnwindSafe(|| run(c))) { Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(p) => Some(format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) };
    watch::done(); r
}
fn rep(c: &Case, what: &str) {
    let mut c = c.clone(); let mut w = what.to_string();
    loop { let mut any = false;
        let mut i = c.ops.len(); while i > 0 { i -= 1; let mut d = c.clone(); d.ops.remove(i); if let Some(e) = go(&d) { c = d; w = e; any = true; } }
        for i in 0..c.leaves.len() { if c.leaves[i] > 1 { let mut d = c.clone(); d.leaves[i] -= 1; if let Some(e) = go(&d) { c = d; w = e; any = true; } } }
        if !any { break; } }
    println!("FAIL\t{}\t{w}", fmt(&c));
}
fn random(r: &mut Rng, rebuild: bool) -> Case {
    let (k, f, n) = match r.below(7) { 0 => (3, 1, 3), 1 => (4, 2, 5), 2 if r.below(2) == 0 => (2, 1, 3), _ => (1, 0, 1) };
    let leaves: Vec<u64> = (0..n).map(|_| if n == 1 { 1 + r.below(3) } else { 1 + r.below(2) }).collect();
    let many = r.below(25) == 0 && n == 1; let big = !many && r.below(6) == 0; let (zones, lpz) = if many { (300, 16) } else if big { (4, 140 + r.below(20)) } else { (6, 32) };
    let chunk = 1 + r.below(2); let mut ops: Vec<Op> = vec![]; let x = |r: &mut Rng| r.below(1 << 16);
    if many { ops.push(('G', vec![200 + r.below(80)])); if r.below(2) == 0 { ops.push(('S', vec![0])); } }
    for _ in 0..4 + r.below(if many { 12 } else { 36 }) {
        let w = |r: &mut Rng| if big && r.below(3) == 0 { ('W', vec![r.below(130 * 4096)]) } else { ('W', vec![if r.below(3) == 0 { r.below(9000) } else { r.below(24) * 4096 + 4095 }]) };
        let m = r.below(n);
        match r.below(if rebuild { 20 } else { 14 }) {
            0..=4 => ops.push(w(r)), 5 => ops.push(('F', vec![x(r)])), 6 => ops.push(('S', vec![0])),
            7 => { let p = 1 + r.below(5); ops.push(('S', vec![p, x(r), x(r)])); }
            8 => { if r.below(3) > 0 { ops.push(('S', vec![0])); } ops.push(('R', vec![x(r), x(r)])); }
            9 | 10 => ops.push(('X', vec![m, x(r)])), 11 => ops.push(('A', vec![m])), 12 => ops.push(('H', vec![x(r), r.below(2), x(r)])),
            13 | 14 => { ops.push(('B', vec![m])); ops.push(('Z', vec![m])); }
            // a rebuild beside other work
            _ => { ops.push(('B', vec![m])); for _ in 0..1 + r.below(8) { match r.below(9) { 0..=3 => ops.push(('P', vec![m, 1 + r.below(3)])), 4 | 5 => ops.push(w(r)), 6 => ops.push(('S', vec![0])), 7 => ops.push(('F', vec![x(r)])), _ => ops.push(('P', vec![m, 50])) } }
                match r.below(4) { 0 => {} 1 => ops.push(('S', vec![1 + r.below(5), x(r), x(r)])), _ => ops.push(('Z', vec![m])) } }
        }
    }
    Case { k, f, chunk, leaves, zones, lpz, seed: r.below(1 << 20), ops }
}
/// found once with a defect in place, and run every time since
const CASES: [&str; 1] = ["1.0.2.6.32.293170/1/W57343,W98303,F57643,F25931,W57343,W86015,W6618,W24575,W1281,F61828,W32767,W8628,S0,F59775,W40959,W12287,F8634,W86015,F6003,A0,F51697,B0,F29723,F21135,S0,Z0"];
fn main() {
    std::panic::set_hook(Box::new(|_| {})); watch::start(120);
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" { let c = parse(&a[3]); if let Some(e) = go(&c) { println!("FAIL\t{}\t{e}", a[3]); } return; }
    let rebuild = a[2] == "R01"; let thorough = a[3] == "thorough"; let seed = a[4].parse::<u64>().unwrap();
    let out = par(move |th| { let mut r = Rng((seed * 7919 + 17 + th as u64 * 104729) | 1); for _ in 0..20 { r.next(); } let (mut n, mut fails) = (0u64, 0);
        for _ in 0..if thorough { 30_000 } else { 3000 } { let c = random(&mut r, rebuild); n += 1; if n < 2 && th < 2 { println!("SAMPLE\t{}", fmt(&c)); } if let Some(e) = go(&c) { rep(&c, &e); fails += 1; if fails > 1 { break; } } }
        n });
    // a leaf lost in a transaction that reached the labels of other mirrors but not its own mirror's
    if !rebuild { let x = "4.2.2.6.32.999999999/2.1.2.2.1/S0,X3.34739,W24575,S2.45665.32622"; if let Some(e) = go(&parse(x)) { println!("FAIL\t{x}\t{e}"); } }
    for x in CASES { let c = parse(x); if let Some(e) = go(&c) { println!("FAIL\t{x}\t{e}"); } }
    let n = out.iter().sum::<u64>() + CASES.len() as u64; println!("COUNT\t{n}\t{n}");
}
