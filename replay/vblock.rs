//! B02: programs of requests on the real vdev_block.rs and vdev_file.rs over an in-memory disk, against a reference scheduler.
#![allow(dead_code, unused_imports, unused_macros, unused_mut)]
pub mod types; pub mod util; pub mod label; pub mod vdev; pub mod vpshim; pub mod vdev_file; pub mod vdev_block; pub mod mirror; pub mod raid; pub mod cluster;
pub use types::*; pub use util::*;
use vpshim::*; use vdev_block::*; use divbuf::*; use vdev::Vdev; use label::LabelWriter;
use std::{cell::RefCell, collections::VecDeque, panic::{catch_unwind, AssertUnwindSafe}, rc::Rc, sync::Arc};
@WATCH@
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn below(&mut self, n: u64) -> u64 { (self.next() >> 33) % n }
}
const DEPTH: usize = 10; const LBAS: u64 = 1000; const LPZ: u64 = 100;
/// Wr, Wv: write; Rd, Rv: read; Er: erase a zone; Lb: label; Sm: space map; Ok, Er: completion; Ab: waiter dropped; Again: a submission refused; Rm: removal
#[derive(Clone, Debug, PartialEq)]
enum Op { Wr(u64, u64), Wv(u64, Vec<usize>), Rd(u64, u64), Rv(u64, Vec<usize>), Sync, Erase(u64), Lb(u32), Sm(u32, u64), Done(usize, bool), Ab(usize), Again(u64), Rm, Imm(bool) }
fn fmt(o: &Op) -> String { let j = |v: &Vec<usize>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("+"); match o {
    Op::Wr(l, n) => format!("w{l}:{n}"), Op::Wv(l, v) => format!("W{l}:{}", j(v)), Op::Rd(l, n) => format!("r{l}:{n}"), Op::Rv(l, v) => format!("R{l}:{}", j(v)), Op::Sync => "s".into(), Op::Erase(z) => format!("e{z}"),
    Op::Lb(i) => format!("l{i}"), Op::Sm(i, b) => format!("m{i}:{b}"), Op::Done(i, true) => format!("c{i}"), Op::Done(i, false) => format!("f{i}"), Op::Ab(i) => format!("a{i}"), Op::Again(n) => format!("E{n}"), Op::Rm => "x".into(), Op::Imm(b) => format!("i{}", *b as u8) } }
fn parse(s: &str) -> Op { let f: Vec<&str> = s[1..].split(':').collect(); let n = |i: usize| f[i].parse::<u64>().unwrap(); let v = |i: usize| f[i].split('+').map(|x| x.parse().unwrap()).collect::<Vec<usize>>();
    match s.as_bytes()[0] { b'w' => Op::Wr(n(0), n(1)), b'W' => Op::Wv(n(0), v(1)), b'r' => Op::Rd(n(0), n(1)), b'R' => Op::Rv(n(0), v(1)), b's' => Op::Sync, b'e' => Op::Erase(n(0)), b'l' => Op::Lb(n(0) as u32), b'm' => Op::Sm(n(0) as u32, n(1)),
        b'c' => Op::Done(n(0) as usize, true), b'f' => Op::Done(n(0) as usize, false), b'a' => Op::Ab(n(0) as usize), b'E' => Op::Again(n(0)), b'i' => Op::Imm(n(0) == 1), _ => Op::Rm } }
#[derive(Clone, Debug)]
struct Req { id: usize, k: K, key: u64, class: u8, lba: u64, lbas: u64, bufs: usize, data: Option<Vec<u8>>, free: bool }
fn name(r: &Req) -> String { match r.k { K::Sync => format!("request {} (sync)", r.id), k => format!("request {} ({k:?} of {} blocks at {})", r.id, r.lbas, r.lba) } }
/// the order the property prescribes
#[derive(Default)] struct Sched { active: Vec<Req>, after: VecDeque<Req>, pos: u64 }
impl Sched {
    fn submit(&mut self, r: Req) { if r.k == K::Sync || !self.after.is_empty() { self.after.push_back(r); } else { self.active.push(r); } }
    /// the requests that may come next (several only if they are equal in place and kind)
    fn next(&self) -> Vec<&Req> {
        let m = self.active.iter().filter(|r| r.key >= self.pos).map(|r| (r.key, r.class)).min().or(self.active.iter().map(|r| (r.key, r.class)).min());
        match m { Some(m) => self.active.iter().filter(|r| (r.key, r.class) == m).collect(), None => self.after.front().into_iter().collect() }
    }
    fn take(&mut self, id: usize) -> Req {
        if let Some(i) = self.active.iter().position(|r| r.id == id) { let r = self.active.remove(i); self.pos = r.key; return r; }
        let r = self.after.pop_front().unwrap();
        while self.after.front().map_or(false, |r| r.k != K::Sync) { let x = self.after.pop_front().unwrap(); self.active.push(x); }
        r
    }
}
struct H { sim: Sim, disk: Arc<Disk>, sch: Sched, flight: Vec<(Ev, Vec<Req>)>, held: Option<(Ev, Vec<Req>)>, spare: Vec<Req>, got: Rc<RefCell<Vec<Option<Result<()>>>>>, want: Vec<Option<Result<()>>>, dropped: Vec<bool>, removing: bool, issued: Vec<bool>, reads: Vec<(usize, Vec<DivBufShared>)> }
impl H {
    /// accounts for what the device has just been given
    fn events(&mut self) -> std::result::Result<(), String> {
        for e in self.disk.take_log() {
            if self.removing && e.k == K::Erase { continue; } // starting one already does it
            let reqs = if let Some((h, r)) = self.held.take() {
                if (h.k, h.lba, h.lbas, h.data) != (e.k, e.lba, e.lbas, e.data) { return Err(format!("the device got {e:?} before the {h:?} it had refused")); } r
            } else {
                let mut rs: Vec<Req> = vec![]; let mut cov = 0;
                loop {
                    if e.k == K::Sync && rs.is_empty() && self.spare.len() > 0 && !self.sch.next().iter().any(|r| r.k == K::Sync) { rs.append(&mut self.spare); break; }
                    let c = self.sch.next();
                    if rs.is_empty() && c.is_empty() { return Err(format!("the device got {e:?}, but nothing was waiting")); }
                    let fit = |r: &&&Req| if e.k == K::Sync { r.k == K::Sync } else { r.k == e.k && r.lba == e.lba + cov && (r.lbas <= e.lbas - cov) && (cov < e.lbas || r.lbas == 0) };
                    if e.k == K::Sync && !rs.is_empty() && c.iter().find(fit).is_none() { break; }
                    let Some(r) = c.iter().find(fit) else { return Err(if rs.is_empty() { format!("the device got {e:?}, but next was {}", name(c[0])) } else { format!("the device got {e:?}, of which {cov} blocks are requests {:?}, but {} was next", rs.iter().map(|r| r.id).collect::<Vec<_>>(), c.first().map_or("nothing".into(), |r| name(r))) }) };
                    let id = r.id; let r = self.sch.take(id); cov += r.lbas; rs.push(r);
                    if e.k != K::Sync && cov == e.lbas { break; }
                }
                rs
            };
            if e.k == K::Write {
                if reqs.iter().all(|r| r.data.is_some()) { let d: Vec<u8> = reqs.iter().flat_map(|r| r.data.clone().unwrap()).collect(); if fnv(&d) != e.data { return Err(format!("the device got {e:?} with other bytes than those of requests {:?} in order", reqs.iter().map(|r| r.id).collect::<Vec<_>>())); } }
                else if reqs.len() > 1 { return Err(format!("a label was merged with other writes: {e:?}")); }
            }
            if reqs.len() > 1 && e.bufs as i64 > IOV { return Err(format!("merging made {} buffers of one operation; the limit is {IOV}", e.bufs)); }
            if !e.taken { self.held = Some((e, reqs)); continue; }
            for r in &reqs { if std::mem::replace(&mut self.issued[r.id], true) { return Err(format!("{} was issued twice", name(r))); } }
            if e.k == K::Erase { for r in &reqs { self.want[r.id] = Some(Ok(())); } continue; }
            if e.k == K::Sync { self.spare = reqs[1..].to_vec(); }
            self.flight.push((e, reqs));
            if self.flight.len() > DEPTH { return Err(format!("{} operations in flight; the depth is {DEPTH}", self.flight.len())); }
        }
        Ok(())
    }
    fn settle(&mut self) -> std::result::Result<(), String> {
        self.sim.settle();
        if let Some(p) = self.sim.panics.first() { return Err(format!("panic: {p}")); }
        if self.disk.lock().immediate { // completed while being submitted
            let n = self.flight.len(); self.events()?;
            let x: Vec<_> = self.flight.drain(n..).collect(); for (_, rs) in x { for r in rs { self.want[r.id] = Some(Ok(())); } }
        } else { self.events()?; }
        if let Some(e) = self.disk.lock().errors.first() { return Err(e.clone()); }
        let g = self.got.borrow();
        for i in 0..g.len() { if self.dropped[i] { continue; } match (&g[i], &self.want[i]) {
            (None, None) => {} (Some(a), Some(b)) if a == b => {}
            (Some(Err(Error::ENXIO)), None) if self.removing && !self.issued[i] => {}
            (Some(a), None) => return Err(format!("request {i} was answered {a:?} before the device was done with it")),
            (None, Some(_)) => return Err(format!("request {i} is complete but was not answered")),
            (Some(a), Some(b)) => return Err(format!("request {i} was answered {a:?}; the device's answer was {b:?}")) } }
        Ok(())
    }
    fn complete(&mut self, i: usize, ok: bool) -> std::result::Result<(), String> {
        if self.flight.is_empty() { return Ok(()); }
        let i = i % self.flight.len(); let (e, rs) = self.flight.remove(i);
        if self.disk.kinds().get(i) != Some(&e.k) { return Err(format!("{e:?} was dropped before the device was done with it")); }
        let data: Vec<Vec<u8>> = (e.lba..e.lba + e.lbas).map(|l| self.disk.block(l)).collect();
        if !ok { self.disk.lock().fail = [Some(5); 3]; }
        self.disk.complete(i); self.disk.lock().fail = [None; 3];
        for r in &rs { self.want[r.id] = Some(if ok { Ok(()) } else { Err(Error::EIO) }); }
        self.settle()?;
        if ok && e.k == K::Read { let mut at = 0; for r in &rs { let want: Vec<u8> = data[at..at + r.lbas as usize].concat(); at += r.lbas as usize;
            if let Some((_, b)) = self.reads.iter().find(|x| x.0 == r.id) { let g: Vec<u8> = b.iter().flat_map(|d| d.try_const().unwrap().to_vec()).collect(); if !self.dropped[r.id] && g != want { return Err(format!("{} returned other bytes than the disk's", name(r))); } } } }
        Ok(())
    }
}
fn bytes(id: usize, n: usize) -> Vec<u8> { let mut v = vec![(id * 41 + 1) as u8; n]; for (i, c) in v.chunks_mut(64).enumerate() { c[0] = i as u8; } v }
fn run(ops: &[Op]) -> std::result::Result<(), String> {
    let disk = Disk::new(LBAS); disk.lock().deletable = true; disk.lock().fill = Some(|l| l as u8 ^ 0x5a);
    let path = mypath("/d"); plug(&path, disk.clone());
    let mut vb = Some(VdevBlock::create(&path, std::num::NonZeroU64::new(LPZ)).unwrap()); disk.take_log();
    let mut h = H { sim: Sim::new(vec![disk.clone()]), disk, sch: Default::default(), flight: vec![], held: None, spare: vec![], got: Default::default(), want: vec![], dropped: vec![], removing: false, issued: vec![], reads: vec![] };
    let mut aborts: Vec<futures::future::AbortHandle> = vec![];
    let gone = Rc::new(RefCell::new(false));
    let mut keep = vec![];
    for o in ops {
        let id = h.want.len();
        let mut req = |h: &mut H, k, key, class, lba, lbas, bufs, data| { h.want.push(None); h.dropped.push(false); h.issued.push(false); h.got.borrow_mut().push(None); h.sch.submit(Req { id, k, key, class, lba, lbas, bufs, data, free: false }); };
        let Some(v) = &vb else { if let Op::Done(i, ok) = o { h.complete(*i, *ok)?; } continue; };
        // two requests for one place and of one class have no prescribed order: such an operation is left out
        let place = match o { Op::Wr(l, _) | Op::Wv(l, _) | Op::Rd(l, _) | Op::Rv(l, _) => Some((*l, 1)), Op::Erase(z) => Some(((z + 1) * LPZ - 1, 2)), Op::Sm(i, b) => Some((8 + *i as u64 + b, 1)), Op::Lb(_) => Some((0, 1)), _ => None };
        if let Some(p) = place { if h.sch.active.iter().chain(&h.sch.after).any(|r| (r.key, r.class) == p && r.k != K::Sync) { continue; } }
        let fut = match o {
            Op::Wr(l, n) => { let d = bytes(id, *n as usize * 4096); req(&mut h, K::Write, *l, 1, *l, *n, 1, Some(d.clone())); let b = DivBufShared::from(d); let f = v.write_at(b.try_const().unwrap(), *l); keep.push(b); Some(f) }
            Op::Wv(l, ns) => { let t: usize = ns.iter().sum(); let mut d = bytes(id, t); let mut at = 0; let sg: Vec<IoVec> = ns.iter().map(|n| { let b = DivBufShared::from(d[at..at + n].to_vec()); at += n; let c = b.try_const().unwrap(); keep.push(b); c }).collect();
                d.resize(t.div_ceil(4096) * 4096, 0); req(&mut h, K::Write, *l, 1, *l, t.div_ceil(4096) as u64, ns.len(), Some(d)); Some(v.writev_at(sg, *l)) }
            Op::Rd(l, n) => { let b = DivBufShared::from(vec![0xeeu8; *n as usize * 4096]); req(&mut h, K::Read, *l, 1, *l, *n, 1, None); let f = v.read_at(b.try_mut().unwrap(), *l); h.reads.push((id, vec![b])); Some(f) }
            Op::Rv(l, ns) => { let bs: Vec<DivBufShared> = ns.iter().map(|n| DivBufShared::from(vec![0xeeu8; *n])).collect(); let t: usize = ns.iter().sum(); req(&mut h, K::Read, *l, 1, *l, (t / 4096) as u64, ns.len(), None); let f = v.readv_at(bs.iter().map(|b| b.try_mut().unwrap()).collect(), *l); h.reads.push((id, bs)); Some(f) }
            Op::Sync => { req(&mut h, K::Sync, 0, 0, 0, 0, 0, None); Some(v.sync_all()) }
            Op::Erase(z) => { let (s, e) = v.zone_limits(*z as u32); req(&mut h, K::Erase, e - 1, 2, s, e - s, 0, None); Some(v.erase_zone(s, e - 1)) }
            Op::Lb(i) => { req(&mut h, K::Write, 0, 1, *i as u64 * 4, 1, 1, None); Some(v.write_label(LabelWriter::new(*i), TxgT::from(42))) }
            Op::Sm(i, b) => { let d = bytes(id, 4096); let l = 8 + *i as u64 * 1 + b; req(&mut h, K::Write, l, 1, l, 1, 1, Some(d.clone())); let x = DivBufShared::from(d); let f = v.write_spacemap(vec![x.try_const().unwrap()], *i, *b); keep.push(x); Some(f) }
            Op::Done(i, ok) => { h.complete(*i, *ok)?; None }
            Op::Ab(i) => { let open: Vec<usize> = (0..h.want.len()).filter(|&j| h.got.borrow()[j].is_none() && !h.dropped[j]).collect(); if !open.is_empty() { let j = open[*i % open.len()]; h.dropped[j] = true; aborts[j].abort(); h.settle()?; } None }
            Op::Again(n) => { let mut s = h.disk.lock(); let x = s.submissions + n; s.eagain.push(x); None }
            Op::Imm(b) => { if h.flight.is_empty() { h.disk.lock().immediate = *b; } None }
            Op::Rm => { h.removing = true; let f = vb.take().unwrap().remove(); let g = gone.clone(); h.sim.spawn(async move { f.await; *g.borrow_mut() = true; }); h.settle()?; None }
        };
        if let Some(f) = fut {
            let g = h.got.clone(); let (a, ah) = futures::future::abortable(f); aborts.push(ah);
            h.sim.spawn(async move { if let Ok(r) = a.await { g.borrow_mut()[id] = Some(r); } }); h.settle()?;
        }
        if *gone.borrow() && !h.flight.is_empty() { return Err("the removal finished with operations in flight".into()); }
    }
    // finish
    let mut k = 0;
    loop {
        if h.flight.is_empty() { if !h.sim.step(&mut |_| 0) { break; } h.settle()?; } else { h.complete(k * 7, true)?; k += 1; }
        if *gone.borrow() && !h.flight.is_empty() { return Err("the removal finished with operations in flight".into()); }
        if k > 10_000 { return Err("does not come to rest".into()); }
    }
    if !h.removing { if let Some(r) = h.sch.next().first() { return Err(format!("{} was never issued", name(r))); } if let Some((e, _)) = &h.held { return Err(format!("{e:?} was refused by the device and never tried again")); } }
    else if !*gone.borrow() { return Err("the removal never finished".into()); }
    for i in 0..h.want.len() { if h.got.borrow()[i].is_none() && !h.dropped[i] { return Err(format!("request {i} was never answered")); } }
    Ok(())
}
fn inp(ops: &[Op]) -> String { ops.iter().map(fmt).collect::<Vec<_>>().join(",") }
fn go(ops: &[Op]) -> Option<String> {
    watch::case(inp(ops));
    match catch_unwind(AssertUnwindSafe(|| run(ops))) { Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(p) => Some(format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {})); watch::start(30);
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" { let ops: Vec<Op> = a[3].split(',').filter(|x| !x.is_empty()).map(parse).collect(); if let Some(e) = go(&ops) { println!("FAIL\t{}\t{e}", a[3]); } return; }
    let thorough = a[3] == "thorough"; let seed = a[4].parse::<u64>().unwrap();
    let out = par(move |th| { let (mut n, mut fails) = (0u64, 0); search(thorough, seed, th, &mut n, &mut fails); n });
    let n: u64 = out.iter().sum(); println!("COUNT\t{n}\t{n}");
}
fn rep(ops: &[Op], fails: &mut i32) {
    if go(ops).is_none() { return }
    let mut best = ops.to_vec(); let mut k = 0;
    while k < best.len() { let mut t = best.clone(); t.remove(k); if go(&t).is_some() { best = t; } else { k += 1; } }
    println!("FAIL\t{}\t{}", inp(&best), go(&best).unwrap_or_default()); *fails += 1;
}
fn search(thorough: bool, seed: u64, th: usize, n: &mut u64, fails: &mut i32) {
    let mut r = Rng((seed * 7919 + 99 + th as u64 * 104729) | 1); for _ in 0..20 { r.next(); }
    // every sequence behind a full queue
    let pre: Vec<Op> = (0..10).map(|i| Op::Rd(500 + 2 * i, 1)).collect();
    let alpha = vec![Op::Wr(600, 1), Op::Wr(601, 1), Op::Wr(602, 2), Op::Wr(599, 1), Op::Wr(100, 1), Op::Rd(600, 1), Op::Rd(601, 2), Op::Sync, Op::Erase(5), Op::Done(0, true), Op::Done(3, true), Op::Again(0)];
    let b = alpha.len() as u64; let len = if thorough { 6 } else { 4 };
    for x in (th as u64..b.pow(len)).step_by(THREADS) { let mut y = x; let mut ops = pre.clone(); for _ in 0..len { ops.push(alpha[(y % b) as usize].clone()); y /= b; } *n += 1; rep(&ops, fails); if *fails > 2 { return } }
    for t in 0..if thorough { 400_000 } else { 20_000 } {
        let len = 6 + r.below(70) as usize; let style = r.below(4); let mut ops = vec![]; let base = 10 + r.below(900);
        let (qd, pace) = (r.below(3), 1 + r.below(8));
        if qd == 0 { ops.extend(pre.iter().cloned()); }
        for _ in 0..len {
            let l = match r.below(4) { 0 => 10 + r.below(980), 1 => base + r.below(12).min(LBAS - base - 9), _ => (base / 100 * 100 + r.below(30)).clamp(10, 980) };
            let sizes = |r: &mut Rng, partial: bool| { let k = 1 + r.below(4) as usize; let mut v: Vec<usize> = (0..k).map(|_| 4096 * (1 + r.below(2) as usize)).collect(); if partial && r.below(3) == 0 { v[k - 1] = 1 + r.below(8191) as usize; } v };
            ops.push(match r.below(20 + pace) {
                0..=4 => Op::Wr(l, 1 + r.below(3)), 5 | 6 => Op::Wv(l, sizes(&mut r, true)), 7..=9 => Op::Rd(l, 1 + r.below(3)), 10 => Op::Rv(l, sizes(&mut r, false)),
                11 => if style != 1 { Op::Sync } else { Op::Wr(l, 1) }, 12 => if style == 2 { Op::Sync } else { Op::Rd(l, 1) }, 13 => Op::Erase(r.below(9)), 14 => match r.below(3) { 0 => Op::Lb(r.below(2) as u32), 1 => Op::Sm(r.below(2) as u32, 0), _ => Op::Wr(l, 1) },
                15 => if r.below(2) == 0 { Op::Ab(r.below(9) as usize) } else { Op::Wr(l, 1) }, 16 => if style == 3 { Op::Again(r.below(4)) } else { Op::Wr(l + 1, 1) }, 17 => if r.below(8) == 0 { Op::Imm(r.below(2) == 0) } else { Op::Rd(l + 1, 1) },
                _ => Op::Done(r.below(10) as usize, r.below(9) != 0) });
        }
        if r.below(6) == 0 { ops.push(Op::Rm); }
        *n += 1; rep(&ops, fails); if *fails > 2 { return }
        if t < 1 && th < 3 { println!("SAMPLE\t{}", inp(&ops)); }
    }
}
