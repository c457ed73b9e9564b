PROP = 'T03'
FILE = 'bfffs-core/src/tree/tree/mod.rs'
EDITS = [('                            if match eb {\n                                Bound::Included(x) => *g.key().borrow() <= x,\n                                Bound::Excluded(x) => *g.key().borrow() < x,\n                                Bound::Unbounded => true\n                            } {\n                                Some(g)\n                            } else {\n                                None\n                            }', '                            let _ = eb;\n                            Some(g)')]
KIT = ['vp/__init__.py', 'vp/gens.py', 'vp/rustsrc.py', 'replay/stack/vplock.rs']
NEEDS = 'a scan whose end lies between the key the parent records of the next node and the least key that node really has'
BREAKS = 'the scan goes on from behind its end, which panics'
DEMO = r'''//! kit tree
//% serde = { version = "1", features = ["derive", "rc"] }
//% serde_derive = "1"
//% speedy = { version = "0.8", features = ["uuid"] }
//% uuid = { version = "1", features = ["v4"] }
//% futures = "0.3"
//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% metrohash = "1.0"
//% tracing = { version = "0.1", features = ["attributes"] }
//% auto_enums = { version = "0.8", features = ["futures03"] }
//% pin-project = "1"
//% thiserror = "1"
//% libc = "0.2"
//% nix = { version = "0.29", features = ["time"] }
//% downcast = "0.11"
//% fixedbitset = { version = "0.4.0", default-features = false }
#![allow(dead_code, unused_imports, unused_macros, unused_mut, unused_variables)]
pub mod types; pub mod util; #[path = "@REPO@/bfffs-core/src/cache/mod.rs"] pub mod cache; #[path = "@REPO@/bfffs-core/src/writeback/mod.rs"] pub mod writeback; pub mod dml; pub mod ddml; pub mod tree; pub mod vplock;
pub use types::*;
use crate::{ddml::DRP, dml::*, tree::*, tree::tree::vp_access, writeback::{Credit, WriteBack}}; use divbuf::DivBufShared; use futures::{Future, FutureExt, StreamExt};
use serde_derive::{Deserialize, Serialize}; use speedy::{Readable, Writable};
use std::{cell::Cell, collections::{BTreeMap, BTreeSet, HashMap}, ops::{Bound, Range}, panic::{catch_unwind, AssertUnwindSafe}, pin::Pin, sync::{Arc, Mutex}, task::{Context, Poll}};
use vplock::below;

type R<T> = std::result::Result<T, String>;
type P<T> = Pin<Box<dyn Future<Output = Result<T>> + Send>>;
const ZONE: u64 = 8;
/// records in memory; what is cached is up to chance
pub struct Mem { wb: WriteBack, recs: Mutex<BTreeMap<u64, (Vec<u8>, TxgT, u32)>>, cache: Mutex<HashMap<u64, Box<dyn Cacheable>>>, next: Mutex<u64>, vals: Mutex<BTreeMap<u32, u32>>, bad: Mutex<Vec<String>>, given: Mutex<i64>, hold: std::sync::atomic::AtomicBool }
fn later<T: Send + 'static>(x: T) -> Pin<Box<dyn Future<Output = T> + Send>> { let mut n = below(3); let mut x = Some(x); futures::future::poll_fn(move |c| { if n > 0 { n -= 1; c.waker().wake_by_ref(); Poll::Pending } else { Poll::Ready(x.take().unwrap()) } }).boxed_or() }
trait B: Sized { fn boxed_or<T>(self) -> Pin<Box<dyn Future<Output = T> + Send>> where Self: Future<Output = T> + Send + 'static; }
struct Sendy<F>(F); unsafe impl<F> Send for Sendy<F> {} impl<F: Future + Unpin> Future for Sendy<F> { type Output = F::Output; fn poll(mut self: Pin<&mut Self>, c: &mut Context) -> Poll<F::Output> { Pin::new(&mut self.0).poll(c) } }
impl<F> B for F { fn boxed_or<T>(self) -> Pin<Box<dyn Future<Output = T> + Send>> where F: Future<Output = T> + Send + 'static { Box::pin(self) } }
impl Mem {
    fn new() -> Self { Mem { wb: WriteBack::with_capacity(1 << 40), recs: Default::default(), cache: Default::default(), next: Mutex::new(100), vals: Default::default(), bad: Default::default(), given: Mutex::new(0), hold: Default::default() } }
    fn complain(&self, s: String) { self.bad.lock().unwrap().push(s) }
    fn credit(&self, n: usize) -> Credit { vplock::run(vec![Box::pin(self.wb.borrow(n)) as Pin<Box<dyn Future<Output = Credit>>>]).unwrap().pop().unwrap() }
    fn bytes(&self, a: u64, what: &str) -> Vec<u8> { match self.recs.lock().unwrap().get(&a) { Some(r) => r.0.clone(), None => panic!("{what} of a record that does not exist (any more)") } }
    fn fresh(&self) -> u32 { let mut v = self.vals.lock().unwrap(); let n = 1_000_000 + v.len() as u32 + below(1000) as u32 * 1000; let mut n = n; while v.contains_key(&n) { n += 1 } v.insert(n, 0); n }
}
impl DML for Mem {
    type Addr = DRP;
    fn delete(&self, addr: &DRP, _: TxgT) -> P<()> { let a = addr.pba().lba; self.cache.lock().unwrap().remove(&a); if self.recs.lock().unwrap().remove(&a).is_none() { panic!("a record is deleted that does not exist (any more)") } later(Ok(())) }
    fn evict(&self, addr: &DRP) { self.cache.lock().unwrap().remove(&addr.pba().lba); }
    fn get<T: Cacheable, R: CacheRef>(&self, addr: &DRP) -> P<Box<R>> {
        let a = addr.pba().lba; let b = self.bytes(a, "read"); let mut c = self.cache.lock().unwrap();
        // what one of several operations reads stays in the cache meanwhile (KNOWN: what happens where it does not)
        let keep = below(2) == 0 || c.contains_key(&a) || self.hold.load(std::sync::atomic::Ordering::Relaxed);
        let r = c.entry(a).or_insert_with(|| Box::new(T::deserialize(DivBufShared::from(b)))).make_ref(); if !keep { c.remove(&a); }
        later(Ok(r.downcast::<R>().unwrap()))
    }
    fn pop<T: Cacheable, R: CacheRef>(&self, addr: &DRP, _: TxgT) -> P<Box<T>> {
        let a = addr.pba().lba; let b = self.bytes(a, "taking"); self.recs.lock().unwrap().remove(&a);
        let t: Box<T> = match self.cache.lock().unwrap().remove(&a) { Some(c) => c.downcast::<T>().unwrap(), None => Box::new(T::deserialize(DivBufShared::from(b))) };
        later(Ok(t))
    }
    fn put<T: Cacheable>(&self, c: T, z: Compression, txg: TxgT) -> P<DRP> {
        let b = c.make_ref().serialize(); let mut n = self.next.lock().unwrap(); let a = *n; *n += 1; self.recs.lock().unwrap().insert(a, (b[..].to_vec(), txg, 1));
        if below(2) == 0 { self.cache.lock().unwrap().insert(a, Box::new(c)); }
        later(Ok(DRP::new(PBA { cluster: 0, lba: a }, z, b.len() as u32, b.len() as u32, 0)))
    }
    fn repay(&self, c: Credit) { self.wb.repay(c) }
    fn sync_all(&self, _: TxgT) -> P<()> { later(Ok(())) }
}
impl std::fmt::Debug for Mem { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Mem") } }
impl Key for u32 {}
pub trait Kx: Key { fn k(n: u64) -> Self; }
impl Kx for u32 { fn k(n: u64) -> Self { n as u32 } }
impl Kx for RID { fn k(n: u64) -> Self { RID(n) } }
/// a value: a number, which may be kept outside of the tree
#[derive(Clone, Debug, PartialEq, Eq, Deserialize, Serialize, Readable, Writable)] pub enum Val { Mem(u32), Disk(u32) }
impl TypicalSize for Val { const TYPICAL_SIZE: usize = 8; }
fn mem_of<D: DML>(d: &D) -> &Mem { assert_eq!(std::mem::size_of::<D>(), std::mem::size_of::<Mem>()); unsafe { &*(d as *const D as *const Mem) } }
impl Val { fn drop_ref(&self, m: &Mem) -> Option<u32> { match self { Val::Disk(d) => { let r = m.vals.lock().unwrap().remove(d); if r.is_none() { m.complain(format!("value {d} is dropped twice")); } r } Val::Mem(x) => Some(*x) } } }
impl Value for Val {
    const NEEDS_FLUSH: bool = true; const MAX_ALLOCATED_SPACE: usize = 64;
    fn allocated_space(&self) -> usize { match self { Val::Mem(x) => (x % 5) as usize * 16, Val::Disk(_) => 0 } }
    fn needs_flush(&self) -> bool { true }
    fn ddrop<D>(&self, d: &D, _: TxgT) -> P<()> where D: DML + 'static, D::Addr: 'static { self.drop_ref(mem_of(d)); later(Ok(())) }
    fn dpop<D>(self, d: &D, _: TxgT) -> P<Self> where D: DML + 'static, D::Addr: 'static { let v = self.drop_ref(mem_of(d)).unwrap_or(0); later(Ok(Val::Mem(v))) }
    fn flush_bt<D, K: Key>(bt: BTreeMap<K, Self>, d: &D, _: TxgT) -> P<BTreeMap<K, Self>> where D: DML + 'static, D::Addr: 'static {
        let m = mem_of(d); let r = bt.into_iter().map(|(k, v)| (k, match v { Val::Mem(x) if x % 3 > 0 => { let n = m.fresh(); m.vals.lock().unwrap().insert(n, x); Val::Disk(n) } v => v })).collect(); later(Ok(r)) }
}
pub trait Vx: Value { fn v(n: u32) -> Self; fn n(&self, m: &Mem) -> u32; const SPACE: usize; fn disk(&self) -> Option<u32> { None } }
impl Value for u32 {}
impl Vx for u32 { fn v(n: u32) -> Self { n } fn n(&self, _: &Mem) -> u32 { *self } const SPACE: usize = 0; }
impl Vx for RID { fn v(n: u32) -> Self { RID(n as u64) } fn n(&self, _: &Mem) -> u32 { self.0 as u32 } const SPACE: usize = 0; }
impl Vx for Val { fn v(n: u32) -> Self { Val::Mem(n) } fn n(&self, m: &Mem) -> u32 { match self { Val::Mem(x) => *x, Val::Disk(d) => *m.vals.lock().unwrap().get(d).unwrap_or(&u32::MAX) } } const SPACE: usize = 64; }
#[derive(Clone, Debug)] enum Op { I(u64), G(u64), D(u64), X(u64, u64, u64), Q(u64, u64, u64), L, F, O, Z(u64), A(u64, u64) }
fn fmt(o: &Op) -> String { match o { Op::I(k) => format!("i{k}"), Op::G(k) => format!("g{k}"), Op::D(k) => format!("d{k}"), Op::X(a, b, c) => format!("x{a}.{b}.{c}"), Op::Q(a, b, c) => format!("q{a}.{b}.{c}"), Op::L => "l".into(), Op::F => "f".into(), Op::O => "o".into(), Op::Z(n) => format!("z{n}"), Op::A(a, b) => format!("a{a}.{b}") } }
fn parse(s: &str) -> Op { let f: Vec<u64> = s[1..].split('.').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(); match s.as_bytes()[0] { b'i' => Op::I(f[0]), b'g' => Op::G(f[0]), b'd' => Op::D(f[0]), b'x' => Op::X(f[0], f[1], f[2]), b'q' => Op::Q(f[0], f[1], f[2]), b'l' => Op::L, b'f' => Op::F, b'o' => Op::O, b'z' => Op::Z(f[0]), _ => Op::A(f[0], f[1]) } }
/// kind of tree, sequentially optimized, its limits, the seed of chance; groups of operations that run together
#[derive(Clone, Debug)] struct Case { kind: u64, seq: bool, lim: (u16, u16, u16, u16), seed: u64, base: u64, ops: Vec<Vec<Op>> }
impl Case {
    fn show(&self) -> String { format!("{};{};{}.{}.{}.{};{};{};{}", self.kind, self.seq as u8, self.lim.0, self.lim.1, self.lim.2, self.lim.3, self.seed, self.base, self.ops.iter().map(|g| g.iter().map(fmt).collect::<Vec<_>>().join("|")).collect::<Vec<_>>().join(",")) }
    fn read(s: &str) -> Case { let f: Vec<&str> = s.split(';').collect(); let l: Vec<u16> = f[2].split('.').map(|x| x.parse().unwrap()).collect(); Case { kind: f[0].parse().unwrap(), seq: f[1] == "1", lim: (l[0], l[1], l[2], l[3]), seed: f[3].parse().unwrap(), base: f[4].parse().unwrap(), ops: f[5].split(',').filter(|x| !x.is_empty()).map(|g| g.split('|').map(parse).collect()).collect() } }
}
fn bounds(a: u64, b: u64, c: u64) -> (Bound<u64>, Bound<u64>) { let f = |k, x| match k { 0 => Bound::Included(x), 1 => Bound::Excluded(x), _ => Bound::Unbounded }; (f(c % 3, a), f(c / 3, b)) }
fn kb<K: Kx>(b: Bound<u64>, base: u64) -> Bound<K> { match b { Bound::Included(x) => Bound::Included(K::k(x + base)), Bound::Excluded(x) => Bound::Excluded(K::k(x + base)), Bound::Unbounded => Bound::Unbounded } }
fn within(k: u64, r: &(Bound<u64>, Bound<u64>)) -> bool { (match r.0 { Bound::Included(a) => k >= a, Bound::Excluded(a) => k > a, _ => true }) && (match r.1 { Bound::Included(a) => k <= a, Bound::Excluded(a) => k < a, _ => true }) }
#[derive(Clone, Debug, PartialEq)] enum Ans { V(Option<u32>), K(Option<u64>), S(Vec<(u64, u32)>), Done, Err(Error), Addr(Vec<u64>) }
/// what the operation does to a sorted map
fn model(m: &mut BTreeMap<u64, u32>, o: &Op, v: u32) -> Ans { match o {
    Op::I(k) => Ans::V(m.insert(*k, v)), Op::G(k) => Ans::V(m.get(k).copied()), Op::D(k) => Ans::V(m.remove(k)),
    Op::X(a, b, c) => { let r = bounds(*a, *b, *c); m.retain(|k, _| !within(*k, &r)); Ans::Done }
    Op::Q(a, b, c) => { let r = bounds(*a, *b, *c); Ans::S(m.iter().filter(|(k, _)| within(**k, &r)).map(|(k, v)| (*k, *v)).collect()) }
    Op::L => Ans::K(m.keys().next_back().copied()), _ => Ans::Done } }
/// the n-th zone with a record in it
fn zone(d: &Mem, n: u64) -> u64 { let s: BTreeSet<u64> = d.recs.lock().unwrap().keys().map(|a| a / ZONE).collect(); s.iter().nth(n as usize % s.len().max(1)).copied().unwrap_or(0) }
/// from a transactions back, b of them
fn trange(txg: u32, a: u64, b: u64) -> (u64, u64) { let lo = (txg as u64).saturating_sub(a); (lo, lo + b) }
fn history<K: Kx, V: Vx>(c: &Case) -> R<()> {
    vplock::seed(c.seed); let d = Arc::new(Mem::new()); let mut t: Arc<Tree<DRP, Mem, K, V>> = Arc::new(vp_access::tree(d.clone(), c.seq, c.lim));
    let mut m: BTreeMap<u64, u32> = BTreeMap::new(); let mut txg = TxgT::from(2); let mut n = 0u32; let base = c.base;
    let back: HashMap<K, u64> = HashMap::new2(); let un = |k: K| -> u64 { let mut lo = 0; while K::k(lo + base) != k { lo += 1; if lo > 100_000 { return u64::MAX } } lo };
    let cr = |d: &Mem, x: usize| if K::USES_CREDIT { d.credit(x) } else { Credit::null() };
    for (g, group) in c.ops.iter().enumerate() {
        let when = format!("operation {g} ({})", group.iter().map(fmt).collect::<Vec<_>>().join(" with ")); let n0 = n; let (mut cleaned, t0) = (0, txg.0); if let [Op::Z(z)] = group[..] { cleaned = zone(&d, z); }
        if matches!(group[..], [Op::O]) {
            let t2 = t.clone(); one(Box::pin(async move { t2.flush(txg).await }))?.map_err(|e| format!("{when}: {e}"))?; txg = txg + 1; let l = vp_access::limits(&t);
            let od = t.serialize().map_err(|e| format!("{when}: {e}"))?; let buf = Writable::<speedy::LittleEndian>::write_to_vec(&od).unwrap(); if buf.len() != TreeOnDisk::<DRP>::TYPICAL_SIZE { return Err(format!("{when}: stored in {} bytes", buf.len())); }
            drop(t); d.cache.lock().unwrap().clear(); let od = Readable::<'_, speedy::LittleEndian>::read_from_buffer(&buf).unwrap(); t = Arc::new(Tree::open(d.clone(), c.seq, od)); if vp_access::limits(&t) != l { return Err(format!("{when}: the limits changed")); }
        } else {
            let mut fs: Vec<Pin<Box<dyn Future<Output = Ans>>>> = vec![]; let req = t.credit_requirements();
            for o in group { n += 1; let v = n; let t = t.clone(); let d = d.clone(); let o = o.clone(); let vv = V::v(v);
                fs.push(match o {
                    Op::I(k) => { let c = cr(&d, req.insert + vv.allocated_space()); Box::pin(async move { match t.insert(K::k(k + base), vv, txg, c).await { Ok(x) => Ans::V(x.map(|x| x.n(&d))), Err(e) => Ans::Err(e) } }) }
                    Op::G(k) => Box::pin(async move { match t.get(K::k(k + base)).await { Ok(x) => Ans::V(x.map(|x| x.n(&d))), Err(e) => Ans::Err(e) } }),
                    Op::D(k) => { let c = cr(&d, req.remove); Box::pin(async move { match t.remove(K::k(k + base), txg, c).await { Ok(x) => Ans::V(x.map(|x| x.n(&d))), Err(e) => Ans::Err(e) } }) }
                    Op::X(a, b, x) => { let c = cr(&d, req.range_delete); let r = bounds(a, b, x); let r = (kb::<K>(r.0, base), kb::<K>(r.1, base)); Box::pin(async move { match t.range_delete(r, txg, c).await { Ok(()) => Ans::Done, Err(e) => Ans::Err(e) } }) }
                    Op::Q(a, b, x) => { let r = bounds(a, b, x); let r = (kb::<K>(r.0, base), kb::<K>(r.1, base)); Box::pin(async move { let mut s = Box::pin(t.range(r)); let mut out = vec![]; while let Some(x) = s.next().await { match x { Ok((k, v)) => { let mut lo = 0; while K::k(lo + base) != k { lo += 1 } out.push((lo, v.n(&d))) } Err(e) => return Ans::Err(e) } if out.len() > 10_000 { break } } Ans::S(out) }) }
                    Op::L => Box::pin(async move { match t.last_key().await { Ok(k) => Ans::K(k.map(|k| { let mut lo = 0; while K::k(lo + base) != k { lo += 1 } lo })), Err(e) => Ans::Err(e) } }),
                    Op::F => Box::pin(async move { match t.flush(txg).await { Ok(()) => Ans::Done, Err(e) => Ans::Err(e) } }),
                    Op::Z(z) => { let z = zone(&d, z); { let mut n = d.next.lock().unwrap(); if *n / ZONE <= z { *n = (z + 1) * ZONE; } } let s: BTreeSet<TxgT> = d.recs.lock().unwrap().iter().filter(|(a, _)| **a / ZONE == z).map(|(_, r)| r.1).collect(); if s.is_empty() { Box::pin(async { Ans::Done }) } else { let tx = *s.iter().next().unwrap()..*s.iter().next_back().unwrap() + 1; let p = PBA { cluster: 0, lba: z * ZONE }..PBA { cluster: 0, lba: (z + 1) * ZONE }; Box::pin(async move { match t.clean_zone(p, tx, txg).await { Ok(()) => Ans::Done, Err(e) => Ans::Err(e) } }) } }
                    Op::A(a, b) => { let (a, b) = trange(t0, a, b); Box::pin(async move { let s: Vec<DRP> = t.addresses(TxgT::from(a as u32)..TxgT::from(b as u32)).collect().await; Ans::Addr(s.into_iter().map(|a| a.pba().lba).collect()) }) }
                    Op::O => unreachable!() }); }
            d.hold.store(group.len() > 1 && c.kind < 10, std::sync::atomic::Ordering::Relaxed); let got = vplock::run(fs).map_err(|e| format!("{when}: {e}"))?;
            if let Some(Ans::Err(e)) = got.iter().find(|a| matches!(a, Ans::Err(_))) { return Err(format!("{when}: error {e}")); }
            // some order of the operations explains the answers and what is there now
            let idx: Vec<usize> = (0..group.len()).collect(); let mut fits: Vec<BTreeMap<u64, u32>> = vec![]; let mut first = None;
            for p in perms(&idx) { let mut m2 = m.clone(); let mut ok = true; for i in p { let a = model(&mut m2, &group[i], n0 + 1 + i as u32); if !matches!(got[i], Ans::Addr(_)) && a != got[i] { ok = false; if first.is_none() { first = Some(format!("{:?} instead of {:?}", got[i], a)); } } } if ok && !fits.contains(&m2) { fits.push(m2); } }
            if fits.is_empty() { return Err(format!("{when}: {}", first.unwrap_or_default())); }
            for (o, a) in group.iter().zip(&got) { match (o, a) {
                (Op::F, _) => { if t.is_dirty() { return Err(format!("{when}: the tree is still dirty")); } if let Some(x) = fits.first() { if group.len() == 1 || true { txg = txg + 1; } } }
                (Op::A(lo, hi), Ans::Addr(v)) if group.len() == 1 => { let (lo, hi) = trange(t0, *lo, *hi); let recs = d.recs.lock().unwrap(); let s: BTreeSet<u64> = v.iter().copied().collect(); if s.len() != v.len() { return Err(format!("{when}: an address is listed twice")); } if let Some(x) = s.iter().find(|x| !recs.contains_key(x)) { return Err(format!("{when}: address {x} is not in use")); }
                    if let Some(x) = recs.iter().find(|x| x.1.1 >= TxgT::from(lo as u32) && x.1.1 < TxgT::from(hi as u32) && !s.contains(x.0)) { return Err(format!("{when}: address {}, written in transaction {:?}, is not listed", x.0, x.1.1)); } }
                (Op::Z(_), _) if group.len() == 1 => { let z = &cleaned; if let Some(x) = d.recs.lock().unwrap().keys().find(|a| **a / ZONE == *z) { return Err(format!("{when}: the record at {x} is still there")); } }
                _ => {} } }
            if fits.len() == 1 { m = fits.pop().unwrap(); } else { let now = all(&t, &d, base)?; match fits.iter().find(|x| x.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>() == now) { Some(x) => m = x.clone(), None => return Err(format!("{when}: no order of them explains {now:?}")) } }
        }
        // what is there, in order
        if let Some(b) = d.bad.lock().unwrap().first() { return Err(format!("{when}: {b}")); }
        let now = all(&t, &d, base)?; if now != m.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>() { return Err(format!("{when}: the tree holds {now:?}; it should be {m:?}")); }
        let t2 = t.clone(); if !one(Box::pin(async move { t2.check().await }))?.map_err(|e| format!("{when}: {e}"))? { return Err(format!("{when}: check() finds the tree inconsistent")); }
        let s: Vec<u64> = { let t2 = t.clone(); one2(Box::pin(async move { t2.addresses(..).collect::<Vec<DRP>>().await }))? }.into_iter().map(|a| a.pba().lba).collect();
        let recs: Vec<u64> = d.recs.lock().unwrap().keys().copied().collect(); let mut s2 = s.clone(); s2.sort(); if s2 != recs { return Err(format!("{when}: the records are {recs:?}, the tree's addresses {s2:?}")); }
        if V::NEEDS_FLUSH { let mut n = 0; let s: Vec<V> = { let t2 = t.clone(); one2(Box::pin(async move { let mut s = Box::pin(t2.range(..)); let mut o = vec![]; while let Some(Ok(x)) = s.next().await { o.push(x.1); } o }))? }; for v in &s { if format!("{v:?}").starts_with("Disk") { n += 1; } } let have = d.vals.lock().unwrap().len(); if have != n { return Err(format!("{when}: {have} values are stored outside, the tree has {n}")); } }
    }
    // all credit is given back in the end
    drop(t); if d.wb.capacity() > 0 { let mut f = Box::pin(d.wb.borrow(1 << 40)); let mut cx = Context::from_waker(futures::task::noop_waker_ref()); match f.as_mut().poll(&mut cx) { Poll::Ready(c) => d.wb.repay(c), Poll::Pending => return Err("not all credit is given back".into()) } }
    Ok(())
}
trait New2 { fn new2() -> Self; } impl<K, V> New2 for HashMap<K, V> { fn new2() -> Self { HashMap::default() } }
fn one<T>(f: Pin<Box<dyn Future<Output = Result<T>>>>) -> R<Result<T>> { Ok(vplock::run(vec![f])?.pop().unwrap()) }
fn one2<T>(f: Pin<Box<dyn Future<Output = T>>>) -> R<T> { Ok(vplock::run(vec![f])?.pop().unwrap()) }
fn all<K: Kx, V: Vx>(t: &Arc<Tree<DRP, Mem, K, V>>, d: &Arc<Mem>, base: u64) -> R<Vec<(u64, u32)>> { let t = t.clone(); let d = d.clone(); one2(Box::pin(async move { let mut s = Box::pin(t.range(..)); let mut out = vec![]; let mut lo = 0; while let Some(x) = s.next().await { match x { Ok((k, v)) => { let from = lo; while K::k(lo + base) != k { lo += 1; if lo > from + 100_000 { return Err("the listing is not in order".to_string()) } } out.push((lo, v.n(&d))) } Err(e) => return Err(format!("{e}")) } if out.len() > 10_000 { return Err("the listing never ends".into()) } } Ok(out) }))? }
fn perms(v: &[usize]) -> Vec<Vec<usize>> { if v.is_empty() { return vec![vec![]] } (0..v.len()).flat_map(|i| { let mut w = v.to_vec(); let x = w.remove(i); perms(&w).into_iter().map(move |mut p| { p.insert(0, x); p }) }).collect() }
fn run(c: &Case) -> R<()> {
    let r = catch_unwind(AssertUnwindSafe(|| match c.kind % 10 { 0 => history::<u32, u32>(c), 1 => history::<u32, Val>(c), _ => history::<RID, RID>(c) }));
    match r { Ok(r) => r, Err(e) => Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) }
}

fn main() { let c = "0;1;2.8.2.8;1000045;0;i0,i8,i14,i5,i12,i10,i1,i7,i15,d12,q1.13.2"; if let Err(e) = run(&Case::read(c)) { println!("{e}"); std::process::exit(1); } }
'''
