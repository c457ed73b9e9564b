//! What the block layer uses of crates that are absent here: an in-memory disk behind tokio-file's interface, a deterministic executor behind tokio's, and a few names.
#![allow(dead_code, unused)]
use std::{cell::RefCell, collections::{BTreeMap, HashMap}, future::Future, io, marker::PhantomData, path::{Path, PathBuf}, pin::Pin, sync::{Arc, Mutex, atomic::{AtomicBool, AtomicU64, Ordering}}, task::{Context, Poll, Wake, Waker}};
#[macro_export] macro_rules! vp_nonzero { ($e:expr) => { std::num::NonZero::new($e).unwrap() } }
pub use crate::vp_nonzero as nonzero;
pub mod byteorder {
    pub trait ByteOrder { fn read_u64(b: &[u8]) -> u64; fn write_u64(b: &mut [u8], n: u64); }
    pub struct BigEndian;
    impl ByteOrder for BigEndian { fn read_u64(b: &[u8]) -> u64 { u64::from_be_bytes(b[..8].try_into().unwrap()) } fn write_u64(b: &mut [u8], n: u64) { b[..8].copy_from_slice(&n.to_be_bytes()) } }
    pub struct LittleEndian;
    impl ByteOrder for LittleEndian { fn read_u64(b: &[u8]) -> u64 { u64::from_le_bytes(b[..8].try_into().unwrap()) } fn write_u64(b: &mut [u8], n: u64) { b[..8].copy_from_slice(&n.to_le_bytes()) } }
}
#[allow(non_camel_case_types)] pub enum SysconfVar { IOV_MAX }
/// small, so that the limit is met
pub const IOV: i64 = 6;
pub fn sysconf(_: SysconfVar) -> Result<Option<i64>, ()> { Ok(Some(IOV)) }
pub mod libc { #![allow(non_camel_case_types)] pub const O_DIRECT: i32 = 0; pub const O_EXLOCK: i32 = 0; pub type c_int = i32; pub type off_t = i64; }
pub mod nix { pub mod errno { pub struct Errno; impl Errno { pub fn last_raw() -> i32 { 25 } } } pub mod libc { pub use super::super::libc::*; pub type c_uint = u32; } }
pub mod ffi {
    use super::libc::{c_int, off_t}; use crate::types::Error;
    pub union diocgattr_arg_value { pub off: off_t, pub i: c_int }
    pub struct diocgattr_arg { pub name: [u8; 64], pub len: c_int, pub value: diocgattr_arg_value }
    pub unsafe fn diocgattr(fd: i32, a: *mut diocgattr_arg) -> Result<i32, Error> { match super::by_fd(fd) { Some(d) if d.lock().deletable => { unsafe { (*a).value.i = 1; } Ok(0) } _ => Err(Error::ENOTTY) } }
    pub unsafe fn diocgmediasize(_: i32, _: *mut off_t) -> Result<i32, Error> { Err(Error::ENOTTY) }
    pub unsafe fn diocgdelete(fd: i32, a: &[off_t; 2]) -> Result<i32, Error> { match super::by_fd(fd) { Some(d) => { let mut s = d.lock(); s.log.push(super::Ev { k: super::K::Erase, lba: a[0] as u64 / 4096, lbas: a[1] as u64 / 4096, bufs: 0, data: 0, taken: true }); for l in a[0] as u64 / 4096..(a[0] + a[1]) as u64 / 4096 { s.data.remove(&l); } Ok(0) } None => Err(Error::ENOTTY) } }
    pub unsafe fn diocgsectorsize(_: i32, _: *mut u32) -> std::io::Result<i32> { Ok(0) }
    pub unsafe fn diocgstripesize(_: i32, _: *mut off_t) -> std::io::Result<i32> { Ok(0) }
}
#[derive(Debug, Clone, Copy)] pub enum EraseMethod { None, Diocgdelete }
#[derive(Debug)] pub struct AtomicEraseMethod(EraseMethod);
impl AtomicEraseMethod { pub fn new(e: EraseMethod) -> Self { Self(e) } pub fn load(&self, _: Ordering) -> EraseMethod { self.0 } }
// ---- the disk
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub enum K { Read, Write, Sync, Erase }
/// one operation as the device received it
#[derive(Clone, Debug, PartialEq)] pub struct Ev { pub k: K, pub lba: u64, pub lbas: u64, pub bufs: usize, pub data: u64, /// false: the device refused it (EAGAIN)
    pub taken: bool }
struct Op { k: K, off: u64, iov: Vec<(*mut u8, usize)>, done: Option<Result<usize, i32>>, waker: Option<Waker>, id: u64, epoch: usize }
unsafe impl Send for Op {}
#[derive(Default)] pub struct DiskState {
    pub lbas: u64, pub data: HashMap<u64, Vec<u8>>,
    /// what a block never written holds
    pub fill: Option<fn(u64) -> u8>,
    /// what a crash leaves: everything completed before the last completed sync
    pub log: Vec<Ev>, pend: Vec<Arc<Mutex<Op>>>,
    /// refuse the operation that many submissions from now with EAGAIN
    pub eagain: Vec<u64>, pub submissions: u64,
    /// operations that complete while being submitted
    pub immediate: bool,
    /// fail every read, every write, every sync
    pub fail: [Option<i32>; 3], pub bad: std::collections::HashSet<u64>, pub errors: Vec<String>, /// answers TRIM
    pub deletable: bool, pub dead: bool, fd: i32, pub max_depth: usize,
}
impl std::fmt::Debug for Disk { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("disk") } }
pub struct Disk(pub Mutex<DiskState>);
fn hash(d: &[u8], mut h: u64) -> u64 {
    let mut c = d.chunks_exact(8); for w in &mut c { h = (h ^ u64::from_le_bytes(w.try_into().unwrap())).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(29); }
    for &b in c.remainder() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } h
}
pub const HASH0: u64 = 0xcbf29ce484222325;
pub fn fnv(d: &[u8]) -> u64 { hash(d, HASH0) }
impl Disk {
    pub fn new(lbas: u64) -> Arc<Disk> { Arc::new(Disk(Mutex::new(DiskState { lbas, ..Default::default() }))) }
    pub fn lock(&self) -> std::sync::MutexGuard<'_, DiskState> { self.0.lock().unwrap_or_else(|e| e.into_inner()) }
    pub fn take_log(&self) -> Vec<Ev> { std::mem::take(&mut self.lock().log) }
    pub fn block(&self, lba: u64) -> Vec<u8> { let s = self.lock(); s.data.get(&lba).cloned().unwrap_or_else(|| vec![s.fill.map_or(0, |f| f(lba)); 4096]) }
    pub fn set(&self, lba: u64, d: Vec<u8>) { self.lock().data.insert(lba, d); }
    pub fn pending(&self) -> usize { self.lock().pend.len() }
    pub fn kinds(&self) -> Vec<K> { self.lock().pend.iter().map(|o| o.lock().unwrap().k).collect() }
    /// completes the i-th operation in flight
    pub fn complete(&self, i: usize) {
        let mut s = self.lock();
        let o = s.pend.remove(i); let mut o = o.lock().unwrap_or_else(|e| e.into_inner());
        let r = apply(&mut s, &o); o.done = Some(r);
        if let Some(w) = o.waker.take() { w.wake(); }
    }
}
fn apply(s: &mut DiskState, o: &Op) -> Result<usize, i32> {
    if let Some(e) = s.fail[match o.k { K::Read => 0, K::Write => 1, _ => 2 }] { return Err(e); }
    let mut n = 0; let mut lba = o.off / 4096;
    match o.k {
        K::Sync | K::Erase => {}
        _ => {
            let total: usize = o.iov.iter().map(|v| v.1).sum();
            if (o.off + total as u64) > s.lbas * 4096 { s.errors.push(format!("{:?} beyond the end of the disk: offset {} length {}", o.k, o.off, total)); return Err(22); }
            if o.iov.iter().any(|v| v.1 % 4096 != 0) || o.off % 4096 != 0 { s.errors.push(format!("{:?} not in whole blocks: offset {} lengths {:?}", o.k, o.off, o.iov.iter().map(|v| v.1).collect::<Vec<_>>())); return Err(22); }
            for i in 0..(total / 4096) as u64 { if o.k == K::Read && s.bad.contains(&(lba + i)) { return Err(5); } }
            for &(p, l) in &o.iov { for c in 0..l / 4096 {
                let b = unsafe { std::slice::from_raw_parts_mut(p.add(c * 4096), 4096) };
                if o.k == K::Write { s.data.insert(lba, b.to_vec()); } else { match s.data.get(&lba) { Some(d) => b.copy_from_slice(d), None => b.fill(s.fill.map_or(0, |f| f(lba))) } }
                lba += 1; } n += l; }
        }
    }
    Ok(n)
}
static DISKS: Mutex<BTreeMap<PathBuf, Arc<Disk>>> = Mutex::new(BTreeMap::new());
static FDS: Mutex<Vec<std::sync::Weak<Disk>>> = Mutex::new(vec![]);
pub fn by_fd(fd: i32) -> Option<Arc<Disk>> { FDS.lock().unwrap_or_else(|e| e.into_inner()).get(fd as usize).and_then(|w| w.upgrade()) }
pub fn plug(path: &str, d: Arc<Disk>) {
    { let mut f = FDS.lock().unwrap_or_else(|e| e.into_inner()); let i = f.iter().position(|w| w.strong_count() == 0).unwrap_or(f.len()); if i == f.len() { f.push(Arc::downgrade(&d)); } else { f[i] = Arc::downgrade(&d); } d.lock().fd = i as i32; }
    DISKS.lock().unwrap_or_else(|e| e.into_inner()).insert(path.into(), d); }
pub fn unplug(path: &str) { DISKS.lock().unwrap_or_else(|e| e.into_inner()).remove(Path::new(path)); }
#[derive(Clone, Default)] pub struct OpenOptions;
impl OpenOptions { pub fn new() -> Self { OpenOptions } pub fn read(&mut self, _: bool) -> &mut Self { self } pub fn write(&mut self, _: bool) -> &mut Self { self } pub fn custom_flags(&mut self, _: i32) -> &mut Self { self }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<fs::File> { DISKS.lock().unwrap_or_else(|e| e.into_inner()).get(p.as_ref()).cloned().map(fs::File).ok_or(io::Error::from_raw_os_error(2)) } }
pub mod fs { use super::*;
    #[derive(Debug)] pub struct File(pub Arc<Disk>);
    pub struct Md(u64); pub struct Ft;
    impl File { pub fn metadata(&self) -> io::Result<Md> { Ok(Md(self.0.lock().lbas * 4096)) } }
    impl Md { pub fn len(&self) -> u64 { self.0 } pub fn file_type(&self) -> Ft { Ft } }
    impl Ft { pub fn is_block_device(&self) -> bool { false } pub fn is_char_device(&self) -> bool { false } }
}
pub type RawFd = i32;
#[derive(Debug)] pub struct BorrowedFd<'a>(Arc<Disk>, PhantomData<&'a ()>);
pub trait AsFd { fn as_fd(&self) -> BorrowedFd<'_>; } pub trait AsRawFd { fn as_raw_fd(&self) -> RawFd; }
impl AsFd for fs::File { fn as_fd(&self) -> BorrowedFd<'_> { BorrowedFd(self.0.clone(), PhantomData) } }
impl AsRawFd for fs::File { fn as_raw_fd(&self) -> RawFd { self.0.lock().fd } } impl<'a> AsRawFd for BorrowedFd<'a> { fn as_raw_fd(&self) -> RawFd { self.0.lock().fd } }
pub trait HasDisk { fn disk(&self) -> Arc<Disk>; } impl HasDisk for fs::File { fn disk(&self) -> Arc<Disk> { self.0.clone() } } impl<'a> HasDisk for BorrowedFd<'a> { fn disk(&self) -> Arc<Disk> { self.0.clone() } }
static IDS: AtomicU64 = AtomicU64::new(0);
pub struct Io<'a> { disk: Arc<Disk>, op: Arc<Mutex<Op>>, sent: bool, ph: PhantomData<&'a mut ()> }
impl<'a> Io<'a> { fn new(disk: Arc<Disk>, k: K, off: u64, iov: Vec<(*mut u8, usize)>) -> Self { Io { disk, op: Arc::new(Mutex::new(Op { k, off, iov, done: None, waker: None, id: IDS.fetch_add(1, Ordering::Relaxed), epoch: 0 })), sent: false, ph: PhantomData } } }
impl<'a> Future for Io<'a> { type Output = io::Result<usize>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if !self.sent {
            let mut s = self.disk.lock(); let n = s.submissions; s.submissions += 1;
            let mut o = self.op.lock().unwrap();
            let len: usize = o.iov.iter().map(|v| v.1).sum();
            let h = if o.k == K::Write { o.iov.iter().fold(HASH0, |h, v| hash(unsafe { std::slice::from_raw_parts(v.0, v.1) }, h)) } else { 0 };
            let e = Ev { k: o.k, lba: o.off / 4096, lbas: (len / 4096) as u64, bufs: o.iov.len(), data: h, taken: !s.eagain.contains(&n) }; let t = e.taken; s.log.push(e);
            if !t { return Poll::Ready(Err(io::Error::from_raw_os_error(11))); }
            if s.immediate { let r = apply(&mut s, &o); drop(o); drop(s); self.sent = true; return Poll::Ready(r.map_err(io::Error::from_raw_os_error)); }
            o.waker = Some(cx.waker().clone()); drop(o); let op = self.op.clone(); s.pend.push(op); let d = s.pend.len(); if d > s.max_depth { s.max_depth = d; } drop(s); self.sent = true;
            return Poll::Pending;
        }
        let mut o = self.op.lock().unwrap();
        match o.done.take() { Some(r) => Poll::Ready(r.map_err(io::Error::from_raw_os_error)), None => { o.waker = Some(cx.waker().clone()); Poll::Pending } }
    } }
impl<'a> Drop for Io<'a> { fn drop(&mut self) { if self.sent { let id = match self.op.lock() { Ok(o) => o.id, Err(e) => e.into_inner().id }; let mut s = self.disk.lock(); s.pend.retain(|o| o.lock().map(|o| o.id != id).unwrap_or(true)); } } }
pub mod tokio_file { pub type ReadAt<'a> = super::Io<'a>; pub type WriteAt<'a> = super::Io<'a>; pub type ReadvAt<'a> = super::Io<'a>; pub type WritevAt<'a> = super::Io<'a>; pub type SyncAll<'a> = super::Io<'a>; pub use super::AioFileExt; }
pub trait AioFileExt: HasDisk {
    fn read_at<'a>(&self, b: &'a mut [u8], off: u64) -> io::Result<Io<'a>> { Ok(Io::new(self.disk(), K::Read, off, vec![(b.as_mut_ptr(), b.len())])) }
    fn write_at<'a>(&self, b: &'a [u8], off: u64) -> io::Result<Io<'a>> { Ok(Io::new(self.disk(), K::Write, off, vec![(b.as_ptr() as *mut u8, b.len())])) }
    fn readv_at<'a>(&self, b: &mut [io::IoSliceMut<'a>], off: u64) -> io::Result<Io<'a>> { Ok(Io::new(self.disk(), K::Read, off, b.iter_mut().map(|s| (s.as_mut_ptr(), s.len())).collect())) }
    fn writev_at<'a>(&self, b: &[io::IoSlice<'a>], off: u64) -> io::Result<Io<'a>> { Ok(Io::new(self.disk(), K::Write, off, b.iter().map(|s| (s.as_ptr() as *mut u8, s.len())).collect())) }
    fn sync_all<'a>(&'a self) -> io::Result<Io<'a>> { Ok(Io::new(self.disk(), K::Sync, 0, vec![])) }
}
impl<T: HasDisk> AioFileExt for T {}
/// runs `f` in several threads, each with its number, until all are done
pub const THREADS: usize = 6;
pub fn par<T: Send + 'static>(f: impl Fn(usize) -> T + Send + Sync + 'static) -> Vec<T> { let f = Arc::new(f); let h: Vec<_> = (0..THREADS).map(|i| { let f = f.clone(); std::thread::spawn(move || f(i)) }).collect(); h.into_iter().map(|h| h.join().unwrap()).collect() }
pub fn mypath(s: &str) -> String { format!("{s}-{:?}", std::thread::current().id()) }
// ---- the executor
struct Flag(AtomicBool);
impl Wake for Flag { fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst) } }
struct Task { f: Pin<Box<dyn Future<Output = ()>>>, w: Arc<Flag> }
#[derive(Default)] struct Ex { new: Vec<Task>, now: u64, sleepers: Vec<(u64, Waker)> }
thread_local! { static EX: RefCell<Ex> = RefCell::new(Ex::default()); }
pub mod tokio { 
    pub fn spawn<F: std::future::Future + 'static>(f: F) { super::EX.with(|e| e.borrow_mut().new.push(super::Task { f: Box::pin(async move { f.await; }), w: std::sync::Arc::new(super::Flag(true.into())) })) }
    pub mod time { pub fn sleep(d: std::time::Duration) -> super::super::Sleep { super::super::EX.with(|e| super::super::Sleep(e.borrow().now + d.as_micros() as u64)) } }
    pub mod task { pub fn spawn_blocking<T, F: FnOnce() -> T>(f: F) -> std::future::Ready<std::result::Result<T, ()>> { std::future::ready(Ok(f())) } }
}
pub struct Sleep(u64);
impl Future for Sleep { type Output = (); fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> { EX.with(|e| { let mut e = e.borrow_mut(); if e.now >= self.0 { Poll::Ready(()) } else { e.sleepers.push((self.0, cx.waker().clone())); Poll::Pending } }) } }
/// Tasks run until nothing is left to do; disk operations complete in the order `choose` picks.
#[derive(Default)] pub struct Sim { tasks: Vec<Option<Task>>, pub disks: Vec<Arc<Disk>>, pub panics: Vec<String> }
impl Sim {
    pub fn new(disks: Vec<Arc<Disk>>) -> Self { EX.with(|e| { *e.borrow_mut() = Ex::default(); }); Sim { tasks: vec![], disks, panics: vec![] } }
    pub fn spawn<F: Future<Output = ()> + 'static>(&mut self, f: F) { self.tasks.push(Some(Task { f: Box::pin(f), w: Arc::new(Flag(true.into())) })) }
    /// polls what can make progress, without completing any disk operation
    pub fn settle(&mut self) {
        loop {
            EX.with(|e| self.tasks.extend(e.borrow_mut().new.drain(..).map(Some)));
            let mut any = false;
            for i in 0..self.tasks.len() {
                if !self.tasks[i].as_ref().map_or(false, |t| t.w.0.swap(false, Ordering::SeqCst)) { continue; }
                any = true; let mut t = self.tasks[i].take().unwrap(); let w = Waker::from(t.w.clone()); let mut cx = Context::from_waker(&w);
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.f.as_mut().poll(&mut cx))) { Ok(Poll::Pending) => self.tasks[i] = Some(t), Ok(Poll::Ready(())) => {}
                    Err(p) => { let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()); self.panics.push(m); std::mem::forget(t); } }
            }
            if !any && EX.with(|e| e.borrow().new.is_empty()) { break; }
        }
        self.tasks.retain(|t| t.is_some());
    }
    pub fn in_flight(&self) -> Vec<(usize, usize)> { self.disks.iter().enumerate().flat_map(|(d, x)| (0..x.pending()).map(move |i| (d, i))).collect() }
    /// one completion, or one step of time; false if nothing is left
    pub fn step(&mut self, choose: &mut dyn FnMut(usize) -> usize) -> bool {
        self.settle();
        let p = self.in_flight();
        if p.is_empty() {
            let w = EX.with(|e| { let mut e = e.borrow_mut(); e.sleepers.sort_by_key(|s| s.0); if e.sleepers.is_empty() { None } else { let s = e.sleepers.remove(0); if s.0 > e.now { e.now = s.0; } Some(s.1) } });
            return match w { Some(w) => { w.wake(); self.settle(); true } None => false };
        }
        let (d, i) = p[choose(p.len())]; self.disks[d].complete(i); self.settle(); true
    }
    /// true if every task finished
    pub fn run(&mut self, choose: &mut dyn FnMut(usize) -> usize) -> bool { let mut n = 0u64; while self.step(choose) { n += 1; if n > 2_000_000 { return false; } } self.tasks.is_empty() }
    pub fn idle(&self) -> bool { self.tasks.is_empty() }
    /// runs one future to its end
    pub fn block_on<T: 'static>(&mut self, f: impl Future<Output = T> + 'static, choose: &mut dyn FnMut(usize) -> usize) -> Option<T> {
        let out = std::rc::Rc::new(RefCell::new(None)); let o2 = out.clone(); self.spawn(async move { let r = f.await; *o2.borrow_mut() = Some(r); });
        let mut n = 0u64; self.settle();
        loop { if let Some(r) = out.borrow_mut().take() { return Some(r); } if !self.step(choose) { return out.borrow_mut().take(); } n += 1; if n > 2_000_000 { return None; } }
    }
}
