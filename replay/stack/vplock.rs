//! Stand-ins for futures_locks and tokio::spawn on one thread, with a scheduler that picks what runs next.
use std::{cell::{Cell, RefCell, UnsafeCell}, fmt, future::Future, ops::{Deref, DerefMut}, pin::Pin, sync::{Arc, Mutex}, task::{Context, Poll}};
thread_local! { static RNG: Cell<u64> = const { Cell::new(1) }; static TASKS: RefCell<Vec<Pin<Box<dyn Future<Output = ()> + Send>>>> = const { RefCell::new(Vec::new()) }; }
pub fn seed(s: u64) { RNG.with(|r| r.set(s.wrapping_mul(0x9E3779B97F4A7C15) | 1)); TASKS.with(|t| t.borrow_mut().clear()); }
pub fn below(n: u64) -> u64 { RNG.with(|r| { let mut x = r.get(); x ^= x << 13; x ^= x >> 7; x ^= x << 17; r.set(x); (x.wrapping_mul(0x2545F4914F6CDD1D) >> 17) % n }) }
pub fn spawn<F: Future<Output = ()> + Send + 'static>(f: F) { TASKS.with(|t| t.borrow_mut().push(Box::pin(f))) }
/// runs all futures together to their ends, in some order of steps
pub fn run<T>(fs: Vec<Pin<Box<dyn Future<Output = T> + '_>>>) -> Result<Vec<T>, String> {
    let mut fs: Vec<Option<_>> = fs.into_iter().map(Some).collect(); let mut out: Vec<Option<T>> = fs.iter().map(|_| None).collect();
    let mut cx = Context::from_waker(futures::task::noop_waker_ref()); let mut idle = 0;
    while fs.iter().any(|f| f.is_some()) {
        let live: Vec<usize> = (0..fs.len()).filter(|i| fs[*i].is_some()).collect(); let mut spawned = TASKS.with(|t| std::mem::take(&mut *t.borrow_mut()));
        let i = below((live.len() + spawned.len()) as u64) as usize; idle += 1;
        if i < live.len() { let i = live[i]; if let Poll::Ready(x) = fs[i].as_mut().unwrap().as_mut().poll(&mut cx) { fs[i] = None; out[i] = Some(x); idle = 0; } }
        else { let j = i - live.len(); if let Poll::Ready(()) = spawned[j].as_mut().poll(&mut cx) { drop(spawned.remove(j)); idle = 0; } }
        TASKS.with(|t| { let mut t = t.borrow_mut(); spawned.append(&mut t); *t = spawned; });
        if idle > 200_000 { return Err("it never completes".into()) }
    }
    Ok(out.into_iter().map(|x| x.unwrap()).collect())
}
struct Inner<T: ?Sized> { state: Mutex<(usize, bool)>, data: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for Inner<T> {}
unsafe impl<T: ?Sized + Send> Sync for Inner<T> {}
pub struct RwLock<T: ?Sized>(Arc<Inner<T>>);
impl<T: ?Sized> Clone for RwLock<T> { fn clone(&self) -> Self { RwLock(self.0.clone()) } }
impl<T: fmt::Debug> fmt::Debug for RwLock<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "RwLock") } }
#[derive(Clone, Copy, Debug)] pub struct TryLockError;
impl<T> RwLock<T> {
    pub fn new(t: T) -> Self { RwLock(Arc::new(Inner { state: Mutex::new((0, false)), data: UnsafeCell::new(t) })) }
    pub fn try_read(&self) -> Result<RwLockReadGuard<T>, TryLockError> { let mut s = self.0.state.lock().unwrap(); if s.1 { Err(TryLockError) } else { s.0 += 1; Ok(RwLockReadGuard(self.clone())) } }
    pub fn try_write(&self) -> Result<RwLockWriteGuard<T>, TryLockError> { let mut s = self.0.state.lock().unwrap(); if s.1 || s.0 > 0 { Err(TryLockError) } else { s.1 = true; Ok(RwLockWriteGuard(self.clone())) } }
    pub fn read(&self) -> ReadFut<T> { let g = if below(2) == 0 { self.try_read().ok() } else { None }; ReadFut(self.clone(), g) }
    pub fn write(&self) -> WriteFut<T> { let g = if below(2) == 0 { self.try_write().ok() } else { None }; WriteFut(self.clone(), g) }
    pub fn get_mut(&mut self) -> Option<&mut T> { Arc::get_mut(&mut self.0).map(|i| i.data.get_mut()) }
    pub fn try_unwrap(self) -> Result<T, RwLock<T>> { Arc::try_unwrap(self.0).map(|i| i.data.into_inner()).map_err(RwLock) }
}
pub struct ReadFut<T>(RwLock<T>, Option<RwLockReadGuard<T>>);
pub struct WriteFut<T>(RwLock<T>, Option<RwLockWriteGuard<T>>);
impl<T> Unpin for ReadFut<T> {} impl<T> Unpin for WriteFut<T> {}
impl<T> Future for ReadFut<T> { type Output = RwLockReadGuard<T>; fn poll(mut self: Pin<&mut Self>, c: &mut Context) -> Poll<Self::Output> { if let Some(g) = self.1.take() { return Poll::Ready(g) } match self.0.try_read() { Ok(g) => Poll::Ready(g), Err(_) => { c.waker().wake_by_ref(); Poll::Pending } } } }
impl<T> Future for WriteFut<T> { type Output = RwLockWriteGuard<T>; fn poll(mut self: Pin<&mut Self>, c: &mut Context) -> Poll<Self::Output> { if let Some(g) = self.1.take() { return Poll::Ready(g) } match self.0.try_write() { Ok(g) => Poll::Ready(g), Err(_) => { c.waker().wake_by_ref(); Poll::Pending } } } }
pub struct RwLockReadGuard<T: ?Sized>(RwLock<T>);
pub struct RwLockWriteGuard<T: ?Sized>(RwLock<T>);
impl<T: ?Sized> Drop for RwLockReadGuard<T> { fn drop(&mut self) { self.0.0.state.lock().unwrap().0 -= 1; } }
impl<T: ?Sized> Drop for RwLockWriteGuard<T> { fn drop(&mut self) { self.0.0.state.lock().unwrap().1 = false; } }
impl<T: ?Sized> Deref for RwLockReadGuard<T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.0.data.get() } } }
impl<T: ?Sized> Deref for RwLockWriteGuard<T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.0.data.get() } } }
impl<T: ?Sized> DerefMut for RwLockWriteGuard<T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0.0.data.get() } } }
