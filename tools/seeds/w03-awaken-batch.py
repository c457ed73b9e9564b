PROP = 'W03'
FILE = 'bfffs-core/src/writeback/writeback.rs'
EDITS = [('        let mut guard = self.sleepers.lock().unwrap();\n        loop {\n            if let Some(sleeper) = guard.front() {', '        let mut guard = self.sleepers.lock().unwrap();\n        // Limit the latency of a single repayment\n        for _ in 0..16 {\n            if let Some(sleeper) = guard.front() {')]
NEEDS = 'more than sixteen requests queued when one repayment would satisfy all of them'
BREAKS = 'the seventeenth waiter sleeps on though enough credit is free, and so do newcomers'
DEMO = r'''//% futures = "0.3"
//% auto_enums = { version = "0.8", features = ["futures03"] }
//% serde = "1"
//% serde_derive = "1"

#[path = "@REPO@/bfffs-core/src/writeback/writeback.rs"] mod writeback;
use writeback::*;
use futures::{Future, FutureExt};
fn main() {
    let wb = WriteBack::with_capacity(100);
    let mut cx = std::task::Context::from_waker(futures::task::noop_waker_ref());
    let c = wb.borrow(100).now_or_never().unwrap();
    let mut fs: Vec<_> = (0..40).map(|_| Box::pin(wb.borrow(1))).collect();
    for f in &mut fs { assert!(f.as_mut().poll(&mut cx).is_pending()) }
    wb.repay(c);
    let mut got = vec![];
    for (i, f) in fs.iter_mut().enumerate() {
        match f.as_mut().poll(&mut cx) { std::task::Poll::Ready(c) => got.push(c), _ => { for c in got { std::mem::forget(c) } panic!("waiter {i} sleeps though credit is free") } }
    }
    for c in got { wb.repay(c) }
}
'''
