PROP = 'W03'
FILE = 'bfffs-core/src/writeback/writeback.rs'
EDITS = [('                        // The borrower abandoned his loan application\n                        self.supply.fetch_add(wants, Relaxed);\n                    }\n', '                        // The borrower abandoned his loan application\n                        self.supply.fetch_add(wants, Relaxed);\n                        if !guard.is_empty() {\n                            // The next repayment will see to the rest\n                            break;\n                        }\n                    }\n')]
NEEDS = 'an abandoned request at the head of the queue with a live one behind it when credit is repaid'
BREAKS = 'the round ends at the abandoned request: the next waiter sleeps on though its credit is free'
DEMO = r'''//% futures = "0.3"
//% auto_enums = { version = "0.8", features = ["futures03"] }
//% serde = "1"
//% serde_derive = "1"

#[path = "@REPO@/bfffs-core/src/writeback/writeback.rs"] mod writeback;
use writeback::*;
use futures::{Future, FutureExt};
fn main() {
    let wb = WriteBack::with_capacity(10);
    let mut cx = std::task::Context::from_waker(futures::task::noop_waker_ref());
    let c = wb.borrow(10).now_or_never().unwrap();
    let mut f1 = Box::pin(wb.borrow(4));
    let mut f2 = Box::pin(wb.borrow(5));
    assert!(f1.as_mut().poll(&mut cx).is_pending() && f2.as_mut().poll(&mut cx).is_pending());
    drop(f1);
    wb.repay(c);
    match f2.as_mut().poll(&mut cx) { std::task::Poll::Ready(c) => wb.repay(c), _ => panic!("10 bytes are free, the first waiter wants 5 and sleeps") }
}
'''
