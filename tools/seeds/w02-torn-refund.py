PROP = 'W02'
FILE = 'bfffs-core/src/writeback/writeback.rs'
EDITS = [('                        // The borrower abandoned his loan application\n                        self.supply.fetch_add(wants, Relaxed);\n', '                        // The borrower abandoned his loan application\n                        let supply = self.supply.load(Relaxed);\n                        self.supply.store(supply + wants, Relaxed);\n')]
NEEDS = 'a repayment that finds an abandoned request at the head of the queue while another thread repays (or asks for) credit at the same time'
BREAKS = "the other thread's change to the supply is overwritten: repaid credit is lost for good, or credit is lent twice"
DEMO = r'''//% futures = "0.3"
//% auto_enums = { version = "0.8", features = ["futures03"] }
//% serde = "1"
//% serde_derive = "1"
//% shuttle = "0.9"
//= bfffs-core/src/writeback/writeback.rs writeback_src.rs
#![allow(dead_code, unused_imports)]
pub mod vpstd {
    pub use ::std::*;
    pub mod sync {
        pub use ::std::sync::*;
        pub use ::shuttle::sync::{Mutex, MutexGuard};
        pub mod atomic {
            pub use ::std::sync::atomic::*;
            pub struct AtomicIsize(::shuttle::sync::atomic::AtomicIsize);
            impl AtomicIsize { pub fn new(v: isize) -> Self { Self(::shuttle::sync::atomic::AtomicIsize::new(v)) } }
            impl ::std::ops::Deref for AtomicIsize { type Target = ::shuttle::sync::atomic::AtomicIsize; fn deref(&self) -> &Self::Target { &self.0 } }
            impl ::std::ops::DerefMut for AtomicIsize { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }
            impl ::std::fmt::Debug for AtomicIsize { fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result { self.0.fmt(f) } }
            impl ::serde::Serialize for AtomicIsize { fn serialize<S: ::serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_i64(0) } }
        }
    }
}
#[path = "writeback_src.rs"] mod writeback;
use writeback::*;
use futures::FutureExt;
use std::sync::Arc;


fn main() {
    shuttle::check_random(|| {
        let wb = Arc::new(WriteBack::with_capacity(10));
        let mut cx = std::task::Context::from_waker(futures::task::noop_waker_ref());
        let a = wb.borrow(5).now_or_never().unwrap();
        let b = wb.borrow(5).now_or_never().unwrap();
        let mut f = Box::pin(wb.borrow(3));
        assert!(std::future::Future::poll(f.as_mut(), &mut cx).is_pending());
        drop(f);
        let wb2 = wb.clone();
        let t = shuttle::thread::spawn(move || wb2.repay(a));
        wb.repay(b);
        t.join().unwrap();
        match wb.borrow(10).now_or_never() {
            Some(c) => wb.repay(c),
            None => panic!("all credit was repaid, but it cannot be borrowed again")
        }
    }, 3000);
}
'''
