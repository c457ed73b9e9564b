PROP = "W01"
FILE = "bfffs-core/src/writeback/writeback.rs"
EDITS = [("""        let old = self.0.try_update(Relaxed, Relaxed, |old| {
            let new = (old - (icredit << 1usize)).max(0);
            Some(new)
        }).unwrap();
""", """        let old = self.0.load(Relaxed);
        self.0.store((old - (icredit << 1usize)).max(0), Relaxed);
""")]
NEEDS = "two threads splitting the same credit at once, the second between the first one's load and its store"
BREAKS = "both threads take the same bytes: the pieces and the remainder add up to more than the credit that was split"
DEMO = r'''//% futures = "0.3"
//% auto_enums = { version = "0.8", features = ["futures03"] }
//% serde = "1"
//% serde_derive = "1"
//% shuttle = "0.9"
//= bfffs-core/src/writeback/writeback.rs writeback_src.rs
#![allow(dead_code, unused_imports)]
pub mod vpstd {
    pub use ::std::*;
    pub mod sync {
        pub use ::std::sync::*;
        pub use ::shuttle::sync::{Mutex, MutexGuard};
        pub mod atomic {
            pub use ::std::sync::atomic::*;
            pub struct AtomicIsize(::shuttle::sync::atomic::AtomicIsize);
            impl AtomicIsize { pub fn new(v: isize) -> Self { Self(::shuttle::sync::atomic::AtomicIsize::new(v)) } }
            impl ::std::ops::Deref for AtomicIsize { type Target = ::shuttle::sync::atomic::AtomicIsize; fn deref(&self) -> &Self::Target { &self.0 } }
            impl ::std::ops::DerefMut for AtomicIsize { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }
            impl ::std::fmt::Debug for AtomicIsize { fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result { self.0.fmt(f) } }
            impl ::serde::Serialize for AtomicIsize { fn serialize<S: ::serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_i64(0) } }
        }
    }
}
#[path = "writeback_src.rs"] mod writeback;
use writeback::*;
use futures::FutureExt;
use std::sync::Arc;

fn main() {
    shuttle::check_random(|| {
        let wb = WriteBack::with_capacity(100);
        let c = Arc::new(wb.borrow(10).now_or_never().unwrap());
        let c2 = c.clone();
        let t = shuttle::thread::spawn(move || { let p = c2.atomic_split(3); drop(c2); p });
        let mut a = c.atomic_split(4);
        let b = t.join().unwrap();
        let mut rest = Arc::try_unwrap(c).unwrap();
        rest.extend(b);
        a.extend(rest);
        let ok = a == 10usize;
        std::mem::forget(a);
        assert!(ok, "splitting changed the total");
    }, 2000);
}
'''
