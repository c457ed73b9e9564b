PROP = 'M01'
FILE = 'bfffs-core/src/mirror.rs'
EDITS = [('                            self.children[child_idx].as_present().cloned()', '                            match &self.children[child_idx] {\n                                Child::Present(vb) | Child::Rebuilding(vb) =>\n                                    Some(vb.clone()),\n                                _ => None\n                            }')]
KIT = ["vp/__init__.py", "vp/gens.py", "vp/rustsrc.py", "replay/stack/vpshim.rs"]
NEEDS = 'a read that the complete leaf cannot serve, while another leaf is being rebuilt'
BREAKS = 'the leaf being rebuilt is asked as a last resort: the read succeeds with whatever that disk held before'
DEMO = r'''//! kit stack
//% serde = { version = "1", features = ["derive"] }
//% serde_derive = "1"
//% speedy = { version = "0.8", features = ["uuid"] }
//% uuid = { version = "1", features = ["v4"] }
//% futures = "0.3"
//% fixedbitset = { version = "0.4.0", default-features = false }
//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% metrohash = "1.0"
//% tracing = { version = "0.1", features = ["attributes"] }
//% enum_dispatch = "0.3.12"
//% auto_enums = { version = "0.8", features = ["futures03"] }
//% pin-project = "1"
//% itertools = "0.13"
//% bfffs-isa-l = { path = "@REPO@/bfffs-isa-l" }
#![allow(dead_code, unused_imports, unused_macros, unused_mut)]
pub mod types; pub mod util; pub mod label; pub mod vdev; pub mod vpshim; pub mod vdev_file; pub mod vdev_block; pub mod mirror; pub mod raid; pub mod cluster;
pub use types::*; pub use util::*;
use vpshim::*; use divbuf::*; use vdev::{Vdev, Health, FaultedReason}; use mirror::Mirror; use raid::{RaidImpl, VdevRaidApi}; use std::num::{NonZeroU8, NonZeroU64};
use std::sync::Arc;
fn buf(n: usize, x: u8) -> IoVec { let d = DivBufShared::from(vec![x; n * 4096]); let r = d.try_const().unwrap(); std::mem::forget(d); r }
fn disk(p: &str) -> String { plug(p, Disk::new(2000)); p.to_string() }
fn mirror(i: usize, n: usize) -> Mirror { let p: Vec<String> = (0..n).map(|j| disk(&format!("/d{i}.{j}"))).collect(); Mirror::create(&p, NonZeroU64::new(100)).unwrap() }
fn degraded(n: u8) -> Health { Health::Degraded(NonZeroU8::new(n).unwrap()) }
fn block(b: u8) -> DivBufShared { DivBufShared::from(vec![b; 4096]) }

fn main() {
    let (a, b) = (Disk::new(2000), Disk::new(2000));
    plug("/a", a.clone()); plug("/b", b.clone());
    let mut m = Mirror::create(&["/a"], NonZeroU64::new(100)).unwrap();
    let mut sim = Sim::new(vec![a.clone(), b.clone()]);
    let d = block(7); sim.block_on(m.write_at(d.try_const().unwrap(), 150), &mut |_| 0).unwrap().unwrap();
    m.attach("/b").unwrap();
    a.lock().fail[0] = Some(5);                            // the only complete disk fails to read
    for _ in 0..2 {
        let d = block(0); let f = m.read_at(d.try_mut().unwrap(), 150);
        assert_eq!(sim.block_on(f, &mut |_| 0).unwrap(), Err(Error::EIO));
    }
    a.lock().fail[0] = None;
    for _ in 0..2 {
        let d = block(0); let f = m.read_at(d.try_mut().unwrap(), 150);
        assert_eq!(sim.block_on(f, &mut |_| 0).unwrap(), Ok(())); assert_eq!(d.try_const().unwrap()[0], 7);
    }
}
'''
