PROP = 'H01'
FILE = 'bfffs-core/src/raid/vdev_raid.rs'
EDITS = [('        let r = if matches!(old, Child::Present(_)) {', '        let r = if !matches!(old, Child::Missing(_)) {')]
KIT = ["vp/__init__.py", "vp/gens.py", "vp/rustsrc.py", "replay/stack/vpshim.rs"]
NEEDS = 'a RAID child faulted by name twice (an administrator repeating the command)'
BREAKS = 'the child is counted as two lost children, and the device reports itself faulted with its parity unspent'
DEMO = r'''//! kit stack
//% serde = { version = "1", features = ["derive"] }
//% serde_derive = "1"
//% speedy = { version = "0.8", features = ["uuid"] }
//% uuid = { version = "1", features = ["v4"] }
//% futures = "0.3"
//% fixedbitset = { version = "0.4.0", default-features = false }
//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% metrohash = "1.0"
//% tracing = { version = "0.1", features = ["attributes"] }
//% enum_dispatch = "0.3.12"
//% auto_enums = { version = "0.8", features = ["futures03"] }
//% pin-project = "1"
//% itertools = "0.13"
//% bfffs-isa-l = { path = "@REPO@/bfffs-isa-l" }
#![allow(dead_code, unused_imports, unused_macros, unused_mut)]
pub mod types; pub mod util; pub mod label; pub mod vdev; pub mod vpshim; pub mod vdev_file; pub mod vdev_block; pub mod mirror; pub mod raid; pub mod cluster;
pub use types::*; pub use util::*;
use vpshim::*; use divbuf::*; use vdev::{Vdev, Health, FaultedReason}; use mirror::Mirror; use raid::{RaidImpl, VdevRaidApi}; use std::num::{NonZeroU8, NonZeroU64};
use std::sync::Arc;
fn buf(n: usize, x: u8) -> IoVec { let d = DivBufShared::from(vec![x; n * 4096]); let r = d.try_const().unwrap(); std::mem::forget(d); r }
fn disk(p: &str) -> String { plug(p, Disk::new(2000)); p.to_string() }
fn mirror(i: usize, n: usize) -> Mirror { let p: Vec<String> = (0..n).map(|j| disk(&format!("/d{i}.{j}"))).collect(); Mirror::create(&p, NonZeroU64::new(100)).unwrap() }
fn degraded(n: u8) -> Health { Health::Degraded(NonZeroU8::new(n).unwrap()) }

fn main() {
    let mut r = raid::create(None, 3, 1, (0..3).map(|i| mirror(i, 1)).collect());
    let name = r.status().mirrors[2].uuid;
    r.fault(name).unwrap();
    assert_eq!(r.status().health, degraded(1));
    r.fault(name).unwrap();
    assert_eq!(r.status().health, degraded(1));
    r.restore(2).unwrap();
    assert_eq!(r.status().health, Health::Online);
}
'''
