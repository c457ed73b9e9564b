PROP = 'H01'
FILE = 'bfffs-core/src/raid/vdev_raid.rs'
EDITS = [('                        if status.health.is_faulted() {', '                        if status.leaves.iter().all(|l| l.health.is_faulted()) {')]
KIT = ["vp/__init__.py", "vp/gens.py", "vp/rustsrc.py", "replay/stack/vpshim.rs"]
NEEDS = 'the last complete leaf of a RAID child faulted while another leaf of it is still being rebuilt'
BREAKS = 'the child stays in service with no complete copy: the device is reported degraded where it has lost more children than it has parity'
DEMO = r'''//! kit stack
//% serde = { version = "1", features = ["derive"] }
//% serde_derive = "1"
//% speedy = { version = "0.8", features = ["uuid"] }
//% uuid = { version = "1", features = ["v4"] }
//% futures = "0.3"
//% fixedbitset = { version = "0.4.0", default-features = false }
//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% metrohash = "1.0"
//% tracing = { version = "0.1", features = ["attributes"] }
//% enum_dispatch = "0.3.12"
//% auto_enums = { version = "0.8", features = ["futures03"] }
//% pin-project = "1"
//% itertools = "0.13"
//% bfffs-isa-l = { path = "@REPO@/bfffs-isa-l" }
#![allow(dead_code, unused_imports, unused_macros, unused_mut)]
pub mod types; pub mod util; pub mod label; pub mod vdev; pub mod vpshim; pub mod vdev_file; pub mod vdev_block; pub mod mirror; pub mod raid; pub mod cluster;
pub use types::*; pub use util::*;
use vpshim::*; use divbuf::*; use vdev::{Vdev, Health, FaultedReason}; use mirror::Mirror; use raid::{RaidImpl, VdevRaidApi}; use std::num::{NonZeroU8, NonZeroU64};
use std::sync::Arc;
fn buf(n: usize, x: u8) -> IoVec { let d = DivBufShared::from(vec![x; n * 4096]); let r = d.try_const().unwrap(); std::mem::forget(d); r }
fn disk(p: &str) -> String { plug(p, Disk::new(2000)); p.to_string() }
fn mirror(i: usize, n: usize) -> Mirror { let p: Vec<String> = (0..n).map(|j| disk(&format!("/d{i}.{j}"))).collect(); Mirror::create(&p, NonZeroU64::new(100)).unwrap() }
fn degraded(n: u8) -> Health { Health::Degraded(NonZeroU8::new(n).unwrap()) }

fn main() {
    let mut r = raid::create(None, 3, 1, (0..3).map(|i| mirror(i, 1)).collect());
    let names: Vec<Uuid> = r.status().mirrors.iter().map(|m| m.uuid).collect();
    let leaf = |r: &RaidImpl, i: usize| r.status().mirrors[i].leaves[0].uuid;
    let (l0, l1) = (leaf(&r, 0), leaf(&r, 1));
    r.attach(names[0], std::path::Path::new(&disk("/new0"))).unwrap();
    r.attach(names[1], std::path::Path::new(&disk("/new1"))).unwrap();
    r.fault(l0).unwrap();
    assert_eq!(r.status().health, degraded(3));                 // both leaves of one child, one of another
    r.fault(l1).unwrap();
    assert_eq!(r.status().health, Health::Faulted(FaultedReason::InsufficientRedundancy));
}
'''
