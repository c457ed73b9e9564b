PROP = 'L01'
FILE = 'bfffs-core/src/label.rs'
EDITS = [('        if stored_checksum != calc_checksum {\n', '        if stored_checksum != 0 && stored_checksum != calc_checksum {\n')]
KIT = ["vp/__init__.py", "vp/gens.py", "vp/rustsrc.py", "replay/stack/vpshim.rs"]
NEEDS = 'a label whose checksum field was zeroed along with other damage'
BREAKS = 'a damaged label with a zero checksum is taken as one without checksum and accepted'
DEMO = r'''//! kit stack
//% serde = { version = "1", features = ["derive"] }
//% serde_derive = "1"
//% speedy = { version = "0.8", features = ["uuid"] }
//% uuid = { version = "1", features = ["v4"] }
//% futures = "0.3"
//% fixedbitset = { version = "0.4.0", default-features = false }
//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% metrohash = "1.0"
//% tracing = { version = "0.1", features = ["attributes"] }
//% enum_dispatch = "0.3.12"
//% auto_enums = { version = "0.8", features = ["futures03"] }
//% pin-project = "1"
//% itertools = "0.13"
//% bfffs-isa-l = { path = "@REPO@/bfffs-isa-l" }
#![allow(dead_code, unused_imports, unused_macros, unused_mut)]
pub mod types; pub mod util; pub mod label; pub mod vdev; pub mod vpshim; pub mod vdev_file; pub mod vdev_block; pub mod mirror; pub mod raid; pub mod cluster;
pub use types::*; pub use util::*;
use vpshim::*; use vdev_block::{VdevBlock, Manager}; use label::*; use divbuf::*; use vdev::{Vdev, Health, FaultedReason}; use mirror::Mirror; use raid::{RaidImpl, VdevRaidApi}; use std::num::{NonZeroU8, NonZeroU64};
use std::sync::Arc;
fn buf(n: usize, x: u8) -> IoVec { let d = DivBufShared::from(vec![x; n * 4096]); let r = d.try_const().unwrap(); std::mem::forget(d); r }
fn disk(p: &str) -> String { plug(p, Disk::new(2000)); p.to_string() }
fn mirror(i: usize, n: usize) -> Mirror { let p: Vec<String> = (0..n).map(|j| disk(&format!("/d{i}.{j}"))).collect(); Mirror::create(&p, NonZeroU64::new(100)).unwrap() }
fn degraded(n: u8) -> Health { Health::Degraded(NonZeroU8::new(n).unwrap()) }

fn main() {
    let mut w = LabelWriter::new(0); w.serialize(&vec![7u8; 500]).unwrap();
    let whole: Vec<u8> = w.into_sglist().iter().flat_map(|b| b.to_vec()).collect();
    assert!(LabelReader::new(whole.clone()).is_ok());
    let mut b = whole.clone(); b[100] ^= 1; assert!(LabelReader::new(b).is_err());
    let mut b = whole.clone(); for x in &mut b[16..24] { *x = 0; } assert!(LabelReader::new(b.clone()).is_err()); b[100] ^= 1; assert!(LabelReader::new(b).is_err());
}
'''
