PROP = 'B01'
FILE = 'bfffs-core/src/raid/vdev_raid.rs'
EDITS = [('                    lba < stripe_buffer.next_lba() &&\n                    end_lba', '                    end_lba')]
KIT = ["vp/__init__.py", "vp/gens.py", "vp/rustsrc.py", "replay/stack/vpshim.rs"]
NEEDS = 'two open zones, an incomplete stripe held in the lower one, and a read from the higher one'
BREAKS = "the read is served from the lower zone's stripe buffer"
DEMO = r'''//! kit stack
//% serde = { version = "1", features = ["derive"] }
//% serde_derive = "1"
//% speedy = { version = "0.8", features = ["uuid"] }
//% uuid = { version = "1", features = ["v4"] }
//% futures = "0.3"
//% fixedbitset = { version = "0.4.0", default-features = false }
//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% metrohash = "1.0"
//% tracing = { version = "0.1", features = ["attributes"] }
//% enum_dispatch = "0.3.12"
//% auto_enums = { version = "0.8", features = ["futures03"] }
//% pin-project = "1"
//% itertools = "0.13"
//% bfffs-isa-l = { path = "@REPO@/bfffs-isa-l" }
#![allow(dead_code, unused_imports, unused_macros, unused_mut)]
pub mod types; pub mod util; pub mod label; pub mod vdev; pub mod vpshim; pub mod vdev_file; pub mod vdev_block; pub mod mirror; pub mod raid; pub mod cluster;
pub use types::*; pub use util::*;
use vpshim::*; use divbuf::*; use vdev::{Vdev, Health, FaultedReason}; use mirror::Mirror; use raid::{RaidImpl, VdevRaidApi}; use std::num::{NonZeroU8, NonZeroU64};
use std::sync::Arc;
fn buf(n: usize, x: u8) -> IoVec { let d = DivBufShared::from(vec![x; n * 4096]); let r = d.try_const().unwrap(); std::mem::forget(d); r }
fn disk(p: &str) -> String { plug(p, Disk::new(2000)); p.to_string() }
fn mirror(i: usize, n: usize) -> Mirror { let p: Vec<String> = (0..n).map(|j| disk(&format!("/d{i}.{j}"))).collect(); Mirror::create(&p, NonZeroU64::new(100)).unwrap() }
fn degraded(n: u8) -> Health { Health::Degraded(NonZeroU8::new(n).unwrap()) }
/// a RAID device of n single-disk mirrors, chunks of `chunk` blocks, and its disks
fn device(n: usize, f: i16, chunk: u64) -> (RaidImpl, Vec<Arc<Disk>>, Sim) {
    let disks: Vec<Arc<Disk>> = (0..n).map(|i| { let d = Disk::new(2000); plug(&format!("/d{i}"), d.clone()); d }).collect();
    let ms = (0..n).map(|i| Mirror::create(&[format!("/d{i}")], NonZeroU64::new(100)).unwrap()).collect();
    let sim = Sim::new(disks.clone());
    (raid::create(NonZeroU64::new(chunk), n as i16, f, ms), disks, sim)
}
fn run<T: 'static>(s: &mut Sim, f: impl std::future::Future<Output = T> + 'static) -> T { let r = s.block_on(f, &mut |_| 0); assert!(s.panics.is_empty(), "{:?}", s.panics); r.expect("never completes") }
fn blocks(from: u64, n: u64) -> Vec<u8> { (from..from + n).flat_map(|b| vec![(b * 7 + 1) as u8; 4096]).collect() }
fn write(s: &mut Sim, r: &RaidImpl, z: u32, lba: u64, n: u64) -> Result<()> { let d = DivBufShared::from(blocks(lba, n)); let b = d.try_const().unwrap(); std::mem::forget(d); let f = r.write_at(b, z, lba); run(s, f) }
fn check(s: &mut Sim, r: &RaidImpl, lba: u64, n: u64) { let d = DivBufShared::from(vec![0xa5u8; n as usize * 4096]); let f = r.read_at(d.try_mut().unwrap(), lba); run(s, f).expect("the read fails"); assert!(d.try_const().unwrap()[..] == blocks(lba, n)[..], "{n} blocks at {lba} do not read back"); }

fn main() {
    let (r, _, mut s) = device(3, 1, 2);
    let ((a, _), (b, _)) = (r.zone_limits(0), r.zone_limits(1)); for z in [0, 1] { let f = r.open_zone(z); run(&mut s, f).unwrap(); }
    write(&mut s, &r, 1, b, 8).unwrap(); check(&mut s, &r, b, 8);
    write(&mut s, &r, 0, a, 5).unwrap(); check(&mut s, &r, a, 5);
    check(&mut s, &r, b + 1, 6);
}
'''
