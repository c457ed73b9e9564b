PROP = 'B02'
FILE = "bfffs-core/src/vdev_block.rs"
KIT = ["vp/__init__.py", "vp/gens.py", "vp/rustsrc.py", "replay/stack/vpshim.rs"]
EDITS = [('            let op = self.ahead.pop().unwrap();\n            self.last_lba = op.lba;\n', '            let op = self.ahead.pop().unwrap();\n')]
NEEDS = 'a busy device whose sweep wraps around, and requests submitted between the wrap and the next operation taken'
BREAKS = 'the position stays at the end of the device after the wrap: what should join the current sweep waits for the next one'
DEMO = r'''//! kit stack
//% serde = { version = "1", features = ["derive"] }
//% serde_derive = "1"
//% speedy = { version = "0.8", features = ["uuid"] }
//% uuid = { version = "1", features = ["v4"] }
//% futures = "0.3"
//% fixedbitset = { version = "0.4.0", default-features = false }
//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% metrohash = "1.0"
//% tracing = { version = "0.1", features = ["attributes"] }
//% enum_dispatch = "0.3.12"
//% auto_enums = { version = "0.8", features = ["futures03"] }
//% pin-project = "1"
//% itertools = "0.13"
//% bfffs-isa-l = { path = "@REPO@/bfffs-isa-l" }
#![allow(dead_code, unused_imports, unused_macros, unused_mut)]
pub mod types; pub mod util; pub mod label; pub mod vdev; pub mod vpshim; pub mod vdev_file; pub mod vdev_block; pub mod mirror; pub mod raid; pub mod cluster;
pub use types::*; pub use util::*;
use vpshim::*; use vdev_block::*; use divbuf::*; use vdev::Vdev;
use std::sync::Arc;
fn buf(n: usize, x: u8) -> IoVec { let d = DivBufShared::from(vec![x; n * 4096]); let r = d.try_const().unwrap(); std::mem::forget(d); r }
fn dev() -> (Arc<Disk>, VdevBlock, Sim) {
    let d = Disk::new(1000); plug("/d", d.clone()); let v = VdevBlock::create("/d", std::num::NonZeroU64::new(100)).unwrap(); d.take_log();
    (d.clone(), v, Sim::new(vec![d]))
}
fn go(s: &mut Sim, f: VdevBlockFut) { s.spawn(async move { f.await.unwrap(); }); s.settle(); }
/// the places of the writes the device has got since the last time
fn places(d: &Disk) -> Vec<u64> { d.take_log().iter().map(|e| e.lba).collect() }
fn main() {
    let (d, v, mut s) = dev();
    for i in 0..10 { go(&mut s, v.write_at(buf(1, 1), 500 + 2 * i)); }       // as many as the device takes at once
    go(&mut s, v.write_at(buf(1, 1), 100)); go(&mut s, v.write_at(buf(1, 1), 300));
    places(&d);
    d.complete(0); s.settle(); assert_eq!(places(&d), [100]);                // the sweep starts over
    go(&mut s, v.write_at(buf(1, 1), 200)); go(&mut s, v.write_at(buf(1, 1), 50));
    for _ in 0..3 { d.complete(0); s.settle(); }
    assert_eq!(places(&d), [200, 300, 50]);
}
'''
