PROP = 'L01'
FILE = 'bfffs-core/src/vdev_block.rs'
EDITS = [('                Err(e) => {\n                    r = Err(Error::from(e));\n                }', '                Err(e) => {\n                    r = Err(Error::from(e));\n                    break\n                }')]
KIT = ["vp/__init__.py", "vp/gens.py", "vp/rustsrc.py", "replay/stack/vpshim.rs"]
NEEDS = 'a device whose first label area cannot be read (EIO) while the second copy is intact'
BREAKS = 'the second copy is not tried after a read error: the device is refused'
DEMO = r'''//! kit stack
//% serde = { version = "1", features = ["derive"] }
//% serde_derive = "1"
//% speedy = { version = "0.8", features = ["uuid"] }
//% uuid = { version = "1", features = ["v4"] }
//% futures = "0.3"
//% fixedbitset = { version = "0.4.0", default-features = false }
//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% metrohash = "1.0"
//% tracing = { version = "0.1", features = ["attributes"] }
//% enum_dispatch = "0.3.12"
//% auto_enums = { version = "0.8", features = ["futures03"] }
//% pin-project = "1"
//% itertools = "0.13"
//% bfffs-isa-l = { path = "@REPO@/bfffs-isa-l" }
#![allow(dead_code, unused_imports, unused_macros, unused_mut)]
pub mod types; pub mod util; pub mod label; pub mod vdev; pub mod vpshim; pub mod vdev_file; pub mod vdev_block; pub mod mirror; pub mod raid; pub mod cluster;
pub use types::*; pub use util::*;
use vpshim::*; use vdev_block::{VdevBlock, Manager}; use label::*; use divbuf::*; use vdev::{Vdev, Health, FaultedReason}; use mirror::Mirror; use raid::{RaidImpl, VdevRaidApi}; use std::num::{NonZeroU8, NonZeroU64};
use std::sync::Arc;
fn buf(n: usize, x: u8) -> IoVec { let d = DivBufShared::from(vec![x; n * 4096]); let r = d.try_const().unwrap(); std::mem::forget(d); r }
fn disk(p: &str) -> String { plug(p, Disk::new(2000)); p.to_string() }
fn mirror(i: usize, n: usize) -> Mirror { let p: Vec<String> = (0..n).map(|j| disk(&format!("/d{i}.{j}"))).collect(); Mirror::create(&p, NonZeroU64::new(100)).unwrap() }
fn degraded(n: u8) -> Health { Health::Degraded(NonZeroU8::new(n).unwrap()) }

fn run<T: 'static>(s: &mut Sim, f: impl std::future::Future<Output = T> + 'static) -> T { let r = s.block_on(f, &mut |_| 0); assert!(s.panics.is_empty(), "{:?}", s.panics); r.expect("never completes") }
/// a disk with both labels written, each holding n bytes
fn labelled(n: usize) -> (Arc<Disk>, Sim) {
    let d = Disk::new(2000); plug("/l", d.clone()); let mut s = Sim::new(vec![d.clone()]);
    let vb = VdevBlock::create("/l", NonZeroU64::new(100)).unwrap();
    for i in 0..2 { let mut w = LabelWriter::new(i); w.serialize(&vec![7u8; n]).unwrap(); let f = vb.write_label(w, TxgT(9)); run(&mut s, f).unwrap(); }
    drop(vb); s.run(&mut |_| 0); (d, s)
}
fn open(s: &mut Sim) -> Result<Vec<u8>> { run(s, async { let mut m = Manager::default(); let mut r = m.taste("/l").await?; Ok(r.deserialize::<Vec<u8>>().unwrap()) }) }

fn main() {
    let (d, mut s) = labelled(100);
    assert_eq!(open(&mut s).unwrap(), vec![7u8; 100]);
    d.lock().bad.insert(2);
    assert_eq!(open(&mut s).expect("refused with one good label"), vec![7u8; 100]);
}
'''
