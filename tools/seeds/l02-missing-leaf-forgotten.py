PROP = 'L02'
FILE = 'bfffs-core/src/mirror.rs'
EDITS = [('                children.push(Child::missing(*lchild));', '                tracing::warn!("mirror leaf {} was not found", lchild);')]
KIT = ["vp/__init__.py", "vp/gens.py", "vp/rustsrc.py", "replay/stack/vpshim.rs"]
NEEDS = 'a pool opened while one leaf of a mirror cannot be found'
BREAKS = 'the leaf is left out of the mirror instead of missing from it: health is reported as online, and the next label no longer names the leaf'
DEMO = r'''//! kit stack
//% serde = { version = "1", features = ["derive"] }
//% serde_derive = "1"
//% speedy = { version = "0.8", features = ["uuid"] }
//% uuid = { version = "1", features = ["v4"] }
//% futures = "0.3"
//% fixedbitset = { version = "0.4.0", default-features = false }
//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% metrohash = "1.0"
//% tracing = { version = "0.1", features = ["attributes"] }
//% enum_dispatch = "0.3.12"
//% auto_enums = { version = "0.8", features = ["futures03"] }
//% pin-project = "1"
//% itertools = "0.13"
//% bfffs-isa-l = { path = "@REPO@/bfffs-isa-l" }
#![allow(dead_code, unused_imports, unused_macros, unused_mut)]
pub mod types; pub mod util; pub mod label; pub mod vdev; pub mod vpshim; pub mod vdev_file; pub mod vdev_block; pub mod mirror; pub mod raid; pub mod cluster;
pub use types::*; pub use util::*;
use vpshim::*; use divbuf::*; use label::*; use vdev::{Vdev, Health, FaultedReason}; use mirror::Mirror; use cluster::Cluster; use std::num::{NonZeroU8, NonZeroU64};
use std::sync::Arc;
type R<T> = std::result::Result<T, Error>;
fn go<T: 'static>(f: impl std::future::Future<Output = T>) -> T {
    let f: std::pin::Pin<Box<dyn std::future::Future<Output = T>>> = Box::pin(f);
    let f: std::pin::Pin<Box<dyn std::future::Future<Output = T>>> = unsafe { std::mem::transmute(f) };
    let mut s = Sim::new(vec![]); let r = s.block_on(f, &mut |_| 0); assert!(s.panics.is_empty(), "{:?}", s.panics); r.expect("never completes")
}
fn disk(p: &str, n: u64) -> Arc<Disk> { let d = Disk::new(n); d.lock().immediate = true; plug(p, d.clone()); d }
/// a pool of one mirror
fn pool(paths: &[&str], lpz: u64) -> Cluster { Cluster::create(raid::create(None, 1, 0, vec![Mirror::create(paths, NonZeroU64::new(lpz)).unwrap()])) }
fn write(c: &Cluster, n: usize, x: u8, txg: u32) -> LbaT {
    let d = DivBufShared::from(vec![x; n * 4096]); let (lba, f) = c.write(d.try_const().unwrap(), TxgT(txg)).unwrap(); go(f).unwrap(); lba
}
fn read(c: &Cluster, n: usize, lba: LbaT) -> Vec<u8> { let d = DivBufShared::from(vec![0u8; n * 4096]); let f = c.read(d.try_mut().unwrap(), lba); go(f).unwrap(); let r = d.try_const().unwrap().to_vec(); r }
fn sync(c: &Cluster, txg: u32) {
    go(c.flush(0)).unwrap(); go(c.sync_all()).unwrap();
    for i in 0..2 { let mut lw = LabelWriter::new(i); lw.serialize(&txg).unwrap(); go(c.write_label(lw, TxgT(txg))).unwrap(); if i == 0 { go(c.flush(1)).unwrap(); } go(c.sync_all()).unwrap(); }
    go(c.advance_transaction(TxgT(txg))).unwrap();
}
fn open(paths: &[&str], id: Uuid) -> (Cluster, u32) {
    let mut m = cluster::Manager::default();
    for p in paths { let p = p.to_string(); go(m.taste(p)).map(drop).unwrap(); }
    let (c, mut r) = go(m.import(id)).map_err(|e| format!("{e:?}")).unwrap(); let t: u32 = r.deserialize().unwrap(); (c, t)
}
fn leaves(c: &Cluster) -> Vec<Health> { c.status().mirrors[0].leaves.iter().map(|l| l.health).collect() }
fn rebuild(c: &mut Cluster) {
    let t = c.status().mirrors[0].rebuilding.expect("nothing to rebuild"); let mut task = c.repair_mirror(0, t..);
    while go(c.repair_mirror_step(&mut task, true)).unwrap() {}
    c.restore(0).unwrap();
}
const ONE: Health = Health::Degraded(NonZeroU8::new(1).unwrap());

fn main() {
    disk("/a", 800); disk("/b", 800);
    let c = pool(&["/a", "/b"], 100);
    write(&c, 10, 1, 1); sync(&c, 1); let id = c.uuid(); drop(c);
    let (c, _) = open(&["/a"], id);
    assert_eq!(c.status().mirrors[0].health, ONE);
    sync(&c, 2); drop(c);
    let (c, t) = open(&["/b", "/a"], id); assert_eq!(t, 2);
    assert_eq!(leaves(&c), [Health::Online, ONE]);
}
'''
