PROP = 'Z02'
FILE = "bfffs-core/src/cluster.rs"
KIT = ["vp/__init__.py", "vp/gens.py", "vp/rustsrc.py", "replay/fsm_raid.rs"]
EDITS = [('                let txgs = if self.is_empty(z) {', '                let txgs = if self.is_empty(z) ||\n                    self.is_dead(z) && z as usize + 1 == self.zones.len()\n                {')]
NEEDS = 'the last zone in use is fully freed and the map is stored before the zone is erased'
BREAKS = 'a dead zone at the end of the map is stored as empty; after loading it is reused without having been erased'
DEMO = r'''//! kit fsm
//% serde = { version = "1", features = ["derive"] }
//% serde_derive = "1"
//% speedy = { version = "0.8", features = ["uuid"] }
//% uuid = { version = "1", features = ["v4"] }
//% futures = "0.3"
//% fixedbitset = { version = "0.4.0", default-features = false }
//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% metrohash = "1.0"
//% tracing = { version = "0.1", features = ["attributes"] }
//% enum_dispatch = "0.3.12"
//% thiserror = "1"
//% num-traits = "0.2"
//% enum-primitive-derive = "0.3"
#![allow(dead_code, unused_imports, unused_macros, unused_mut)]
pub mod types;
#[path = "@REPO@/bfffs-core/src/util.rs"] pub mod util;
#[path = "@REPO@/bfffs-core/src/vdev.rs"] pub mod vdev;
pub mod label;
pub mod raid;
pub mod cluster;
use cluster::Cluster;
use divbuf::DivBufShared;
use futures::executor::block_on;
use raid::RaidImpl;
use types::TxgT;
/// writes n blocks, and returns where they went
fn write(c: &Cluster, n: u64, txg: u32) -> Option<u64> {
    let b = DivBufShared::from(vec![1u8; n as usize * 4096]);
    match c.write(b.try_const().unwrap(), TxgT(txg)) { Ok((lba, f)) => { block_on(f).unwrap(); Some(lba) } Err(_) => None }
}
fn flush(c: &Cluster) { block_on(c.flush(0)).unwrap(); block_on(c.flush(1)).unwrap(); }
fn reap(c: &Cluster, txg: u32) { block_on(c.advance_transaction(TxgT(txg))).unwrap(); }
fn main() {
    let d = RaidImpl::new(3, 4, 0, 1); let c = Cluster::create(d.clone());
    let _a = write(&c, 4, 1).unwrap(); let b = write(&c, 3, 1).unwrap();
    let e = write(&c, 4, 1).unwrap(); c.free(e, 4);                     // zone 2 is still open
    c.free(b, 3); let _ = b; flush(&c); drop(c);
    let d = d.0.copy(); let c = block_on(Cluster::open(d.clone())).unwrap();
    assert_eq!(c.used(), 4);
    reap(&c, 2); flush(&c); drop(c);
    // now with a dead zone last: the first of two zones is reused, which closes the second
    let d = RaidImpl::new(2, 4, 0, 1); let c = Cluster::create(d.clone());
    let a = write(&c, 4, 1).unwrap(); let b = write(&c, 4, 1).unwrap();
    c.free(a, 4); reap(&c, 2);
    let _r = write(&c, 4, 3).unwrap();
    c.free(b, 4); flush(&c); drop(c);
    let d = d.0.copy(); let c = block_on(Cluster::open(d.clone())).unwrap();
    // the dead zone may not be used until it was erased
    let w = write(&c, 1, 4);
    assert!(w.is_none());
    reap(&c, 4);
    assert!(write(&c, 1, 5).is_some());
    assert!(d.0.errors().is_empty(), "{:?}", d.0.errors());
}
'''
