PROP = 'Z01'
FILE = "bfffs-core/src/cluster.rs"
KIT = ["vp/__init__.py", "vp/gens.py", "vp/rustsrc.py", "replay/fsm_raid.rs"]
EDITS = [('        self.zones[idx].total_blocks = space as u32;\n        self.zones[idx].freed_blocks = 0;\n', '        if self.zones[idx].total_blocks != space as u32 {\n            self.zones[idx].total_blocks = space as u32;\n            self.zones[idx].freed_blocks = 0;\n        }\n')]
NEEDS = 'a zone that was filled, emptied, erased and opened again without having been trimmed off the end of the map'
BREAKS = 'the reused zone still counts the blocks freed in its previous life, so it can be declared dead, and erased, while blocks in it are live'
DEMO = r'''//! kit fsm
//% serde = { version = "1", features = ["derive"] }
//% serde_derive = "1"
//% speedy = { version = "0.8", features = ["uuid"] }
//% uuid = { version = "1", features = ["v4"] }
//% futures = "0.3"
//% fixedbitset = { version = "0.4.0", default-features = false }
//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% metrohash = "1.0"
//% tracing = { version = "0.1", features = ["attributes"] }
//% enum_dispatch = "0.3.12"
//% thiserror = "1"
//% num-traits = "0.2"
//% enum-primitive-derive = "0.3"
#![allow(dead_code, unused_imports, unused_macros, unused_mut)]
pub mod types;
#[path = "@REPO@/bfffs-core/src/util.rs"] pub mod util;
#[path = "@REPO@/bfffs-core/src/vdev.rs"] pub mod vdev;
pub mod label;
pub mod raid;
pub mod cluster;
use cluster::Cluster;
use divbuf::DivBufShared;
use futures::executor::block_on;
use raid::RaidImpl;
use types::TxgT;
/// writes n blocks, and returns where they went
fn write(c: &Cluster, n: u64, txg: u32) -> Option<u64> {
    let b = DivBufShared::from(vec![1u8; n as usize * 4096]);
    match c.write(b.try_const().unwrap(), TxgT(txg)) { Ok((lba, f)) => { block_on(f).unwrap(); Some(lba) } Err(_) => None }
}
fn flush(c: &Cluster) { block_on(c.flush(0)).unwrap(); block_on(c.flush(1)).unwrap(); }
fn reap(c: &Cluster, txg: u32) { block_on(c.advance_transaction(TxgT(txg))).unwrap(); }
fn main() {
    let d = RaidImpl::new(3, 4, 0, 1); let c = Cluster::create(d.clone());
    let a = write(&c, 4, 1).unwrap(); let _b = write(&c, 4, 1).unwrap();
    c.free(a, 4); reap(&c, 1);                       // zone 0 is empty again; zone 1 keeps it in the map
    assert_eq!(c.used(), 4);
    let e = write(&c, 2, 2).unwrap(); assert_eq!(e, a);
    assert_eq!((c.used(), c.allocated()), (6, 6));
}
'''
