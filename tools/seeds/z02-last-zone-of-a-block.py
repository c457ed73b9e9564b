PROP = 'Z02'
FILE = "bfffs-core/src/cluster.rs"
KIT = ["vp/__init__.py", "vp/gens.py", "vp/rustsrc.py", "replay/fsm_raid.rs"]
EDITS = [('        let block = zone_id as usize / SPACEMAP_ZONES_PER_LBA;\n        dirty.insert(block);', '        let block = zone_id.saturating_sub(1) as usize / SPACEMAP_ZONES_PER_LBA;\n        dirty.insert(block);')]
NEEDS = 'more than 255 zones; zone 255 changes in a transaction in which no other zone of its block does'
BREAKS = 'the change to the first zone of a stored block is not written out, and is lost when the map is loaded'
DEMO = r'''//! kit fsm
//% serde = { version = "1", features = ["derive"] }
//% serde_derive = "1"
//% speedy = { version = "0.8", features = ["uuid"] }
//% uuid = { version = "1", features = ["v4"] }
//% futures = "0.3"
//% fixedbitset = { version = "0.4.0", default-features = false }
//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% metrohash = "1.0"
//% tracing = { version = "0.1", features = ["attributes"] }
//% enum_dispatch = "0.3.12"
//% thiserror = "1"
//% num-traits = "0.2"
//% enum-primitive-derive = "0.3"
#![allow(dead_code, unused_imports, unused_macros, unused_mut)]
pub mod types;
#[path = "@REPO@/bfffs-core/src/util.rs"] pub mod util;
#[path = "@REPO@/bfffs-core/src/vdev.rs"] pub mod vdev;
pub mod label;
pub mod raid;
pub mod cluster;
use cluster::Cluster;
use divbuf::DivBufShared;
use futures::executor::block_on;
use raid::RaidImpl;
use types::TxgT;
/// writes n blocks, and returns where they went
fn write(c: &Cluster, n: u64, txg: u32) -> Option<u64> {
    let b = DivBufShared::from(vec![1u8; n as usize * 4096]);
    match c.write(b.try_const().unwrap(), TxgT(txg)) { Ok((lba, f)) => { block_on(f).unwrap(); Some(lba) } Err(_) => None }
}
fn flush(c: &Cluster) { block_on(c.flush(0)).unwrap(); block_on(c.flush(1)).unwrap(); }
fn reap(c: &Cluster, txg: u32) { block_on(c.advance_transaction(TxgT(txg))).unwrap(); }
fn main() {
    let d = RaidImpl::new(300, 2, 0, 1); let c = Cluster::create(d.clone());
    for _ in 0..255 { write(&c, 2, 1).unwrap(); }
    flush(&c);
    write(&c, 2, 2).unwrap();                        // zone 255
    flush(&c);
    let used = c.used();
    drop(c);
    let c = block_on(Cluster::open(d.0.copy())).unwrap();
    assert_eq!(c.used(), used);
}
'''
