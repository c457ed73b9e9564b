PROP = 'C02'
FILE = 'bfffs-core/src/cache/lru.rs'
EDITS = [('        self.lru = None;\n        self.mru = None;\n        self.size = 0;', '        self.mru = None;\n        self.size = 0;')]
NEEDS = 'dropping a cache that holds blocks, refilling it with the same least recently used key not inserted first, and then evicting'
BREAKS = 'the next eviction takes the block that was least recently used before the drop, not the one that is now'
DEMO = r'''//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% metrohash = "1.0"
//% downcast = "0.11"
//% futures = "0.3"
//% tracing = { version = "0.1", features = ["attributes"] }
#![allow(dead_code, unused_imports, unused_macros)]
pub mod types {
    #[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)] pub struct RID(pub u64);
    #[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)] pub struct PBA { pub cluster: u16, pub lba: u64 }
}
#[path = "@REPO@/bfffs-core/src/cache/mod.rs"] pub mod cache;
use cache::*; use types::*; use divbuf::*;
fn k(i: u64) -> Key { Key::Rid(RID(i)) }
fn put(c: &mut Cache, i: u64, n: usize) { c.insert(k(i), Box::new(DivBufShared::from(vec![i as u8; n]))) }
fn has(c: &Cache, i: u64) -> bool { c.get_ref(&k(i)).is_some() }
fn main() {
    let mut c = Cache::with_capacity(100);
    put(&mut c, 1, 30); put(&mut c, 2, 30);
    c.drop_cache();
    assert_eq!(c.size(), 0);
    put(&mut c, 2, 30); put(&mut c, 1, 30); put(&mut c, 3, 30);
    put(&mut c, 4, 30);
    assert!(!has(&c, 2) && has(&c, 1) && has(&c, 3) && has(&c, 4), "2 was least recently used");
}
'''
