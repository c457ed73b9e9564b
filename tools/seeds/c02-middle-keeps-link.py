PROP = 'C02'
FILE = 'bfffs-core/src/cache/lru.rs'
EDITS = [('                v_lru = v.lru;\n                v.mru = None;\n', '                v_lru = v.lru;\n'), ('                    debug_assert_eq!(self.lru, Some(*key));\n                    self.lru = v_mru;\n                }\n                if let Some(mru) = &mru {', '                    debug_assert_eq!(self.lru, Some(*key));\n                    self.lru = v_mru;\n                    self.store.get_mut(key).unwrap().mru = None;\n                }\n                if let Some(mru) = &mru {')]
NEEDS = 'a lookup of a block that is neither first nor last in the LRU order, followed by the removal or another lookup of it'
BREAKS = 'the block keeps a stale link, and its removal leaves the list broken: later evictions drop the wrong block or panic'
DEMO = r'''//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% metrohash = "1.0"
//% downcast = "0.11"
//% futures = "0.3"
//% tracing = { version = "0.1", features = ["attributes"] }
#![allow(dead_code, unused_imports, unused_macros)]
pub mod types {
    #[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)] pub struct RID(pub u64);
    #[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)] pub struct PBA { pub cluster: u16, pub lba: u64 }
}
#[path = "@REPO@/bfffs-core/src/cache/mod.rs"] pub mod cache;
use cache::*; use types::*; use divbuf::*;
fn k(i: u64) -> Key { Key::Rid(RID(i)) }
fn put(c: &mut Cache, i: u64, n: usize) { c.insert(k(i), Box::new(DivBufShared::from(vec![i as u8; n]))) }
fn has(c: &Cache, i: u64) -> bool { c.get_ref(&k(i)).is_some() }
fn main() {
    let mut c = Cache::with_capacity(100);
    for i in 1..=3 { put(&mut c, i, 30) }
    assert!(c.get::<DivBuf>(&k(2)).is_some());      // order now 2 3 1
    assert!(c.remove(&k(2)).is_some());             // 3 1
    put(&mut c, 4, 30);                             // 4 3 1
    put(&mut c, 5, 30);                             // 5 4 3, 1 evicted
    assert!(!has(&c, 1) && has(&c, 3) && has(&c, 4) && has(&c, 5));
    put(&mut c, 6, 30);
    assert!(!has(&c, 3) && has(&c, 4) && has(&c, 5) && has(&c, 6));
}
'''
