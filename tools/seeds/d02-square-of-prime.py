PROP = 'D02'
FILE = 'bfffs-core/src/raid/prime_s.rs'
EDITS = [('    while i * i <= n {', '    while i * i < n {')]
NEEDS = 'an array of 25 (or 121) disks: the square of a prime of the form 6i-1 slips through the primality test'
BREAKS = 'a composite disk count is accepted, and the chunks of a stripe share a disk'
DEMO = r'''//% fixedbitset = { version = "0.4.0", default-features = false }
//% enum_dispatch = "0.3.12"
#![allow(dead_code)]
#[path = "@REPO@/bfffs-core/src/raid"]
pub mod raid {
    #[path = "declust.rs"] pub mod declust;
    #[path = "prime_s.rs"] pub mod prime_s;
    use declust::*; use prime_s::PrimeS;
    #[enum_dispatch::enum_dispatch] #[derive(Clone, Debug)] pub enum LocatorImpl { PrimeS }
}
use raid::{declust::*, prime_s::*};

fn main() {
    for n in [23i16, 25, 35, 49, 121] {
        // a geometry may be refused, but one that is accepted must work
        let Ok(l) = std::panic::catch_unwind(|| PrimeS::new(n, 4, 1)) else { continue };
        for s in 0..n as u64 * (n as u64 - 1) {
            let mut d: Vec<i16> = (0..3).map(|i| l.id2loc(ChunkId::Data(3 * s + i)).disk).collect();
            d.push(l.id2loc(ChunkId::Parity(3 * s, 0)).disk);
            d.sort(); d.dedup();
            assert_eq!(d.len(), 4, "two chunks of one stripe share a disk of {n}");
        }
    }
}
'''
