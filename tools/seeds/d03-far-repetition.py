PROP = 'D03'
FILE = 'bfffs-core/src/raid/prime_s.rs'
EDITS = [('        let disk = disk as i16;\n        let o3 = self.r * self.depth as u64;\n        let offset = self.o', '        let disk = disk as i16;\n        // Start of the repetition; recalculated for every chunk, so keep it cheap\n        let o3 = u64::from((self.r as u32).wrapping_mul(self.depth as u32));\n        let offset = self.o')]
NEEDS = 'an iterator that starts or arrives beyond row 2^32 of the disks'
BREAKS = "the iterator's rows wrap at 2^32 and differ from id2loc's"
DEMO = r'''//% fixedbitset = { version = "0.4.0", default-features = false }
//% enum_dispatch = "0.3.12"
#![allow(dead_code)]
#[path = "@REPO@/bfffs-core/src/raid"]
pub mod raid {
    #[path = "declust.rs"] pub mod declust;
    #[path = "prime_s.rs"] pub mod prime_s;
    use declust::*; use prime_s::PrimeS;
    #[enum_dispatch::enum_dispatch] #[derive(Clone, Debug)] pub enum LocatorImpl { PrimeS }
}
use raid::{declust::*, prime_s::*};

fn main() {
    for (n, k, f) in [(5, 4, 1), (7, 4, 2), (23, 19, 3)] {
        let l = PrimeS::new(n, k, f);
        for rep in [0u64, 1, 1000, 1 << 31, 1 << 40] {
            let start = rep * l.datachunks();
            for (c, loc) in l.iter(ChunkId::Data(start), ChunkId::Data(start + 10 * (k - f) as u64)) {
                assert_eq!(l.id2loc(c), loc, "{n}-{k}-{f} {c:?}");
            }
        }
    }
}
'''
