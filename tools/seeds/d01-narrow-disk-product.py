PROP = 'D01'
FILE = 'bfffs-core/src/raid/prime_s.rs'
EDITS = [('        let y_inv = i32::from(invmod(cli.y, i16::from(self.n)));\n        // Contribution', '        let y_inv = invmod(cli.y, i16::from(self.n));\n        // Contribution'), ('let cb_stripe = ((i32::from(disk) * y_inv - i32::from(j)) *', 'let cb_stripe = ((i32::from(disk * y_inv) - i32::from(j)) *')]
NEEDS = 'an array of more than 181 disks, and a chunk on a disk d whose product with the inverse of the stride exceeds i16::MAX'
BREAKS = 'the 16-bit product overflows: id2loc panics (debug) or returns a slot that belongs to another chunk (release)'
DEMO = r'''//% fixedbitset = { version = "0.4.0", default-features = false }
//% enum_dispatch = "0.3.12"
#![allow(dead_code)]
#[path = "@REPO@/bfffs-core/src/raid"]
pub mod raid {
    #[path = "declust.rs"] pub mod declust;
    #[path = "prime_s.rs"] pub mod prime_s;
    use declust::*; use prime_s::PrimeS;
    #[enum_dispatch::enum_dispatch] #[derive(Clone, Debug)] pub enum LocatorImpl { PrimeS }
}
use raid::{declust::*, prime_s::*};

fn main() {
    for (n, k, f) in [(7, 5, 2), (211, 37, 5), (199, 20, 3)] {
        let l = PrimeS::new(n, k, f);
        let m = (k - f) as u64;
        for s in (0..n as u64 * (n as u64 - 1)).step_by(17) {
            let c = ChunkId::Parity(s * m, 1);
            assert_eq!(l.loc2id(l.id2loc(c)), c, "{n}-{k}-{f}");
        }
    }
}
'''
