PROP = "S03"
FILE = "bfffs-core/src/util.rs"
EDITS = [("            len - (zero_bufs - 1) * zero_region_len));\n", "            len % zero_region_len));\n")]
NEEDS = "a zero list whose length is an exact multiple of the zero region's length (32768)"
BREAKS = "the last buffer of the zero list is empty instead of full: the list is 32768 bytes short"
DEMO = r'''//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% metrohash = "1.0"
#![allow(dead_code, unused_imports)]
pub mod types { pub type IoVec = divbuf::DivBuf; pub type IoVecMut = divbuf::DivBufMut; pub type SGList = Vec<IoVec>; pub type SGListMut = Vec<IoVecMut>; pub type LbaT = u64; }
#[path = "@REPO@/bfffs-core/src/util.rs"] mod util;
use divbuf::DivBufShared;
use types::*;

fn main() {
    for len in [1usize, 100, 32767, 32768, 32769, 65536, 98304, 98305] {
        let l = util::zero_sglist(len);
        assert_eq!(util::sglist_len(&l), len);
        assert!(l.iter().all(|b| b.iter().all(|x| *x == 0)));
    }
}
'''
