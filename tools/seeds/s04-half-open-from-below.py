PROP = "S04"
FILE = "bfffs-core/src/util.rs"
EDITS = [("            (Bound::Excluded(s), Bound::Included(e)) => s >= e,\n", "            (Bound::Excluded(s), Bound::Included(e)) => s > e,\n")]
NEEDS = "a range with an excluded start equal to its included end, which no range literal produces"
BREAKS = "(x, x] is reported non-empty though it contains no key"
DEMO = r'''//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% metrohash = "1.0"
#![allow(dead_code, unused_imports)]
pub mod types { pub type IoVec = divbuf::DivBuf; pub type IoVecMut = divbuf::DivBufMut; pub type SGList = Vec<IoVec>; pub type SGListMut = Vec<IoVecMut>; pub type LbaT = u64; }
#[path = "@REPO@/bfffs-core/src/util.rs"] mod util;
use divbuf::DivBufShared;
use types::*;

use std::ops::Bound::*;
use util::RangeBoundsExt;
fn main() {
    assert!(!RangeBoundsExt::is_empty(&(Excluded(3), Included(4))));
    assert!(RangeBoundsExt::is_empty(&(Excluded(3), Included(2))));
    assert!(RangeBoundsExt::is_empty(&(Excluded(3), Included(3))));
}
'''
