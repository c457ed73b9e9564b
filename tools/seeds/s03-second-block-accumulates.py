PROP = "S03"
FILE = "bfffs-core/src/util.rs"
EDITS = [("            let l = accum.len().div_ceil(BYTES_PER_LBA) * BYTES_PER_LBA;\n", "            let l = accum.len().max(BYTES_PER_LBA);\n")]
NEEDS = "a tail gathered from several buffers that crosses a block boundary and ends inside the second block (3000, 3000)"
BREAKS = "a gathered tail longer than one block is not padded to whole blocks"
DEMO = r'''//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% metrohash = "1.0"
#![allow(dead_code, unused_imports)]
pub mod types { pub type IoVec = divbuf::DivBuf; pub type IoVecMut = divbuf::DivBufMut; pub type SGList = Vec<IoVec>; pub type SGListMut = Vec<IoVecMut>; pub type LbaT = u64; }
#[path = "@REPO@/bfffs-core/src/util.rs"] mod util;
use divbuf::DivBufShared;
use types::*;

fn main() {
    for lens in [vec![100usize, 3996, 4096], vec![3000, 3000, 2192], vec![3000, 3000, 2192, 8192], vec![4096, 4000, 96, 5000], vec![3000, 3000], vec![8192, 2500, 2500, 1]] {
        let keep: Vec<DivBufShared> = lens.iter().enumerate().map(|(i, n)| DivBufShared::from(vec![i as u8 + 1; *n])).collect();
        let list: SGList = keep.iter().map(|d| d.try_const().unwrap()).collect();
        let mut all: Vec<u8> = list.iter().flat_map(|b| b.to_vec()).collect();
        let out = util::copy_and_pad_sglist(list);
        assert!(out.iter().all(|b| b.len() % 4096 == 0), "{lens:?}");
        all.resize(all.len().div_ceil(4096) * 4096, 0);
        assert_eq!(out.iter().flat_map(|b| b.to_vec()).collect::<Vec<u8>>(), all, "{lens:?}");
    }
}
'''
