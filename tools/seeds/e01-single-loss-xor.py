PROP = "E01"
FILE = "bfffs-core/src/raid/codec.rs"
EDITS = [("""                dec_rows[k * i + j] =
                    dec_matrix[k * r + j];
""", """                // A single lost column is the sum of all the others
                dec_rows[k * i + j] = if erasures.count_ones(..) == 1 { 1 }
                    else { dec_matrix[k * r + j] };
""")]
NEEDS = "a code with at least two parity columns of which only one column is lost (fewer than the redundancy level)"
BREAKS = "the lost data column is reconstructed as the XOR of the surviving columns, which is right only for single parity"
DEMO = r'''//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% fixedbitset = { version = "0.4.0", default-features = false }
//% bfffs-isa-l = { path = "@REPO@/bfffs-isa-l" }
#![allow(dead_code, unused_imports)]
pub mod types { pub type IoVec = divbuf::DivBuf; pub type SGList = Vec<IoVec>; }
mod raid {
    #[path = "@REPO@/bfffs-core/src/raid/sgcursor.rs"] pub mod sgcursor;
    #[path = "@REPO@/bfffs-core/src/raid/codec.rs"] pub mod codec;
}
use raid::codec::Codec;
use fixedbitset::FixedBitSet;

fn main() {
    let len = 64;
    for (m, f) in [(3u32, 1u32), (5, 1), (4, 2), (7, 3)] {
        let k = (m - f) as usize; let c = Codec::new(m, f);
        let d: Vec<Vec<u8>> = (0..k).map(|i| (0..len).map(|b| (b * 7 + i * 31 + 3) as u8).collect()).collect();
        let mut p = vec![vec![0u8; len]; f as usize];
        let ins: Vec<*const u8> = d.iter().map(|x| x.as_ptr()).collect();
        let mut outs: Vec<*mut u8> = p.iter_mut().map(|x| x.as_mut_ptr()).collect();
        unsafe { c.encode(len, &ins, &mut outs) };
        for lost in 0..k {
            let mut e = FixedBitSet::with_capacity(m as usize); e.insert(lost);
            let surv: Vec<*const u8> = (0..m as usize).filter(|i| *i != lost).take(k).map(|i| if i < k { d[i].as_ptr() } else { p[i - k].as_ptr() }).collect();
            let mut r = vec![0u8; len];
            unsafe { c.decode(len, &surv, &mut [r.as_mut_ptr()], &e) };
            assert_eq!(r, d[lost], "m={m} f={f} lost={lost}");
        }
    }
}
'''
