PROP = "E02"
FILE = "bfffs-isa-l/src/lib.rs"
EDITS = [("""    ffi::ec_encode_data(
        len as c_int,
""", """    ffi::ec_encode_data(
        // Work in whole words
        ((len + 7) & !7) as c_int,
""")]
NEEDS = "columns whose length is not a multiple of eight bytes"
BREAKS = "up to seven bytes past the end of every parity column (and of every column rebuilt) are overwritten"
DEMO = r'''//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% fixedbitset = { version = "0.4.0", default-features = false }
//% bfffs-isa-l = { path = "@REPO@/bfffs-isa-l" }
#![allow(dead_code, unused_imports)]
pub mod types { pub type IoVec = divbuf::DivBuf; pub type SGList = Vec<IoVec>; }
mod raid {
    #[path = "@REPO@/bfffs-core/src/raid/sgcursor.rs"] pub mod sgcursor;
    #[path = "@REPO@/bfffs-core/src/raid/codec.rs"] pub mod codec;
}
use raid::codec::Codec;

fn main() {
    let c = Codec::new(4, 2);
    for len in [16usize, 33, 61, 64] {
        let d: Vec<Vec<u8>> = (0..2).map(|i| (0..len + 64).map(|b| (b * 5 + i * 77 + 1) as u8).collect()).collect();
        let (mut p0, mut p1) = (vec![0x5au8; len + 64], vec![0x5au8; len + 64]);
        unsafe { c.encode(len, &[d[0].as_ptr(), d[1].as_ptr()], &mut [p0.as_mut_ptr(), p1.as_mut_ptr()]) };
        assert!(p0[len..].iter().chain(&p1[len..]).all(|b| *b == 0x5a), "length {len}");
    }
}
'''
