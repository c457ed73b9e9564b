PROP = "E02"
FILE = "bfffs-core/src/raid/codec.rs"
EDITS = [("""        let k = self.m - self.f;
        bfffs_isa_l::ec_encode_data_update(""", """        let k = self.m - self.f;
        if data_idx == 0 {
            // The first column; the parity buffers may be uninitialised
            for p in parity.iter() {
                std::ptr::write_bytes(*p, 0, len);
            }
        }
        bfffs_isa_l::ec_encode_data_update(""")]
NEEDS = "columns added one by one in an order in which column 0 does not come first"
BREAKS = "adding column 0 wipes out the contributions of the columns added before it"
DEMO = r'''//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% fixedbitset = { version = "0.4.0", default-features = false }
//% bfffs-isa-l = { path = "@REPO@/bfffs-isa-l" }
#![allow(dead_code, unused_imports)]
pub mod types { pub type IoVec = divbuf::DivBuf; pub type SGList = Vec<IoVec>; }
mod raid {
    #[path = "@REPO@/bfffs-core/src/raid/sgcursor.rs"] pub mod sgcursor;
    #[path = "@REPO@/bfffs-core/src/raid/codec.rs"] pub mod codec;
}
use raid::codec::Codec;

fn main() {
    let len = 48; let c = Codec::new(5, 2);
    let d: Vec<Vec<u8>> = (0..3).map(|i| (0..len).map(|b| (b * 5 + i * 77 + 1) as u8).collect()).collect();
    let (mut p0, mut p1) = (vec![0u8; len], vec![0u8; len]);
    unsafe { c.encode(len, &[d[0].as_ptr(), d[1].as_ptr(), d[2].as_ptr()], &mut [p0.as_mut_ptr(), p1.as_mut_ptr()]) };
    for order in [[0usize, 1, 2], [2, 1, 0], [1, 0, 2]] {
        let (mut q0, mut q1) = (vec![0u8; len], vec![0u8; len]);
        for i in order { unsafe { c.encode_update(len, &d[i], &mut [q0.as_mut_ptr(), q1.as_mut_ptr()], i as u32) } }
        assert_eq!((&q0, &q1), (&p0, &p1), "order {order:?}");
    }
}
'''
