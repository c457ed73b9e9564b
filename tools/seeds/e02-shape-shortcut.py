PROP = "E02"
FILE = "bfffs-core/src/raid/codec.rs"
EDITS = [("""            let ncl =
                cursors.iter()
                       .map(SGCursor::peek_len)
                       .min().unwrap();
""", """            let ncl = if data.iter().all(|sg| sg.len() <= 2) {
                // Too few segments to be worth comparing
                cursors[0].peek_len()
            } else {
                cursors.iter()
                       .map(SGCursor::peek_len)
                       .min().unwrap()
            };
""")]
NEEDS = "columns of one or two segments of which the first column's first segment is not the shortest"
BREAKS = "the common piece is taken from the first column alone, so the encoder reads past the end of shorter segments of the others"
DEMO = r'''//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% fixedbitset = { version = "0.4.0", default-features = false }
//% bfffs-isa-l = { path = "@REPO@/bfffs-isa-l" }
#![allow(dead_code, unused_imports)]
pub mod types { pub type IoVec = divbuf::DivBuf; pub type SGList = Vec<IoVec>; }
mod raid {
    #[path = "@REPO@/bfffs-core/src/raid/sgcursor.rs"] pub mod sgcursor;
    #[path = "@REPO@/bfffs-core/src/raid/codec.rs"] pub mod codec;
}
use raid::codec::Codec;
use divbuf::DivBufShared;

fn cut(b: &[u8], at: usize) -> types::SGList {
    let mut v = vec![];
    for s in [&b[..at], &b[at..]] { if s.is_empty() { continue }
        let mut w = s.to_vec(); w.extend([0xee; 64]); let n = s.len();
        v.push(DivBufShared::from(w).try_const().unwrap().slice(0, n)); }
    v
}
fn main() {
    let len = 48; let c = Codec::new(3, 1);
    let d: Vec<Vec<u8>> = (0..2).map(|i| (0..len).map(|b| (b * 5 + i * 77 + 1) as u8).collect()).collect();
    let mut p = vec![0u8; len];
    unsafe { c.encode(len, &[d[0].as_ptr(), d[1].as_ptr()], &mut [p.as_mut_ptr()]) };
    for (a, b) in [(16, 16), (16, 32), (32, 16), (0, 20), (20, 0)] {
        let mut q = vec![0u8; len + 64];
        unsafe { c.encodev(len, &[cut(&d[0], a), cut(&d[1], b)], &mut [q.as_mut_ptr()]) };
        assert_eq!(&q[..len], &p[..], "cut at {a} and {b}");
        assert!(q[len..].iter().all(|x| *x == 0), "cut at {a} and {b}");
    }
}
'''
