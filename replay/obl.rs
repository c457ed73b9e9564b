// Runs the contract functions of an obligations! table on boundary and random values, or on one recorded input.
#![allow(unused, dead_code)]
@WATCH@
@MODS@
mod obl {
@OBL@
}
use obl::{Src, TABLE};
fn hex(b: &[Vec<u8>]) -> String { b.iter().map(|v| v.iter().map(|x| format!("{:02x}", x)).collect::<String>()).collect::<Vec<_>>().join(";") }
fn unhex(s: &str) -> Vec<Vec<u8>> {
    if s.is_empty() { return vec![] }
    s.split(';').map(|v| (0..v.len() / 2).map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap()).collect()).collect()
}
fn run(i: usize, s: &mut Src) -> Result<Option<(bool, String)>, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| TABLE[i].1(s)));
    r.map_err(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()))
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut rng = 0x9E3779B97F4A7C15u64;
    if a[1] == "replay" {
        let (n, v) = a[3].split_once(':').unwrap();
        let i = TABLE.iter().position(|t| t.0 == n).expect("unknown obligation");
        let mut s = Src { bytes: unhex(v), pos: 0, rng: &mut rng, replay: true };
        match run(i, &mut s) {
            Ok(None) => println!("INFO\tskipped\tprecondition not met"),
            Ok(Some((true, _))) => {}
            Ok(Some((false, d))) => println!("FAIL\t{}\t{} does not hold for {}", a[3], n, d),
            Err(e) => println!("FAIL\t{}\t{} panics: {}", a[3], n, e.replace('\n', " ")),
        }
        println!("COUNT\t1\t1");
        return;
    }
    watch::start(60);
    rng ^= a[4].parse::<u64>().unwrap_or(1).wrapping_mul(0xD1B54A32D192ED03);
    let per = if a[3] == "quick" { @QUICK@u64 } else { @THOROUGH@u64 };
    let mut total = 0u64;
    for i in 0..TABLE.len() {
        let mut tried = 0u64; let mut fails = 0;
        let mut k = 0;
        while k < per {
            k += 1;
            let mut s = Src { bytes: vec![], pos: 0, rng: &mut rng, replay: false };
            let r = run(i, &mut s);
            let bytes = s.bytes;
            match r {
                Ok(None) => continue,
                Ok(Some((true, d))) => { tried += 1; if tried == 7 { println!("SAMPLE\t{}: {}", TABLE[i].0, d); } }
                Ok(Some((false, d))) => { println!("FAIL\t{}:{}\t{} does not hold for {}", TABLE[i].0, hex(&bytes), TABLE[i].0, d); fails += 1; }
                Err(e) => { println!("FAIL\t{}:{}\t{} panics: {}", TABLE[i].0, hex(&bytes), TABLE[i].0, e.replace('\n', " ")); fails += 1; }
            }
            if fails > 2 { break }
        }
        total += tried;
    }
    println!("COUNT\t{}\t{}", total, TABLE.len());
}
