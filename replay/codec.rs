//! E01, E02: the real codec.rs, sgcursor.rs and bfffs-isa-l over libisal.
#![allow(dead_code, unused_imports)]
pub mod types { pub type IoVec = divbuf::DivBuf; pub type SGList = Vec<IoVec>; }
pub mod raid { #[path = "@REPO@/bfffs-core/src/raid/sgcursor.rs"] pub mod sgcursor; #[path = "@REPO@/bfffs-core/src/raid/codec.rs"] pub mod codec; }
use divbuf::DivBufShared;
use fixedbitset::FixedBitSet;
use raid::codec::Codec;
use std::panic::{catch_unwind, AssertUnwindSafe};

@WATCH@
struct Rng(u64);
impl Rng {
    fn new(s: u64) -> Rng { let mut r = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) | 1); for _ in 0..4 { r.next(); } r }
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn below(&mut self, n: u64) -> u64 { (self.next() >> 33) % n }
}
const G: usize = 64;
/// A buffer with guard bytes on both sides
struct Guard(Vec<u8>, usize);
impl Guard {
    fn new(len: usize, fill: u8) -> Guard { let mut v = vec![0xA5u8; len + 2 * G]; v[G..G + len].fill(fill); Guard(v, len) }
    fn ptr(&mut self) -> *mut u8 { unsafe { self.0.as_mut_ptr().add(G) } }
    fn get(&self) -> &[u8] { &self.0[G..G + self.1] }
    fn ok(&self) -> bool { self.0[..G].iter().chain(&self.0[G + self.1..]).all(|b| *b == 0xA5) }
}
fn bytes(r: &mut Rng, len: usize, kind: u64) -> Vec<u8> { (0..len).map(|i| match kind { 0 => 0, 1 => 0xff, 2 => (i == len - 1) as u8, _ => (r.next() >> 24) as u8 }).collect() }
fn encode(c: &Codec, d: &[Vec<u8>], f: usize, len: usize) -> Result<Vec<Vec<u8>>, String> {
    let mut p: Vec<Guard> = (0..f).map(|_| Guard::new(len, 0x5b)).collect();
    let ins: Vec<*const u8> = d.iter().map(|x| x.as_ptr()).collect(); let mut outs: Vec<*mut u8> = p.iter_mut().map(|x| x.ptr()).collect();
    unsafe { c.encode(len, &ins, &mut outs) }
    if p.iter().any(|x| !x.ok()) { return Err("encode wrote outside a parity column".into()); }
    Ok(p.iter().map(|x| x.get().to_vec()).collect())
}
/// the erasure sets tried for one geometry
fn erasures(r: &mut Rng, m: usize, f: usize, k: usize, all: bool) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![];
    if all { for bits in 1u64..1 << m { if bits.count_ones() as usize <= f && bits & ((1 << k) - 1) != 0 { v.push((0..m).filter(|i| bits >> i & 1 == 1).collect()); } } return v }
    for i in 0..k.min(if k > 40 { 8 } else { 40 }) { v.push(vec![if k <= 40 { i } else { r.below(k as u64) as usize }]); }
    for _ in 0..if k > 100 { 6 } else if k > 40 { 20 } else { 60 } { let n = 1 + r.below(f as u64) as usize; let mut e: Vec<usize> = vec![r.below(k as u64) as usize];
        let style = r.below(4);
        while e.len() < n { let x = match style { 0 => r.below(m as u64) as usize, 1 => r.below(k as u64) as usize, 2 => k + r.below(f as u64) as usize, _ => (e[e.len() - 1] + 1) % m }; if !e.contains(&x) { e.push(x) } else if style != 0 && r.below(8) == 0 { break } }
        e.sort(); v.push(e); }
    let n = f.min(k); v.push((0..n).collect()); v.push((k - n..k).collect()); v.push((m - f - 1..m - 1).collect()); v
}
fn e01(m: usize, f: usize, len: usize, seed: u64, deep: bool) -> Result<u64, String> {
    let mut r = Rng::new(seed); let k = m - f; let c = Codec::new(m as u32, f as u32); let mut n = 0;
    let d: Vec<Vec<u8>> = (0..k).map(|i| { let kind = if (seed + i as u64) % 5 == 0 { r.below(4) } else { 9 }; bytes(&mut r, len, kind) }).collect();
    let p = encode(&c, &d, f, len)?;
    for e in erasures(&mut r, m, f, k, m <= if deep { 12 } else { 9 }) {
        n += 1;
        let mut set = FixedBitSet::with_capacity(m); for i in &e { set.insert(*i); }
        let surv: Vec<usize> = (0..m).filter(|i| !e.contains(i)).take(k).collect();
        let ins: Vec<*const u8> = surv.iter().map(|i| if *i < k { d[*i].as_ptr() } else { p[*i - k].as_ptr() }).collect();
        let lost: Vec<usize> = e.iter().cloned().filter(|i| *i < k).collect();
        let mut o: Vec<Guard> = lost.iter().map(|_| Guard::new(len, 0x5b)).collect(); let mut outs: Vec<*mut u8> = o.iter_mut().map(|x| x.ptr()).collect();
        let w = catch_unwind(AssertUnwindSafe(|| unsafe { c.decode(len, &ins, &mut outs, &set) }));
        if let Err(p) = w { return Err(format!("losing columns {e:?} panics: {}", msg(p))); }
        for (j, i) in lost.iter().enumerate() {
            if !o[j].ok() { return Err(format!("losing columns {e:?}: decode wrote outside column {i}")); }
            if o[j].get() != &d[*i][..] { let b = (0..len).find(|b| o[j].get()[*b] != d[*i][*b]).unwrap(); return Err(format!("losing columns {e:?}: column {i} comes back different, first at byte {b}")); }
        }
        // lost parity is generated again from the recovered data
        if n % 7 == 0 { let mut d2 = d.clone(); for (j, i) in lost.iter().enumerate() { d2[*i] = o[j].get().to_vec(); } if encode(&c, &d2, f, len)? != p { return Err(format!("losing columns {e:?}: parity of the recovered data differs")); } }
    }
    if c.stripesize() != m as i16 || c.protection() != f as i16 { return Err("stripesize or protection wrong".into()); }
    Ok(n)
}
fn split(r: &mut Rng, b: &[u8], style: u64) -> Vec<divbuf::DivBuf> {
    let mut v = vec![]; let mut at = 0;
    while at < b.len() { let left = b.len() - at; let n = match style { 0 => left, 1 => 1 + r.below(left as u64) as usize, 2 => (1 + r.below(3) as usize).min(left), 3 => 16usize.min(left), _ => (1 + r.below(64) as usize).min(left) };
        let mut w = vec![0x77u8; 3]; w.extend(&b[at..at + n]); w.extend([0x33; 5]);
        let dbs = DivBufShared::from(w); v.push(dbs.try_const().unwrap().slice(3, 3 + n)); at += n; }
    v
}
fn e02(m: usize, f: usize, len: usize, seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed); let k = m - f; let c = Codec::new(m as u32, f as u32); let mut n = 0;
    let d: Vec<Vec<u8>> = (0..k).map(|_| { let kind = r.below(12); bytes(&mut r, len, kind) }).collect();
    let p = encode(&c, &d, f, len)?;
    for round in 0..6u64 {
        let lists: Vec<Vec<divbuf::DivBuf>> = d.iter().map(|x| { let st = if round < 5 { round } else { r.below(5) }; split(&mut r, x, st) }).collect();
        let mut o: Vec<Guard> = (0..f).map(|_| Guard::new(len, 0x5b)).collect(); let mut outs: Vec<*mut u8> = o.iter_mut().map(|x| x.ptr()).collect();
        let w = catch_unwind(AssertUnwindSafe(|| unsafe { c.encodev(len, &lists, &mut outs) }));
        let shape = || lists.iter().map(|l| l.iter().map(|b| b.len().to_string()).collect::<Vec<_>>().join("+")).collect::<Vec<_>>().join(" ");
        if let Err(p) = w { return Err(format!("encodev of columns cut as {} panics: {}", shape(), msg(p))); }
        if o.iter().any(|x| !x.ok()) { return Err(format!("encodev of columns cut as {} wrote outside a parity column", shape())); }
        for i in 0..f { if o[i].get() != &p[i][..] { return Err(format!("encodev of columns cut as {}: parity column {i} differs from encode's", shape())); } }
        n += 1;
    }
    for round in 0..3 {
        let mut ord: Vec<usize> = (0..k).collect(); if round == 1 { ord.reverse(); } if round == 2 { for i in 0..k { let j = r.below(k as u64) as usize; ord.swap(i, j); } }
        let mut o: Vec<Guard> = (0..f).map(|_| Guard::new(len, 0)).collect(); let mut outs: Vec<*mut u8> = o.iter_mut().map(|x| x.ptr()).collect();
        for i in &ord { let mut t = outs.clone(); unsafe { c.encode_update(len, &d[*i], &mut t, *i as u32) } }
        let _ = &mut outs;
        if o.iter().any(|x| !x.ok()) { return Err(format!("encode_update in order {ord:?} wrote outside a parity column")); }
        for i in 0..f { if o[i].get() != &p[i][..] { return Err(format!("encode_update in order {ord:?}: parity column {i} differs from encode's")); } }
        n += 1;
    }
    Ok(n)
}
fn msg(p: Box<dyn std::any::Any + Send>) -> String { p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().replace('\n', " ") }
fn run(prop: &str, m: usize, f: usize, len: usize, seed: u64, deep: bool) -> Result<u64, String> {
    match catch_unwind(AssertUnwindSafe(|| if prop == "E01" { e01(m, f, len, seed, deep) } else { e02(m, f, len, seed) })) { Ok(x) => x, Err(p) => Err(format!("panic: {}", msg(p))) }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {})); watch::start(60);
    let a: Vec<String> = std::env::args().collect(); let prop = a[2].as_str();
    if a[1] == "replay" { let v: Vec<u64> = a[3].split(',').map(|x| x.parse().unwrap()).collect(); println!("CASE\t{}", a[3]);
        if let Err(e) = run(prop, v[0] as usize, v[1] as usize, v[2] as usize, v[3], v[4] == 1) { println!("FAIL\t{}\t{e}", a[3]); } return; }
    let thorough = a[3] == "thorough"; let seed0: u64 = a[4].parse().unwrap(); let mut r = Rng::new(seed0 * 7919 + 5);
    let lens = [1usize, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 200, 511, 4096, 5000];
    let (mut n, mut cases, mut fails) = (0u64, 0u64, 0);
    let mut go = |m: usize, f: usize, len: usize, seed: u64| { if fails > 3 { return }
        let deep = thorough; let i = format!("{m},{f},{len},{seed},{}", deep as u8); println!("CASE\t{i}"); watch::case(i.clone()); cases += 1;
        match run(prop, m, f, len, seed, deep) { Ok(x) => n += x, Err(e) => { println!("FAIL\t{i}\tstripe of {m} columns with {f} parity, {len} bytes each: {e}"); fails += 1; } } };
    let top = if thorough { 40 } else { 22 };
    for m in 2..=top { for f in 1..m { for t in 0..if prop == "E02" { 12 } else if thorough { 5 } else { 2 } { go(m, f, if m <= 11 && prop == "E01" && f > 3 { lens[r.below(9) as usize] } else { lens[r.below(lens.len() as u64) as usize] }, r.below(1 << 30) + t); } } }
    for l in 1..=if thorough { 300 } else { 130 } { go(5, 2, l, l as u64); go(4, 1, l, l as u64); go(9, 4, l, l as u64); }
    for (m, f) in [(255, 1), (255, 2), (255, 4), (255, 20), (200, 3), (128, 5), (101, 7), (64, 30), (33, 16), (255, 127), (254, 60)] { for t in 0..if thorough { 6 } else { 1 } { go(m, f, [33, 64, 100][t % 3], t as u64 + seed0); } }
    for _ in 0..if thorough { 4000 } else { 300 } { let m = 2 + r.below(60) as usize; let f = 1 + r.below((m as u64 - 1).min(8)) as usize; go(m, f, lens[r.below(lens.len() as u64) as usize], r.below(1 << 30)); }
    println!("SAMPLE\t5,2,33,33,0"); println!("COUNT\t{n}\t{cases}");
}
