//! Failing-input search over the real util.rs and sgcursor.rs (S01-S04).
#![allow(dead_code, unused_imports)]
pub mod types { pub type IoVec = divbuf::DivBuf; pub type IoVecMut = divbuf::DivBufMut; pub type SGList = Vec<IoVec>; pub type SGListMut = Vec<IoVecMut>; pub type LbaT = u64; }
#[path = "@REPO@/bfffs-core/src/util.rs"] mod util;
#[path = "@REPO@/bfffs-core/src/raid/sgcursor.rs"] mod sgcursor;
use divbuf::DivBufShared;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use types::*;

@WATCH@
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn below(&mut self, n: u64) -> u64 { (self.next() >> 33) % n }
}
fn byte(i: usize) -> u8 { ((i * 31 + i / 251 + 7) % 255 + 1) as u8 }
/// buffers of the given lengths, holding consecutive pattern bytes
fn mk(lens: &[usize]) -> (Vec<DivBufShared>, SGList, Vec<u8>) {
    let mut k = 0; let mut keep = vec![]; let mut l = vec![]; let mut all = vec![];
    for n in lens {
        let v: Vec<u8> = (k..k + n).map(byte).collect(); k += n;
        all.extend(&v);
        let d = DivBufShared::from(v); l.push(d.try_const().unwrap()); keep.push(d);
    }
    (keep, l, all)
}
struct RecHasher(Vec<u8>);
impl std::hash::Hasher for RecHasher { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) } }

fn s01(lens: &[usize], lim: &[usize]) -> Result<(), String> {
    let (_k, l, all) = mk(lens);
    let mut c = sgcursor::SGCursor::from(&l);
    let (mut b, mut o, mut pos) = (0usize, 0usize, 0usize);
    for (i, m) in lim.iter().enumerate() {
        let left = if b < lens.len() { lens[b] - o } else { 0 };
        let p = c.peek_len();
        if p != left { return Err(format!("step {i}: peek_len {p}, the buffer has {left} left")); }
        match c.next(*m) {
            None => if b < lens.len() { return Err(format!("step {i}: ended after {pos} of {} bytes", all.len())) },
            Some(d) => {
                let want = left.min(*m);
                if b == lens.len() { return Err(format!("step {i}: {} bytes after the end", d.len())); }
                if d.len() != want { return Err(format!("step {i}: piece of {} bytes, expected {want}", d.len())); }
                if d[..] != all[pos..pos + want] { return Err(format!("step {i}: bytes differ at {pos}")); }
                pos += want; o += want; if o == lens[b] { b += 1; o = 0; }
            }
        }
    }
    Ok(())
}
fn s02(lens: &[usize]) -> Result<(), String> {
    let (_k, l, all) = mk(lens);
    let mut h = RecHasher(vec![9]); util::checksum_sglist(&l, &mut h);
    let mut want = vec![9]; want.extend(&all);
    if h.0 != want { return Err(format!("checksum_sglist fed {} bytes that differ from the list's {}", h.0.len() - 1, all.len())); }
    let mut h = RecHasher(vec![9]); util::checksum_iovec(&all, &mut h);
    if h.0 != want { return Err("checksum_iovec fed other bytes than the buffer's".into()); }
    use std::hash::Hasher;
    macro_rules! real { ($t:ty) => {
        let mut a = <$t>::default(); util::checksum_sglist(&l, &mut a); let mut b = <$t>::default(); util::checksum_iovec(&all, &mut b);
        if a.finish() != b.finish() { return Err(format!("{} differs between the list and one buffer", stringify!($t))); } } }
    real!(metrohash::MetroHash64); real!(std::collections::hash_map::DefaultHasher);
    Ok(())
}
fn s03(lens: &[usize]) -> Result<(), String> {
    let (_k, l, all) = mk(lens);
    if util::sglist_len(&l) != all.len() { return Err(format!("sglist_len {} for {} bytes", util::sglist_len(&l), all.len())); }
    let out = util::copy_and_pad_sglist(l.clone());
    let mut got = vec![];
    for (i, b) in out.iter().enumerate() {
        if b.len() % 4096 != 0 { return Err(format!("output buffer {i} has {} bytes", b.len())); }
        got.extend_from_slice(&b[..]);
    }
    if lens.iter().all(|l| l % 4096 == 0) {
        let same = out.len() == l.len() && out.iter().zip(l.iter()).all(|(a, b)| a.len() == b.len() && a[..] == b[..]);
        if !same { return Err("a list of whole blocks was changed".into()); }
    }
    if got.len() < all.len() || got[..all.len()] != all[..] { return Err(format!("{} bytes out do not start with the {} bytes in", got.len(), all.len())); }
    if got.len() - all.len() >= 4096 { return Err(format!("{} bytes of padding", got.len() - all.len())); }
    if got[all.len()..].iter().any(|b| *b != 0) { return Err("padding is not zero".into()); }
    for (a, n) in l.iter().zip(lens) { let _ = (a, n); }
    let mut k = 0; for b in l.iter() { for x in b.iter() { if *x != byte(k) { return Err("an input buffer was modified".into()); } k += 1; } }
    Ok(())
}
fn s03z(n: usize) -> Result<(), String> {
    let l = util::zero_sglist(n);
    let mut t = 0;
    for b in &l { t += b.len(); if b.iter().any(|x| *x != 0) { return Err("not zero".into()); } }
    if t != n { return Err(format!("{t} bytes")); }
    Ok(())
}
fn s04(s: (u8, i64), e: (u8, i64)) -> Result<(), String> {
    let b = |x: (u8, i64)| match x.0 { 0 => Bound::Included(x.1), 1 => Bound::Excluded(x.1), _ => Bound::Unbounded };
    let r = (b(s), b(e));
    let got = util::RangeBoundsExt::<i64>::is_empty(&r);
    let want = s.0 < 2 && e.0 < 2 && (s.1 > e.1 || s.1 == e.1 && (s.0 == 1 || e.0 == 1));
    if got != want { return Err(format!("is_empty says {got}")); }
    // a partially ordered type whose values are ordered here
    let f = |x: (u8, i64)| match x.0 { 0 => Bound::Included(x.1 as f64 / 2.0), 1 => Bound::Excluded(x.1 as f64 / 2.0), _ => Bound::Unbounded };
    if util::RangeBoundsExt::<f64>::is_empty(&(f(s), f(e))) != want { return Err(format!("is_empty::<f64> says {}", !want)); }
    let g = |x: (u8, i64)| match x.0 { 0 => Bound::Included((x.1 / 4, x.1 % 4)), 1 => Bound::Excluded((x.1 / 4, x.1 % 4)), _ => Bound::Unbounded };
    if s.1 >= 0 && e.1 >= 0 && util::RangeBoundsExt::<(i64, i64)>::is_empty(&(g(s), g(e))) != want { return Err(format!("is_empty::<(i64,i64)> says {}", !want)); }
    // the standard range types
    if s.0 == 0 && e.0 == 1 && util::RangeBoundsExt::<i64>::is_empty(&(s.1..e.1)) != want { return Err("Range".into()); }
    if s.0 == 0 && e.0 == 0 && util::RangeBoundsExt::<i64>::is_empty(&(s.1..=e.1)) != want { return Err("RangeInclusive".into()); }
    if s.0 == 0 && e.0 == 2 && util::RangeBoundsExt::<i64>::is_empty(&(s.1..)) { return Err("RangeFrom".into()); }
    if s.0 == 2 && e.0 == 1 && util::RangeBoundsExt::<i64>::is_empty(&(..e.1)) { return Err("RangeTo".into()); }
    Ok(())
}
fn nums(s: &str) -> Vec<usize> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() }
fn show(v: &[usize]) -> String { v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") }
fn one(prop: &str, input: &str) -> Result<(), String> {
    let p: Vec<&str> = input.split(';').collect();
    watch::case(input.to_string());
    let r = catch_unwind(AssertUnwindSafe(|| match prop {
        "S01" => s01(&nums(p[0]), &nums(p[1])),
        "S02" => s02(&nums(p[0])),
        "S03" => if let Some(n) = p[0].strip_prefix("zeros:") { s03z(n.parse().unwrap()) } else { s03(&nums(p[0])) },
        "S04" => { let f = |s: &str| { let mut i = s.split(':'); (i.next().unwrap().parse().unwrap(), i.next().unwrap().parse().unwrap()) }; s04(f(p[0]), f(p[1])) }
        _ => panic!()
    }));
    match r { Ok(x) => x, Err(e) => Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) }
}
struct Run<'a> { prop: &'a str, n: u64, fails: u64, seen: std::collections::HashSet<u64>, cost: u64 }
impl Run<'_> {
    fn go(&mut self, input: String) {
        use std::hash::{Hash, Hasher};
        if self.fails > 8 { return; }
        let mut h = std::collections::hash_map::DefaultHasher::new(); input.hash(&mut h); self.seen.insert(h.finish());
        self.n += 1;
        if self.n % 50_000 == 7 { println!("SAMPLE\t{input}"); }
        if let Err(e) = one(self.prop, &input) { self.fails += 1; println!("FAIL\t{input}\t{e}"); }
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {})); watch::start(30);
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" { match one(&a[2], &a[3]) { Ok(()) => println!("holds"), Err(e) => println!("FAIL\t{}\t{e}", a[3]) } return; }
    let prop = a[2].as_str(); let thorough = a[3] == "thorough";
    let mut rng = Rng(a[4].parse::<u64>().unwrap().wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let mut run = Run { prop, n: 0, fails: 0, seen: Default::default(), cost: 0 };
    match prop {
        "S01" => {
            let lim = [1usize, 2, 3, 4, usize::MAX];
            let mut lists: Vec<Vec<usize>> = vec![vec![]];
            for a in 1..=4 { lists.push(vec![a]); for b in 1..=4 { lists.push(vec![a, b]); for c in 1..=3 { lists.push(vec![a, b, c]); } } }
            for l in &lists {
                let depth = if thorough { 6 } else { 5 };
                for code in 0..5usize.pow(depth) {
                    let mut v = vec![]; let mut c = code; for _ in 0..depth { v.push(lim[c % 5]); c /= 5; }
                    // enough further calls to reach the end
                    v.extend([usize::MAX; 5]);
                    run.go(format!("{};{}", show(l), show(&v)));
                }
            }
            for _ in 0..if thorough { 300_000 } else { 30_000 } {
                let nb = 1 + rng.below(8) as usize;
                let l: Vec<usize> = (0..nb).map(|_| { let m = if rng.below(3) == 0 { 300 } else { 9 }; 1 + rng.below(m) as usize }).collect();
                let t: usize = l.iter().sum();
                let mut v: Vec<usize> = (0..t + 3).map(|_| match rng.below(6) { 0 => usize::MAX, 1 => l[rng.below(nb as u64) as usize], 2 => l[rng.below(nb as u64) as usize] + 1, _ => 1 + rng.below(12) as usize }).collect();
                v.truncate(200); v.extend(vec![usize::MAX; nb + 1]);
                run.go(format!("{};{}", show(&l), show(&v)));
            }
        }
        "S02" => {
            for a in 0..6 { for b in 0..6 { for c in 0..6 { for d in 0..6 { run.go(show(&[a, b, c, d])); } } } }
            run.go(String::new()); for a in 0..70 { run.go(show(&[a])); }
            for _ in 0..if thorough { 200_000 } else { 20_000 } {
                let nb = rng.below(12) as usize;
                run.go(show(&(0..nb).map(|_| { let m = if rng.below(3) == 0 { 300 } else { 40 }; rng.below(m) as usize }).collect::<Vec<_>>()));
            }
            for l in [vec![4096, 4096], vec![65536], vec![1, 131072, 1], vec![4095, 1, 4096], vec![0, 0, 5]] { run.go(show(&l)); }
        }
        "S03" => {
            let set = [0usize, 1, 2, 100, 4094, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 12288];
            run.go(String::new());
            for a in set { run.go(show(&[a])); for b in set { run.go(show(&[a, b])); for c in set { run.go(show(&[a, b, c])); } } }
            for a in [1usize, 4095, 4097, 2048, 3000] { for b in [1usize, 4095, 2048, 1096, 1000, 2000] { for c in [1usize, 4095, 2048, 4094, 96, 1192] { for d in set { run.go(show(&[a, b, c, d])); } } } }
            for _ in 0..if thorough { 100_000 } else { 6_000 } {
                let nb = 1 + rng.below(6) as usize; let mut acc = 0usize; let mut v = vec![];
                for _ in 0..nb {
                    let l = if acc > 0 { if rng.below(3) == 0 && acc < 4096 { 4096 - acc } else { 1 + rng.below(4095) as usize } }
                            else { match rng.below(4) { 0 => 4096 * (1 + rng.below(4) as usize), 1 => 1 + rng.below(4095) as usize, _ => 1 + rng.below(20000) as usize } };
                    if acc > 0 { acc += l; if acc % 4096 == 0 { acc = 0 } } else { acc = l % 4096 }
                    v.push(l);
                }
                run.go(show(&v));
            }
            for n in 1..=(if thorough { 200_000 } else { 1500 }) { run.go(format!("zeros:{n}")); }
            for m in 1..=40usize { for k in [-4097i64, -4096, -4095, -1, 0, 1, 4095, 4096, 4097] { let n = m as i64 * 8192 + k; if n > 0 { run.go(format!("zeros:{n}")); } } }
        }
        "S04" => {
            let vals = [i64::MIN, -3, -2, -1, 0, 1, 2, 3, 4, 5, 8, 9, 1 << 40, i64::MAX];
            for sk in 0..3 { for s in vals { for ek in 0..3 { for e in vals { run.go(format!("{sk}:{s};{ek}:{e}")); } } } }
            for _ in 0..if thorough { 500_000 } else { 100_000 } {
                let s = rng.below(20) as i64 - 5; let e = rng.below(20) as i64 - 5;
                run.go(format!("{}:{s};{}:{e}", rng.below(3), rng.below(3)));
            }
        }
        _ => panic!("unknown property")
    }
    println!("COUNT\t{}\t{}", run.n, run.seen.len());
}
