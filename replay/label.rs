//! L01: real labels written, corrupted and read back, in memory and through real devices over an in-memory disk.
#![allow(dead_code, unused_imports, unused_macros, unused_mut)]
pub mod types; pub mod util; pub mod label; pub mod vdev; pub mod vpshim; pub mod vdev_file; pub mod vdev_block; pub mod mirror; pub mod raid; pub mod cluster;
pub use types::*; pub use util::*;
use vpshim::*; use label::*; use vdev::Vdev; use vdev_block::{VdevBlock, Manager};
use divbuf::DivBufShared; use speedy::{Readable, Writable, LittleEndian};
use std::{hash::Hasher, num::NonZeroU64, panic::{catch_unwind, AssertUnwindSafe}};
@WATCH@
type R<T> = std::result::Result<T, String>;
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn below(&mut self, n: u64) -> u64 { (self.next() >> 33) % n }
}
#[derive(Debug, Clone, PartialEq, Readable, Writable)] struct Node { a: u32, b: Vec<u64>, c: String, d: Option<u8> }
#[derive(Debug, Clone, PartialEq)] enum Val { Bytes(Vec<u8>), Word(u64), Text(String), Node(Node), Uuids(Vec<Uuid>) }
impl Val {
    fn random(r: &mut Rng, big: u64) -> Val { let n = r.below(big + 1) as usize; match r.below(5) {
        0 => Val::Bytes((0..n).map(|_| r.next() as u8).collect()), 1 => Val::Word(r.next()), 2 => Val::Text((0..n).map(|_| char::from_u32(32 + r.below(900) as u32).unwrap()).collect()),
        3 => Val::Node(Node { a: r.next() as u32, b: (0..n / 8).map(|_| r.next()).collect(), c: "x".repeat(n % 7), d: if r.below(2) == 0 { None } else { Some(n as u8) } }), _ => Val::Uuids((0..n / 16).map(|_| Uuid::new_v4()).collect()) } }
    fn put(&self, w: &mut LabelWriter) -> bool { match self { Val::Bytes(x) => w.serialize(x), Val::Word(x) => w.serialize(x), Val::Text(x) => w.serialize(x), Val::Node(x) => w.serialize(x), Val::Uuids(x) => w.serialize(x) }.is_ok() }
    fn raw(&self) -> Vec<u8> { match self { Val::Bytes(x) => x.write_to_vec(), Val::Word(x) => x.write_to_vec(), Val::Text(x) => x.write_to_vec(), Val::Node(x) => x.write_to_vec(), Val::Uuids(x) => x.write_to_vec() }.unwrap() }
    fn like(&self, r: &mut LabelReader) -> Option<Val> { Some(match self { Val::Bytes(_) => Val::Bytes(r.deserialize().ok()?), Val::Word(_) => Val::Word(r.deserialize().ok()?), Val::Text(_) => Val::Text(r.deserialize().ok()?), Val::Node(_) => Val::Node(r.deserialize().ok()?), Val::Uuids(_) => Val::Uuids(r.deserialize().ok()?) }) }
}
fn sum(len: u64, c: &[u8]) -> u64 { let mut h = metrohash::MetroHash64::new(); h.write(&len.to_be_bytes()); h.write(c); h.finish() }
/// the format, read independently: Some(contents) if the label is intact
fn intact(b: &[u8]) -> Option<&[u8]> {
    if b.len() < 32 || b[..16] != b"BFFFS Vdev\0\0\0\0\0\0"[..] { return None }
    let len = u64::from_be_bytes(b[24..32].try_into().unwrap()); let c = b[32..].get(..usize::try_from(len).ok()?)?;
    if sum(len, c).to_be_bytes() == b[16..24] { Some(c) } else { None }
}
fn build(r: &mut Rng, big: u64, which: u32) -> (Vec<Val>, Vec<u8>) {
    let vals: Vec<Val> = (0..r.below(7)).map(|_| Val::random(r, big)).collect();
    let mut w = LabelWriter::new(which); for v in &vals { assert!(v.put(&mut w)); }
    if r.below(2) == 0 { w = w.clone(); }
    (vals, w.into_sglist().iter().flat_map(|b| b.to_vec()).collect())
}
fn accepts(b: &[u8], what: &str) -> R<Option<LabelReader>> {
    let v = b.to_vec(); let want = intact(b).is_some();
    match catch_unwind(AssertUnwindSafe(|| LabelReader::new(v))) { Err(p) => Err(format!("{what}: panic: {}", msg(p))),
        Ok(Ok(r)) => if want { Ok(Some(r)) } else { Err(format!("{what}: a label that is not intact was accepted")) },
        Ok(Err(e)) => if want { Err(format!("{what}: an intact label was refused with {e:?}")) } else { Ok(None) } }
}
fn msg(p: Box<dyn std::any::Any + Send>) -> String { p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default() }
fn readback(b: &[u8], vals: &[Val], what: &str) -> R<()> {
    let mut r = accepts(b, what)?.ok_or(format!("{what}: the label written is not intact"))?;
    for v in vals.iter().rev() { let got = v.like(&mut r); if got.as_ref() != Some(v) { return Err(format!("{what}: {v:?} read back as {got:?}")); } }
    Ok(())
}
/// one label in memory. kind: a read back, x a corrupted byte, t a shorter buffer, l another length, m another length and the matching sum
fn memory(kind: char, g: &[u64]) -> R<()> {
    let mut r = Rng((g[0].wrapping_mul(0x9e3779b97f4a7c15)) | 1); for _ in 0..5 { r.next(); }
    let big = [0, 8, 60, 300, 3000][(g[0] % 5) as usize];
    let (vals, raw) = build(&mut r, big, (g[0] % 2) as u32);
    let c: Vec<u8> = vals.iter().rev().flat_map(|v| v.raw()).collect();
    if intact(&raw) != Some(&c[..]) || raw.len() != 32 + c.len() { return Err(format!("the label written is not magic, sum, length and the {} bytes of contents", c.len())); }
    let mut b = raw.clone(); b.resize(raw.len() + (g[0] % 3) as usize * 100, 0);
    match kind {
        'a' => readback(&b, &vals, "read back"),
        'x' => { let i = g[1] as usize % b.len(); b[i] ^= (g[2] as u8).max(1); accepts(&b, &format!("byte {i} changed")).map(drop)?; if i < raw.len() && intact(&b).is_some() { return Err("the model is wrong".into()); } if i >= raw.len() { readback(&b, &vals, "padding changed")?; } Ok(()) }
        'f' => { let (i, n) = [(16, 8), (0, 16), (24, 8), (16, 16), (0, 32), (32, b.len().min(72) - 32)][g[1] as usize % 6]; for x in &mut b[i..i + n] { *x = [0, 255][g[2] as usize % 2]; } if g[3] > 0 && b.len() > 32 { let j = 32 + g[3] as usize % (b.len() - 32); b[j] ^= 1; } accepts(&b, &format!("bytes {i}..{} filled with {}, {}", i + n, [0, 255][g[2] as usize % 2], if g[3] > 0 { "one more byte changed" } else { "the rest as written" })).map(drop) }
        't' => { let n = g[1] as usize % (b.len() + 1); b.truncate(n); accepts(&b, &format!("cut to {n} of {} bytes", raw.len())).map(drop) }
        _ => { let len = g[1]; b[24..32].copy_from_slice(&len.to_be_bytes()); if kind == 'm' { let end = usize::try_from(len).unwrap_or(usize::MAX).min(b.len() - 32); let s = sum(len, &b[32..32 + end]); b[16..24].copy_from_slice(&s.to_be_bytes()); } accepts(&b, &format!("length {len} in a label of {}", raw.len())).map(drop) }
    }
}
/// two labels on a device, each written at its time and then spoiled: 0 not, 1 a byte changed, 2 unreadable, 3 blank, 4 the first block of the label before it, 5 magic number gone, 6 an impossible length
fn device(g: &[u64]) -> R<()> {
    let mut r = Rng(g[0].wrapping_mul(0x9e3779b97f4a7c15) | 1); for _ in 0..5 { r.next(); }
    let p = mypath("/l"); let lbas = 256; let d = Disk::new(lbas); d.lock().immediate = g[0] % 2 == 0; plug(&p, d.clone());
    let mut sim = Sim::new(vec![d.clone()]); let mut ch = Rng(g[0] | 1);
    let vb = VdevBlock::create(&p, NonZeroU64::new(64)).map_err(|e| format!("{e:?}"))?; let uuid = vb.uuid(); let size = vb.size();
    let big = [8, 300, 2500, 7000][(g[0] % 4) as usize]; let mut last: Vec<Option<(Vec<Val>, u32, Vec<Vec<u8>>)>> = vec![None, None];
    let mut txg = 1 + r.below(1000) as u32;
    for _ in 0..1 + g[0] % 3 { for i in 0..2u32 {
        let n = 1 + r.below(5); let each = big / n; let vals: Vec<Val> = (0..n).map(|_| Val::random(&mut r, each)).collect(); let mut w = LabelWriter::new(i); for v in &vals { assert!(v.put(&mut w)); }
        let before: Vec<Vec<u8>> = (0..lbas).map(|l| d.block(l)).collect();
        let f = vb.write_label(w, TxgT(txg)); let res = sim.block_on(f, &mut |n| ch.below(n as u64) as usize); if let Some(p) = sim.panics.first() { return Err(format!("write_label: panic: {p}")); } res.ok_or("write_label never completes")?.map_err(|e| format!("write_label: {e:?}"))?; d.take_log();
        for l in 0..lbas { if (l < i as u64 * 4 || l >= i as u64 * 4 + 4) && d.block(l) != before[l as usize] { return Err(format!("writing label {i} changed block {l}")); } }
        last[i as usize] = Some((vals, txg, before[i as usize * 4..i as usize * 4 + 4].to_vec())); txg += r.below(2) as u32;
    } }
    drop(vb); sim.run(&mut |_| 0); sim.panics.clear();
    let area = |i: usize| -> Vec<u8> { (i as u64 * 4..i as u64 * 4 + 4).flat_map(|l| d.block(l)).collect() };
    for i in 0..2 { let b = i as u64 * 4; let x = r.next() as usize; let a = area(i); if intact(&a).is_none() { return Err(format!("label {i} on the disk is not intact")); } let end = 32 + intact(&a).unwrap().len();
        match g[1 + i] { 1 => { let at = x % end; let mut y = d.block(b + at as u64 / 4096); y[at % 4096] ^= 1 << (x >> 40) % 8; d.set(b + at as u64 / 4096, y); } 2 => { d.lock().bad.insert(b + (x % 4) as u64); } 3 => for l in b..b + 4 { d.set(l, vec![0; 4096]); }, 4 => { d.set(b, last[i].as_ref().unwrap().2[0].clone()); }
            5 => { let mut y = d.block(b); y[x % 16] ^= 0x20; d.set(b, y); } 6 => { let mut y = d.block(b); y[24..32].copy_from_slice(&[u64::MAX - 31 + x as u64 % 32, 1 << 63, 16384 - 32 + 1, u64::MAX][(x >> 20) % 4].to_be_bytes()); d.set(b, y); } _ => {} } }
    let ok = |i: usize| (0..4).all(|l| !d.lock().bad.contains(&(i as u64 * 4 + l))) && intact(&area(i)).is_some();
    let want = if ok(0) { Some(0) } else if ok(1) { Some(1) } else { None };
    let mut m = Manager::default(); let q = p.clone();
    // the values of the layers above follow the leaf's own label
    let res = sim.block_on(async move { let r = m.taste(&q).await; (r, m) }, &mut |n| ch.below(n as u64) as usize);
    if let Some(p) = sim.panics.first() { return Err(format!("reading the labels: panic: {p}")); }
    let (got, mut m) = res.ok_or("taste never completes")?;
    match (got, want) { (Err(_), None) => return Ok(()), (Err(e), Some(i)) => return Err(format!("label {i} is intact but the device was refused with {e:?}")), (Ok(_), None) => return Err("a device without an intact label was accepted".into()), _ => {} }
    let i = want.unwrap(); if g[1 + i] == 4 { return Ok(()) } // an older label, whole: what it held is not kept here
    let fut = m.import(uuid); let (vb, mut lr) = sim.block_on(fut, &mut |n| ch.below(n as u64) as usize).ok_or("import never completes")?.map_err(|e| format!("import: {e:?}"))?;
    let (vals, txg, _) = last[i].as_ref().unwrap();
    if vb.uuid() != uuid || vb.txg() != TxgT(*txg) || vb.size() != size || vb.lbas_per_zone() != 64 { return Err(format!("the device came back as {} of {} blocks at transaction {:?}, not {uuid} of {size} at {txg}", vb.uuid(), vb.size(), vb.txg())); }
    for v in vals.iter().rev() { let got = v.like(&mut lr); if got.as_ref() != Some(v) { return Err(format!("label {i}: {v:?} read back as {got:?}")); } }
    unplug(&p); Ok(())
}
fn run(c: &str) -> R<()> {
    let g: Vec<u64> = c[1..].split('.').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    match c.as_bytes()[0] { b'd' => device(&g), k => memory(k as char, &g) }
}
fn go(c: &str) -> Option<String> {
    watch::case(c.to_string());
    match catch_unwind(AssertUnwindSafe(|| run(c))) { Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(p) => Some(format!("panic: {}", msg(p))) }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {})); watch::start(60);
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" { if let Some(e) = go(&a[3]) { println!("FAIL\t{}\t{e}", a[3]); } return; }
    let thorough = a[3] == "thorough"; let seed = a[4].parse::<u64>().unwrap();
    let out = par(move |th| { let (mut n, mut fails) = (0u64, 0); search(thorough, seed, th, &mut n, &mut fails); n });
    let n = out.iter().sum::<u64>(); println!("COUNT\t{n}\t{n}");
}
fn search(thorough: bool, seed: u64, th: usize, n: &mut u64, fails: &mut i32) {
    let mut r = Rng((seed * 7919 + 11 + th as u64 * 104729) | 1); for _ in 0..20 { r.next(); }
    let mut one = |c: String, n: &mut u64| { *n += 1; if *n < 2 && th < 2 { println!("SAMPLE\t{c}"); } if let Some(e) = go(&c) { println!("FAIL\t{c}\t{e}"); *fails += 1; } *fails > 2 };
    if th == 0 { for s in 0..3u64 { for i in 0..if s == 2 { 400 } else { 200 } { for x in [1, 0x80] { if one(format!("x{s}.{i}.{x}"), n) { return } } if one(format!("t{s}.{i}"), n) { return } } } }
    if th == 2 { for s in 0..6 { for f in 0..6 { for v in 0..2 { for x in [0, 1, 7, 100] { if one(format!("f{s}.{f}.{v}.{x}"), n) { return } } } } } }
    let edge = [0, 1, 7, 8, 31, 32, 33, 4064, 16352, 16353, 16384, 1 << 31, 1 << 32, u64::MAX >> 1, 1 << 63, u64::MAX - 32, u64::MAX - 31, u64::MAX - 1, u64::MAX];
    if th == 1 { for s in 0..6 { for l in edge { for k in ['l', 'm'] { if one(format!("{k}{s}.{l}"), n) { return } } } } }
    for _ in 0..if thorough { 120_000 } else { 2500 } {
        let s = r.below(1 << 30);
        let c = match r.below(12) { 0 | 1 => format!("a{s}"), 2 | 3 => format!("x{s}.{}.{}", if r.below(2) == 0 { r.below(40) } else { r.below(4000) }, 1 + r.below(255)), 4 => format!("t{s}.{}", r.below(5000)), 5 => format!("l{s}.{}", match r.below(3) { 0 => r.next(), 1 => r.below(5000), _ => edge[r.below(19) as usize] }), 6 => format!("m{s}.{}", match r.below(3) { 0 => r.next(), 1 => r.below(5000), _ => edge[r.below(19) as usize] }),
            _ => format!("d{s}.{}.{}", r.below(7), r.below(7)) };
        if one(c, n) { return }
    }
}
