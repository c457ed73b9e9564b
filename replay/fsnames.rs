//! N01, N02: the hash tables and the directory listing of fs.rs over an ordered map in memory, against plain maps.
#![allow(dead_code, unused_imports, unused_macros, unused_mut, unused_variables)]
#[macro_use] pub mod vpfs; pub mod types; pub mod util; pub mod property; pub mod tree; pub mod fs_tree; pub mod dml; pub mod database; pub mod dataset; pub mod fs;
pub use types::*;
use crate::{fs_tree::*, database::*, fs::{vp_access, Fs, FileData}}; use futures::{StreamExt, FutureExt}; use divbuf::DivBufShared;
use std::{cell::Cell, collections::{BTreeMap, BTreeSet}, ffi::OsString, panic::{catch_unwind, AssertUnwindSafe}, sync::{Arc, Mutex}, task::{Context, Poll}, pin::pin};
@WATCH@
thread_local! { static RNG: Cell<u64> = const { Cell::new(1) }; }
fn next() -> u64 { RNG.with(|r| { let mut x = r.get(); x ^= x << 13; x ^= x >> 7; x ^= x << 17; r.set(x); x.wrapping_mul(0x2545F4914F6CDD1D) >> 17 }) }
fn below(n: u64) -> u64 { next() % n }
pub fn coin() -> bool { below(3) == 0 }
type R<T> = std::result::Result<T, String>;
fn wait<T>(f: impl std::future::Future<Output = T>) -> R<T> { let mut f = pin!(f); let mut cx = Context::from_waker(futures::task::noop_waker_ref()); for _ in 0..10_000 { if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return Ok(x) } } Err("never completes".into()) }
fn name(i: u64) -> OsString { ["a", "b", "cc", "d", "a.", "A", "e", "f"].get(i as usize).map(|s| s.to_string()).unwrap_or(format!("n{i}")).into() }
fn nums(s: &str) -> Vec<u64> { s.split('.').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() }
/// what is stored under a name, of either kind
trait Thing: HTItem + PartialEq + std::fmt::Debug { fn make(aux: u64, name: u64, v: u64) -> Self; fn a(aux: u64) -> Self::Aux; const KINDS: u64; fn key(object: u64, hash: u64) -> FSKey; }
impl Thing for Dirent { fn make(_: u64, n: u64, v: u64) -> Self { Dirent { ino: v, dtype: (v % 15) as u8, name: name(n) } } fn a(aux: u64) -> u64 { aux.wrapping_mul(77) } const KINDS: u64 = 1; fn key(o: u64, h: u64) -> FSKey { FSKey::new(o, ObjKey::DirEntry(h)) } }
impl Thing for ExtAttr {
    fn make(aux: u64, n: u64, v: u64) -> Self { let namespace = Self::a(aux); if v % 3 == 0 { ExtAttr::Blob(BlobExtAttr { namespace, name: name(n), extent: BlobExtent { lsize: v as u32, rid: RID(v) } }) } else { ExtAttr::Inline(InlineExtAttr { namespace, name: name(n), extent: InlineExtent::new(Arc::new(DivBufShared::from(v.to_le_bytes().to_vec()))) }) } }
    fn a(aux: u64) -> ExtAttrNamespace { if aux == 0 { ExtAttrNamespace::User } else { ExtAttrNamespace::System } } const KINDS: u64 = 2; fn key(o: u64, h: u64) -> FSKey { FSKey::new(o, ObjKey::ExtAttr(h)) } }
type Op = (char, Vec<u64>); // I key kind name; G key kind name; D key kind name
fn table<T: Thing>(ops: &[Op]) -> R<()> {
    let t: Tree = Default::default(); let d = Arc::new(ReadWriteFilesystem(t.clone()));
    let aux = FSKey::new(9, ObjKey::Inode); t.lock().unwrap().insert(aux, FSValue::Invalid);
    let mut m: BTreeMap<(u64, u64, u64), u64> = BTreeMap::new();
    for (k, o) in ops.iter().enumerate() {
        let when = format!("operation {k} ({}{:?})", o.0, o.1); let (h, a, n) = (o.1[0], o.1[1] % T::KINDS, o.1[2]); let key = T::key(1 + h % 2, h / 2);
        let want = m.get(&(h, a, n)).map(|v| T::make(a, n, *v));
        match o.0 {
            'I' => { let v = 1 + k as u64; let r = wait(vp_access::insert(d.clone(), key, T::make(a, n, v), name(n)))?; m.insert((h, a, n), v);
                if r != Ok(want.clone()) { return Err(format!("{when}: it says {r:?} was there before; {want:?} was")); } }
            'G' => { let r = wait(vp_access::get::<T>(&d, k % 2 == 0, key, T::a(a), name(n)))?; if r != want.clone().ok_or(T::ENOTFOUND) { return Err(format!("{when}: {r:?} instead of {want:?}")); } }
            'D' => { let r = wait(vp_access::remove::<T>(d.clone(), key, T::a(a), name(n)))?; m.remove(&(h, a, n)); if r != want.clone().ok_or(T::ENOTFOUND) { return Err(format!("{when}: {r:?} instead of {want:?}")); } }
            _ => {}
        }
        // everything else is still there, stored as it should be
        let mut keys: BTreeMap<FSKey, Vec<T>> = BTreeMap::new();
        for (x, v) in &m { keys.entry(T::key(1 + x.0 % 2, x.0 / 2)).or_default().push(T::make(x.1, x.2, *v)); }
        let now = t.lock().unwrap().clone();
        if now.get(&aux) != Some(&FSValue::Invalid) || now.len() != keys.len() + 1 { return Err(format!("{when}: {} keys are in the tree, {} should be", now.len() - 1, keys.len())); }
        for (key, want) in keys { let got = match T::from_table(now.get(&key).cloned()) { HTValue::Single(x) => vec![x], HTValue::Bucket(x) if x.len() > 1 => x, _ => return Err(format!("{when}: {key:?} holds nothing that belongs there")) };
            if got.len() != want.len() || want.iter().any(|x| !got.contains(x)) { return Err(format!("{when}: {key:?} holds {got:?}; it should be {want:?}")); } }
    }
    Ok(())
}
/// a directory: how many names at each of its keys; piece sizes
#[derive(Clone, Debug)] struct Dir { keys: Vec<(u64, u64)>, pieces: Vec<u64>, change: u64 }
fn listing(c: &Dir) -> R<()> {
    let t: Tree = Default::default(); let ino = 5; let mut want = BTreeSet::new(); let mut i = 0u64;
    let put = |t: &Tree, ino: u64, h: u64, v: Vec<Dirent>| { t.lock().unwrap().insert(FSKey::new(ino, ObjKey::DirEntry(h)), if v.len() == 1 { FSValue::DirEntry(v[0].clone()) } else { FSValue::DirEntries(v) }); };
    for (h, n) in &c.keys { let v: Vec<Dirent> = (0..*n).map(|_| { i += 1; want.insert(i); Dirent { ino: i, dtype: 8, name: format!("f{i}").into() } }).collect(); if *n > 0 { put(&t, ino, *h, v); } }
    for o in [ino - 1, ino + 1] { for h in [0, 3, (1 << 56) - 2] { put(&t, o, h, vec![Dirent { ino: 9999, dtype: 4, name: "other".into() }]); } t.lock().unwrap().insert(FSKey::new(o, ObjKey::Inode), FSValue::Invalid); }
    t.lock().unwrap().insert(FSKey::new(ino, ObjKey::Inode), FSValue::Invalid);
    let fs = Fs { db: Arc::new(Database(t.clone())), tree: 0 }; let fd = FileData { ino };
    let read = |at: i64, most: usize| -> R<Vec<(u64, i64)>> { let mut out = vec![]; let mut s = Box::pin(fs.readdir(&fd, at)); while out.len() < most { match wait(s.next())? { Some(Ok(d)) => { let n: String = d.d_name[..d.d_namlen as usize].iter().map(|c| *c as u8 as char).collect(); if n != format!("f{}", d.d_fileno) { return Err(format!("{n} is listed with inode {}", d.d_fileno)); } out.push((d.d_fileno, d.d_off)); } Some(Err(e)) => return Err(format!("error {e}")), None => break } if out.len() > 5000 { return Err("the listing never ends".into()); } } Ok(out) };
    let whole = read(0, usize::MAX)?; let got: BTreeSet<u64> = whole.iter().map(|x| x.0).collect();
    if got != want || got.len() != whole.len() { return Err(format!("a listing in one piece shows {:?}", whole)); }
    for (k, x) in whole.iter().enumerate() { let rest = read(x.1, whole.len() + 2)?; if rest.iter().map(|x| x.0).ne(whole[k + 1..].iter().map(|x| x.0)) { return Err(format!("continued after entry {k}, the listing shows {:?}; {:?} are left", rest.iter().map(|x| x.0).collect::<Vec<_>>(), whole[k + 1..].iter().map(|x| x.0).collect::<Vec<_>>())); } }
    let (mut at, mut seen, mut k) = (0i64, vec![], 0); let mut gone = BTreeSet::new(); let mut thin = BTreeSet::new(); let mut fresh = BTreeSet::new();
    loop { let n = if c.pieces.is_empty() { 1 } else { c.pieces[k % c.pieces.len()].max(1) } as usize; k += 1; let p = read(at, n)?; if p.is_empty() { break } if let Some(x) = p.iter().find(|x| seen.contains(&x.0) && !thin.contains(&x.0)) { return Err(format!("entry {} is listed twice", x.0)); }
        if let Some(x) = p.iter().find(|x| gone.contains(&x.0)) { return Err(format!("entry {} was removed before", x.0)); }
        seen.extend(p.iter().map(|x| x.0)); at = p.last().unwrap().1;
        // other names come and go meanwhile
        if c.change > 0 { let h = (c.change.wrapping_mul(k as u64) % (1 << 56)).saturating_sub(1); if c.keys.iter().all(|x| x.0 != h) && h < (1 << 56) - 1 { if k % 2 == 0 { let e = 10_000 + k as u64; fresh.insert(e); put(&t, ino, h, vec![Dirent { ino: e, dtype: 8, name: format!("f{e}").into() }]); } }
            // of a bucket, one name goes: those left in it may then be passed over or shown again, no others
            if k % 3 == 1 { if let Some((h, n)) = c.keys.get((k / 2) % c.keys.len()) { if *n > 1 { let mut j = 0; for (h2, n2) in &c.keys { for _ in 0..*n2 { j += 1; if h2 == h { want.remove(&j); thin.insert(j); } } } let key = FSKey::new(ino, ObjKey::DirEntry(*h)); let mut m = t.lock().unwrap(); if let Some(FSValue::DirEntries(v)) = m.get_mut(&key) { let x = below(v.len() as u64) as usize; let x = v.remove(x); gone.insert(x.ino); if v.len() == 1 && below(2) == 0 { let x = v.pop().unwrap(); m.insert(key, FSValue::DirEntry(x)); } else if v.is_empty() { m.remove(&key); } } } } }
            if k % 3 == 0 { if let Some((h, n)) = c.keys.get(k % c.keys.len()) { let mut j = 0; for (h2, n2) in &c.keys { for _ in 0..*n2 { j += 1; if h2 == h { gone.insert(j); want.remove(&j); } } } t.lock().unwrap().remove(&FSKey::new(ino, ObjKey::DirEntry(*h))); } } } }
    if let Some(x) = want.iter().find(|x| !seen.contains(x)) { return Err(format!("entry {x} is not listed")); }
    if let Some(x) = seen.iter().find(|x| !got.contains(x) && !fresh.contains(x)) { return Err(format!("entry {x} does not exist")); }
    Ok(())
}
fn fmt(ops: &[Op]) -> String { ops.iter().map(|o| format!("{}{}", o.0, o.1.iter().map(|n| n.to_string()).collect::<Vec<_>>().join("."))).collect::<Vec<_>>().join(",") }
fn fmt_dir(c: &Dir) -> String { format!("{}/{}/{}", c.keys.iter().map(|k| format!("{}.{}", k.0, k.1)).collect::<Vec<_>>().join(","), c.pieces.iter().map(|n| n.to_string()).collect::<Vec<_>>().join("."), c.change) }
fn guard(id: String, f: impl FnOnce() -> R<()>) -> Option<String> {
    watch::case(id); let r = match catch_unwind(AssertUnwindSafe(f)) { Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(p) => Some(format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) }; watch::done(); r
}
fn go_ops(x: bool, ops: &[Op]) -> Option<String> { guard(format!("{}/{}", if x { 'x' } else { 'd' }, fmt(ops)), || if x { table::<ExtAttr>(ops) } else { table::<Dirent>(ops) }) }
fn rep_ops(x: bool, ops: &[Op], e: String) { let (mut ops, mut e) = (ops.to_vec(), e); let mut i = ops.len(); while i > 0 { i -= 1; let mut d = ops.clone(); d.remove(i); if let Some(y) = go_ops(x, &d) { ops = d; e = y; } } println!("FAIL\t{}/{}\t{e}", if x { 'x' } else { 'd' }, fmt(&ops)); }
fn go_dir(c: &Dir) -> Option<String> { guard(fmt_dir(c), || listing(c)) }
fn rep_dir(c: &Dir, e: String) { let (mut c, mut e) = (c.clone(), e); loop { let mut any = false; let mut i = c.keys.len(); while i > 0 { i -= 1; let mut d = c.clone(); d.keys.remove(i); if let Some(y) = go_dir(&d) { c = d; e = y; any = true; } else if c.keys[i].1 > 1 { let mut d = c.clone(); d.keys[i].1 -= 1; if let Some(y) = go_dir(&d) { c = d; e = y; any = true; } } } if !any { break } } println!("FAIL\t{}\t{e}", fmt_dir(&c)); }
/// hashes at which something could go wrong. No name has the highest one, 2^56 - 1 (K01)
fn hash() -> u64 { match below(5) { 0 => below(4), 1 => (1 << 56) - 2 - below(3), 2 => (1 << below(56)) - 1, 3 => 1 << below(56), _ => next() << 16 & ((1 << 56) - 1) }.min((1 << 56) - 2) }
fn main() {
    std::panic::set_hook(Box::new(|_| {})); watch::start(60);
    let a: Vec<String> = std::env::args().collect(); let names = a[2] == "N01";
    if a[1] == "replay" { RNG.with(|r| r.set(88172645463325252)); let e = if names { let (x, o) = a[3].split_once('/').unwrap(); go_ops(x == "x", &o.split(',').filter(|s| !s.is_empty()).map(|s| (s.chars().next().unwrap(), nums(&s[1..]))).collect::<Vec<_>>()) } else { let p: Vec<&str> = a[3].split('/').collect(); go_dir(&Dir { keys: p[0].split(',').filter(|s| !s.is_empty()).map(|s| { let v = nums(s); (v[0], v[1]) }).collect(), pieces: nums(p[1]), change: p[2].parse().unwrap() }) }; if let Some(e) = e { println!("FAIL\t{}\t{e}", a[3]); } return; }
    let thorough = a[3] == "thorough"; RNG.with(|r| r.set(a[4].parse::<u64>().unwrap() * 7919 + 88172645463325252)); let (mut n, mut fails) = (0u64, 0);
    if names {
        // every short history of up to four names at one key
        let all: Vec<Op> = ['I', 'D', 'G'].iter().flat_map(|c| (0..4).map(move |x| (*c, vec![0, 0, x]))).collect();
        for len in 1..=if thorough { 6 } else { 5 } { let total = 12usize.pow(len); for code in 0..total { let mut x = code; let ops: Vec<Op> = (0..len).map(|_| { let o = all[x % 12].clone(); x /= 12; o }).collect(); n += 1; if let Some(e) = go_ops(code % 2 == 0, &ops) { rep_ops(code % 2 == 0, &ops, e); fails += 1; if fails > 2 { break } } } if fails > 2 { break } }
        for i in 0..if thorough { 400_000 } else { 40_000 } { if fails > 4 { break } let ops: Vec<Op> = (0..4 + below(40)).map(|_| (['I', 'I', 'D', 'G'][below(4) as usize], vec![below(5), below(2), below(7)])).collect(); n += 1; if i < 2 { println!("SAMPLE\t{}", fmt(&ops)); } let x = i % 2 == 0; if let Some(e) = go_ops(x, &ops) { rep_ops(x, &ops, e); fails += 1; } }
    } else {
        for code in 0..4u64.pow(5) { let c = Dir { keys: (0..5).map(|i| (i * (if i > 2 { (1 << 54) - 7 } else { 1 }), code / 4u64.pow(i as u32) % 4)).filter(|k| k.1 > 0).collect(), pieces: vec![], change: 0 }; n += 1; if let Some(e) = go_dir(&c) { rep_dir(&c, e); fails += 1; if fails > 2 { break } } }
        for i in 0..if thorough { 60_000 } else { 6_000 } { if fails > 4 { break } let big = below(40) == 0; let mut keys: Vec<(u64, u64)> = (0..1 + below(8)).map(|_| (hash(), if big && below(3) == 0 { 250 + below(6) } else { match below(4) { 0 => 2 + below(6), _ => 1 } })).collect(); keys.sort(); keys.dedup_by_key(|k| k.0); let c = Dir { keys, pieces: (0..below(4)).map(|_| 1 + below(9)).collect(), change: if below(2) == 0 { 1 + hash() } else { 0 } }; n += 1; if i < 2 { println!("SAMPLE\t{}", fmt_dir(&c)); } if let Some(e) = go_dir(&c) { rep_dir(&c, e); fails += 1; } }
    }
    println!("COUNT\t{n}\t{n}");
}
