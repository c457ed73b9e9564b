//! T01: the real property.rs against an independent reference reader of name=value, names and sources.
#![allow(dead_code, unused_imports)]
#[path = "@REPO@/bfffs-core/src/property.rs"] mod property;
use property::*;
use std::{panic::{catch_unwind, AssertUnwindSafe}, str::FromStr};

@WATCH@
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn below(&mut self, n: u64) -> u64 { (self.next() >> 33) % n }
}
const NAMES: [(&str, PropertyName); 6] = [("atime", PropertyName::Atime), ("basemountpoint", PropertyName::BaseMountpoint), ("mountpoint", PropertyName::Mountpoint),
    ("name", PropertyName::Name), ("recordsize", PropertyName::RecordSize), ("recsize", PropertyName::RecordSize)];
fn ref_name(s: &str) -> Option<PropertyName> { NAMES.iter().find(|x| x.0 == s).map(|x| x.1) }
/// None: must be refused.  Some(None): spelling not fixed by the property (signs and leading zeros of a number)
fn ref_prop(s: &str) -> Option<Option<Property>> {
    let (n, v) = match s.find('=') { Some(i) => (&s[..i], Some(&s[i + 1..])), None => (s, None) };
    match ref_name(n)? {
        PropertyName::Atime => match v { None | Some("on") | Some("true") => Some(Some(Property::Atime(true))), Some("off") | Some("false") => Some(Some(Property::Atime(false))), _ => None },
        PropertyName::Mountpoint => v.map(|v| Some(Property::Mountpoint(v.into()))),
        PropertyName::RecordSize => {
            let v = v?;
            if v == "1048776" { return Some(Some(Property::RecordSize(20))) }     // historical spelling
            for i in 12..=20u8 { if v == format!("{}", 1u64 << i) { return Some(Some(Property::RecordSize(i))) } }
            let t = v.strip_prefix('+').unwrap_or(v); let z = t.trim_start_matches('0');
            if z != v && (z == "1048776" || (12..=20).any(|i| z == format!("{}", 1u64 << i))) { return Some(None) }
            None
        }
        _ => None,
    }
}
fn ref_src(s: &str) -> Option<u8> { match s { "local" => Some(0), "inherited" => Some(1), "default" => Some(2), "none" => Some(3), _ => None } }
fn src_kind(p: PropertySource) -> u8 { match p { PropertySource::Set(0) => 0, PropertySource::Set(_) => 1, PropertySource::Default => 2, PropertySource::None => 3 } }
fn check(s: &str) -> Result<(), String> {
    match (Property::from_str(s), ref_prop(s)) {
        (Err(_), None) | (_, Some(None)) => {}
        (Ok(p), Some(Some(q))) if p == q => {}
        (Ok(p), None) => return Err(format!("as a property it is accepted as {p:?}, it must be refused")),
        (g, Some(Some(q))) => return Err(format!("as a property it reads as {g:?}, it means {q:?}")),
    }
    match (PropertyName::from_str(s), ref_name(s)) {
        (Err(_), None) => {}
        (Ok(p), Some(q)) if p == q => {}
        (g, q) => return Err(format!("as a property name it reads as {g:?}, expected {q:?}")),
    }
    match (PropertySource::from_str(s), ref_src(s)) {
        (Err(_), None) => {}
        (Ok(p), Some(k)) if src_kind(p) == k => {}
        (g, k) => return Err(format!("as a source it reads as {g:?}, expected kind {k:?}")),
    }
    Ok(())
}
fn values(mp: &str) -> Vec<Property> {
    let mut v = vec![Property::Atime(true), Property::Atime(false), Property::Mountpoint(mp.into())];
    v.extend((12..=20).map(Property::RecordSize)); v
}
fn trip(p: &Property) -> Result<(), String> {
    let canon = match p { Property::Atime(_) => "atime", Property::Mountpoint(_) => "mountpoint", Property::RecordSize(_) => "recordsize", Property::Name(_) => "name", Property::BaseMountpoint(_) => "basemountpoint" };
    let n = format!("{}", p.name());
    if n != canon { return Err(format!("{p:?}: its name prints as {n:?}")); }
    let d = format!("{p}");
    let want = match p { Property::Atime(b) => (if *b { "on" } else { "off" }).to_string(), Property::RecordSize(i) => format!("{}", 1u64 << i), Property::Mountpoint(s) | Property::Name(s) | Property::BaseMountpoint(s) => s.clone() };
    if d != want { return Err(format!("{p:?} prints as {d:?}")); }
    let s = format!("{n}={d}");
    match Property::from_str(&s) { Ok(q) if q == *p => Ok(()), g => Err(format!("{p:?} printed as {s:?} reads back as {g:?}")) }
}
fn guarded(f: impl FnOnce() -> Result<(), String>) -> Option<String> {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(p) =>
        Some(format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) }
}
fn one(kind: &str, s: &str) -> Option<String> {
    match kind {
        "mp" => guarded(|| { for p in values(s) { trip(&p)?; } Ok(()) }),
        "names" => guarded(|| {
            for (s, n) in NAMES { if ref_name(&format!("{n}")) != Some(n) || PropertyName::from_str(&format!("{n}")) != Ok(n) { return Err(format!("{n:?} prints as {n}")); } let _ = s; }
            for (p, k) in [(Property::Atime(true), PropertyName::Atime), (Property::BaseMountpoint("x".into()), PropertyName::BaseMountpoint), (Property::Mountpoint("x".into()), PropertyName::Mountpoint), (Property::Name("x".into()), PropertyName::Name), (Property::RecordSize(3), PropertyName::RecordSize)] {
                if p.name() != k { return Err(format!("{p:?} is named {:?}", p.name())); } }
            for i in 0..=255u8 { let p = PropertySource::Set(i); let d = format!("{p}");
                if d != if i == 0 { "local" } else { "inherited" } { return Err(format!("{p:?} prints as {d}")); }
                if p.is_inherited() != (i > 0) { return Err(format!("{p:?}.is_inherited() is {}", p.is_inherited())); } }
            for (p, d) in [(PropertySource::Default, "default"), (PropertySource::None, "none")] { if format!("{p}") != d || p.is_inherited() { return Err(format!("{p:?} prints as {p}, inherited {}", p.is_inherited())); } }
            if PropertySource::LOCAL != PropertySource::Set(0) || PropertySource::FROM_PARENT != PropertySource::Set(1) || PropertySource::FROM_GRANDPARENT != PropertySource::Set(2) { return Err("source constants changed".into()); }
            Ok(()) }),
        _ => guarded(|| check(s)),
    }
}
fn inp(kind: &str, s: &str) -> String { format!("{kind}:{}", s.chars().map(|c| format!("{:x}", c as u32)).collect::<Vec<_>>().join(".")) }
fn main() {
    std::panic::set_hook(Box::new(|_| {})); watch::start(30);
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" {
        let (k, h) = a[3].split_once(':').unwrap(); let s: String = h.split('.').filter(|x| !x.is_empty()).map(|x| char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap()).collect();
        if let Some(e) = one(k, &s) { println!("FAIL\t{}\t{s:?}: {e}", a[3]); } return; }
    let thorough = a[3] == "thorough"; let mut r = Rng(a[4].parse::<u64>().unwrap() * 7919 + 99);
    let (mut n, mut fails) = (0u64, 0); let mut seen = std::collections::HashSet::new();
    let mut go = |k: &str, s: &str| { if fails > 4 { return } n += 1; seen.insert(inp(k, s)); watch::case(inp(k, s)); if let Some(e) = one(k, s) { fails += 1; println!("FAIL\t{}\t{s:?}: {e}", inp(k, s)); } };
    go("names", "");
    let mut words: Vec<String> = ["", "/", "/mnt", "/a=b", "=", "==x", "a b", " on", "on", "off", "true", "false", "4096", "\u{e9}\u{1f600}", "\n", "\0", "1048776", "local", "inherited", "default", "none", "received", "17", "k", "-4096", "18446744073709551616", "18446744073709555712", "99999999999999999999999999"].iter().map(|s| s.to_string()).collect();
    for i in 0..64u32 { for d in [-1i128, 0, 1] { words.push(format!("{}", (1i128 << i) + d)); } words.push(format!("{}", (1u128 << 64) + (1u128 << i))); }
    for i in 9..30 { words.push(format!("{}k", 1u64 << (i - 9))); }
    for w in &words { go("mp", w); go("s", w); }
    let names: Vec<&str> = NAMES.iter().map(|x| x.0).chain(["local", "inherited", "default", "none", "received", "record_size", "compression", "Atime", "ATIME"]).collect();
    let mut base: Vec<String> = vec![];
    for m in &names { base.push(m.to_string()); for w in &words { for sep in ["=", " = ", "==", ":", " "] { base.push(format!("{m}{sep}{w}")); } } }
    for b in &base { go("s", b); }
    // every single-character edit of everything that means something
    let good: Vec<String> = base.iter().filter(|b| ref_prop(b).is_some() || ref_name(b).is_some() || ref_src(b).is_some()).cloned().collect();
    let chars: Vec<char> = "=0129aemnotrsuT+-_. /\u{e9}".chars().collect();
    for g in &good { let c: Vec<char> = g.chars().collect();
        for i in 0..=c.len() {
            if i < c.len() { let mut t = c.clone(); t.remove(i); go("s", &t.iter().collect::<String>()); let mut t = c.clone(); t[i] = t[i].to_ascii_uppercase(); go("s", &t.iter().collect::<String>()); go("s", &c[..i].iter().collect::<String>()); go("s", &c[i..].iter().collect::<String>());
                if i + 1 < c.len() { let mut t = c.clone(); t.swap(i, i + 1); go("s", &t.iter().collect::<String>()); } }
            for x in &chars { let mut t = c.clone(); t.insert(i, *x); go("s", &t.iter().collect::<String>()); if i < c.len() { let mut t = c.clone(); t[i] = *x; go("s", &t.iter().collect::<String>()); } }
        } }
    for v in 0..if thorough { 3_000_000u64 } else { 300_000 } { let p = format!("recordsize={v}"); if v % 4 == 0 || v < 5000 { go("s", &p); } else { go("s", &format!("recsize={v}")); } }
    for t in 0..if thorough { 2_000_000 } else { 200_000 } {
        let l = r.below(12) as usize; let pool: Vec<char> = "=atimeonfrcdzup/48091 \u{e9}\0".chars().collect();
        let w: String = (0..l).map(|_| pool[r.below(pool.len() as u64) as usize]).collect();
        let m = names[r.below(names.len() as u64) as usize];
        match t % 4 { 0 => go("mp", &w), 1 => go("s", &w), 2 => go("s", &format!("{m}={w}")), _ => go("s", &format!("{m}{w}")) }
    }
    for s in ["atime", "mountpoint=/a=b", "recsize=1048776"] { println!("SAMPLE\t{s}"); }
    println!("COUNT\t{n}\t{}", seen.len());
}
