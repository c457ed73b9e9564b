//! Executable contracts of D01-D04 over the real prime_s.rs
#![allow(dead_code)]
#[path = "@REPO@/bfffs-core/src/raid"]
pub mod raid {
    #[path = "declust.rs"] pub mod declust;
    #[path = "prime_s.rs"] pub mod prime_s;
    use declust::*; use prime_s::PrimeS;
    #[enum_dispatch::enum_dispatch] #[derive(Clone, Debug)] pub enum LocatorImpl { PrimeS }
}
use raid::{declust::*, prime_s::*};
use std::{panic::{catch_unwind, AssertUnwindSafe}, sync::{Mutex, atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed}}};

fn prime(n: i64) -> bool { n > 1 && (2..n).all(|d| n % d != 0) }
struct Rng(u64);
impl Rng { fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
           fn below(&mut self, n: u64) -> u64 { self.next() % n } }
type G = (i16, i16, i16);
fn all_geos(lo: i16, hi: i16) -> Vec<G> {
    let mut v = vec![];
    for n in lo..=hi {
        if prime(n as i64) { for k in 2..=n { for f in 1..k { v.push((n, k, f)); } } }
        // a composite number of disks must be refused: if it is not, its layout counts like any other
        else { for (k, f) in [(2, 1), (3, 1), (4, 1), (4, 2), (5, 3), (n, 1)] { if k <= n && f < k && catch_unwind(|| PrimeS::new(n, k, f)).is_ok() { v.push((n, k, f)); } } }
    }
    v
}
/// the chunk at position x of stripe s
fn chunk(g: G, s: u64, x: i16) -> ChunkId {
    let m = (g.1 - g.2) as u64;
    if (x as u64) < m { ChunkId::Data(s * m + x as u64) } else { ChunkId::Parity(s * m, x - m as i16) }
}
fn succ(g: G, id: ChunkId) -> ChunkId {
    let m = (g.1 - g.2) as u64;
    match id { ChunkId::Data(a) if a % m < m - 1 => ChunkId::Data(a + 1),
               ChunkId::Data(a) => ChunkId::Parity(a - (m - 1), 0),
               ChunkId::Parity(a, i) if i < g.2 - 1 => ChunkId::Parity(a, i + 1),
               ChunkId::Parity(a, _) => ChunkId::Data(a + m) }
}
fn at(g: G) -> String { format!("{}-{}-{}", g.0, g.1, g.2) }

/// exhaustive over `reps` repetitions of one geometry
fn walk(prop: &str, g: G, reps: u64, every_start: bool) -> Result<u64, (String, String)> {
    let l = PrimeS::new(g.0, g.1, g.2);
    let (n, k, f) = (g.0 as u64, g.1 as u64, g.2 as u64);
    let m = k - f;
    if l.datachunks() != n * (n - 1) * m && prop == "D04" { /* any self-consistent repetition would do */ }
    if l.disks() as u64 != n || l.stripesize() as u64 != k || l.protection() as u64 != f { return Err((at(g), "reports a different geometry".into())); }
    let stripes = l.datachunks() / m * reps;
    let depth = l.depth() as u64 * reps;
    if l.datachunks() % m != 0 { return Err((at(g), "a repetition holds a fraction of a stripe".into())); }
    let mut next_slot = vec![0u64; n as usize];
    let mut seen = if prop == "D01" { vec![false; (n * depth) as usize] } else { vec![] };
    let mut cnt = 0;
    let mut it = if prop == "D03" { Some(l.iter(ChunkId::Data(0), ChunkId::Data(stripes * m))) } else { None };
    for s in 0..stripes {
        let mut disks = [false; 256];
        for x in 0..k as i16 {
            let id = chunk(g, s, x);
            let loc = l.id2loc(id);
            cnt += 1;
            let inp = || format!("{} {}", at(g), show(id));
            if loc.disk < 0 || loc.disk as u64 >= n { return Err((inp(), format!("disk {} of {}", loc.disk, n))); }
            match prop {
                "D01" => {
                    if loc.offset < depth {
                        let i = (loc.disk as u64 * depth + loc.offset) as usize;
                        if seen[i] { return Err((inp(), format!("shares {:?} with another chunk", loc))); }
                        seen[i] = true;
                    } else { return Err((inp(), format!("{:?} is outside of the {} rows that {} repetitions take", loc, depth, reps))); }
                    let back = l.loc2id(loc.clone());
                    if back != id { return Err((inp(), format!("{:?} translates back to {:?}", loc, back))); }
                }
                "D02" => {
                    if disks[loc.disk as usize] { return Err((inp(), format!("another chunk of its stripe is also on disk {}", loc.disk))); }
                    disks[loc.disk as usize] = true;
                }
                "D03" => {
                    let e = it.as_mut().unwrap().next();
                    if e != Some((id, loc.clone())) { return Err((format!("{} {} {}", at(g), show(ChunkId::Data(0)), show(succ(g, id))), format!("iterator from the beginning gives {:?} where {:?} at {:?} is next", e, id, loc))); }
                }
                "D04" => {
                    let w = &mut next_slot[loc.disk as usize];
                    if *w != loc.offset { return Err((inp(), format!("is the {}th chunk of disk {} but gets slot {}", w, loc.disk, loc.offset))); }
                    *w += 1;
                }
                _ => unreachable!()
            }
        }
        if prop == "D04" && (s + 1) % (l.datachunks() / m) == 0 {
            let want = l.depth() as u64 * ((s + 1) / (l.datachunks() / m));
            if next_slot.iter().any(|&x| x != want) { return Err((at(g), format!("after a repetition the disks are filled up to {:?}, not {}", &next_slot[..], want))); }
        }
    }
    if prop == "D01" && seen.iter().any(|x| !x) { return Err((at(g), "some slot holds no chunk".into())); }
    if let Some(mut i) = it { for _ in 0..3 { if let Some(e) = i.next() { return Err((format!("{} D0 D{}", at(g), stripes * m), format!("iterator gives {:?} after its end", e))); } } }
    if prop == "D03" && every_start {
        for s in 0..stripes / reps + 1 { for x in 0..k as i16 {
            let a = chunk(g, s, x);
            check_range(&l, g, a, 2 * k + 3)?; cnt += 2 * k + 3;
        } }
    }
    Ok(cnt)
}
fn check_range(l: &PrimeS, g: G, a: ChunkId, len: u64) -> Result<(), (String, String)> {
    let mut end = a; for _ in 0..len { end = succ(g, end); }
    let mut it = l.iter(a, end); let mut id = a;
    let inp = || format!("{} {} {}", at(g), show(a), show(end));
    while id != end {
        let want = Some((id, l.id2loc(id)));
        let got = it.next();
        if got != want { return Err((inp(), format!("got {:?} expected {:?}", got, want))); }
        id = succ(g, id);
    }
    for _ in 0..3 { if let Some(e) = it.next() { return Err((inp(), format!("got {:?} after the end", e))); } }
    Ok(())
}
/// random chunks of one geometry, anywhere in a huge array
fn sample(prop: &str, g: G, rng: &mut Rng, count: u64) -> Result<u64, (String, String)> {
    let l = PrimeS::new(g.0, g.1, g.2);
    let k = g.1 as u64; let m = (g.1 - g.2) as u64;
    let spr = g.0 as u64 * (g.0 as u64 - 1);
    for i in 0..count {
        let top = [spr * 2, spr * 1000, 1 << 40, (1 << 50) / m][i as usize % 4];
        let mut s = rng.below(top);
        if i % 3 == 0 { s = s / spr * spr + spr - 1 - rng.below(3).min(spr - 1); }
        let x = rng.below(k) as i16;
        let id = chunk(g, s, x);
        one(prop, &l, g, id, s, rng)?;
    }
    Ok(count)
}
fn one(prop: &str, l: &PrimeS, g: G, id: ChunkId, s: u64, rng: &mut Rng) -> Result<(), (String, String)> {
    let k = g.1 as u64;
    let loc = l.id2loc(id);
    let inp = || format!("{} {}", at(g), show(id));
    if loc.disk < 0 || loc.disk >= g.0 { return Err((inp(), format!("disk {}", loc.disk))); }
    match prop {
        "D01" => {
            let b = l.loc2id(loc.clone());
            if b != id { return Err((inp(), format!("{:?} translates back to {:?}", loc, b))); }
            let q = Chunkloc::new(rng.below(g.0 as u64) as i16, loc.offset.saturating_sub(rng.below(3)) + rng.below(3));
            let c = l.loc2id(q.clone());
            let q2 = l.id2loc(c);
            if q2 != q { return Err((format!("{} {},{}", at(g), q.disk, q.offset), format!("holds {:?}, which translates to {:?}", c, q2))); }
        }
        "D02" => { let mut d = [false; 256];
            for x in 0..k as i16 { let o = chunk(g, s, x); let w = l.id2loc(o); 
                if w.disk < 0 || w.disk >= g.0 { return Err((format!("{} {}", at(g), show(o)), format!("disk {}", w.disk))); }
                if d[w.disk as usize] { return Err((format!("{} {}", at(g), show(o)), format!("another chunk of its stripe is also on disk {}", w.disk))); }
                d[w.disk as usize] = true; } }
        "D03" => check_range(l, g, id, rng.below(3 * k) + 1)?,
        "D04" => {
            // follow one disk for a few chunks: consecutive slots
            let mut id2 = id; let mut last = loc.offset; let mut found = 0;
            for _ in 0..(3 * g.0 as u64 * k) { id2 = succ(g, id2); let w = l.id2loc(id2);
                if w.disk == loc.disk { if w.offset != last + 1 { return Err((format!("{} {}", at(g), show(id2)), format!("gets slot {} of disk {}; the chunk before it on that disk has slot {}", w.offset, w.disk, last))); }
                    last = w.offset; found += 1; if found == 3 { break; } } }
        }
        _ => unreachable!()
    }
    Ok(())
}
fn show(id: ChunkId) -> String { match id { ChunkId::Data(a) => format!("D{a}"), ChunkId::Parity(a, i) => format!("P{a}.{i}") } }
fn read(s: &str) -> ChunkId { let (c, r) = s.split_at(1); if c == "D" { ChunkId::Data(r.parse().unwrap()) } else { let (a, b) = r.split_once('.').unwrap(); ChunkId::Parity(a.parse().unwrap(), b.parse().unwrap()) } }

fn guard<F: FnOnce() -> Result<u64, (String, String)>>(g: G, what: &str, f: F) -> Result<u64, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => Err((at(g), format!("{what} panics: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let prop = a[2].clone();
    if a[1] == "replay" {
        let w: Vec<&str> = a[3].split(' ').collect();
        let p: Vec<i16> = w[0].split('-').map(|x| x.parse().unwrap()).collect();
        let g = (p[0], p[1], p[2]);
        let full = |reps| guard(g, "layout", || walk(&prop, g, reps, g.0 <= 13));
        let r = if w.len() == 2 && w[1].contains(',') {
            let (d, o) = w[1].split_once(',').unwrap();
            guard(g, "lookup", || { let l = PrimeS::new(g.0, g.1, g.2); let q = Chunkloc::new(d.parse().unwrap(), o.parse().unwrap());
                let c = l.loc2id(q.clone()); let q2 = l.id2loc(c); if q2 == q { Ok(1) } else { Err((a[3].clone(), format!("holds {:?}, which translates to {:?}", c, q2))) } })
        } else if w.len() == 3 {
            guard(g, "iterator", || { let l = PrimeS::new(g.0, g.1, g.2); let (s, e) = (read(w[1]), read(w[2])); let mut n = 0; let mut x = s; while x != e { x = succ(g, x); n += 1; } check_range(&l, g, s, n).map(|_| 1) })
        } else if w.len() == 2 {
            guard(g, "lookup", || { let l = PrimeS::new(g.0, g.1, g.2); let id = read(w[1]); let s = id.address() / (g.1 - g.2) as u64;
                one(&prop, &l, g, id, s, &mut Rng(7)).map(|_| 1) }).and_then(|_| if g.0 < 60 { full(2) } else { Ok(1) })
        } else { full(2) };
        match r { Err((i, w)) => println!("FAIL\t{i}\t{w}"), Ok(n) => println!("COUNT\t{n}") }
        return;
    }
    let thorough = a[3] == "thorough"; let seed: u64 = a[4].parse().unwrap();
    let (full, starts) = if thorough { (71, 19) } else { (37, 11) };
    let mut jobs: Vec<(G, bool)> = all_geos(2, full).into_iter().map(|g| (g, true)).collect();
    jobs.sort_by_key(|(g, _)| *g);
    let mut rest: Vec<(G, bool)> = all_geos(full + 1, 215).into_iter().map(|g| (g, false)).collect();
    let per = if thorough { 40 } else { 4 };
    // the largest layouts, in full
    let mut big = vec![(211, 211, 1), (211, 2, 1), (211, 107, 53), (199, 199, 198), (191, 191, 1), (101, 50, 3)];
    if prop == "D01" || prop == "D04" || prop == "D03" { big.truncate(if thorough { 6 } else { 3 }); }
    let shift = (seed as usize * 7919) % rest.len().max(1); rest.rotate_left(shift);
    jobs.extend(big.into_iter().map(|g| (g, true)));
    jobs.extend(rest);
    let next = AtomicUsize::new(0); let total = AtomicU64::new(0); let geos = AtomicU64::new(0);
    let bad: Mutex<Vec<(usize, String, String)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| { for _ in 0..8 { sc.spawn(|| loop {
        let i = next.fetch_add(1, Relaxed); if i >= jobs.len() || bad.lock().unwrap().len() > 3 { break; }
        let (g, exhaustive) = jobs[i];
        let r = if exhaustive { guard(g, "layout", || walk(&prop, g, if g.0 > 100 { 1 } else { 2 }, g.0 <= starts)) }
                else { guard(g, "layout", || sample(&prop, g, &mut Rng(seed * 1000003 + i as u64 + 1), if prop == "D04" { 1.max(per / 4) } else { per })) };
        match r { Ok(n) => { total.fetch_add(n, Relaxed); geos.fetch_add(1, Relaxed); } Err((a, b)) => bad.lock().unwrap().push((i, a, b)) }
    }); } });
    let mut bad = bad.into_inner().unwrap(); bad.sort();
    for (_, i, w) in bad.iter().take(3) { println!("FAIL\t{i}\t{w}"); }
    println!("COUNT\t{}\t{}", total.load(Relaxed), geos.load(Relaxed));
    println!("SAMPLE\tevery chunk of 2 repetitions of every geometry with n <= {full}, e.g. 5-4-1; {per} random chunks each of {} larger geometries, e.g. 211-211-1", jobs.len());
}
