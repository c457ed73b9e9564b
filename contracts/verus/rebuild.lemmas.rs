// ---- rebuilding a leaf
pub open spec fn start_of(v: ZV) -> TxgT { match v { ZV::Open { t0, .. } => t0, ZV::Closed { t0, .. } => t0, _ => TxgT(0) } }
pub open spec fn end_of(v: ZV) -> TxgT { match v { ZV::Open { .. } => TXG_MAX, ZV::Closed { t1, .. } => t1, _ => TxgT(0) } }
/// a zone that may hold something written in transaction s or later
pub open spec fn wanted(v: ZV, s: TxgT) -> bool { s.0 < TXG_MAX.0 && (v is Open || v is Closed && end_of(v).0 > s.0) }
/// transaction numbers are below the greatest, and a zone ends after it began
pub open spec fn ends_ok(f: FreeSpaceMap) -> bool { forall|z: ZoneT| match #[trigger] f.zv(z) { ZV::Open { t0, .. } => t0.0 < TXG_MAX.0, ZV::Closed { t0, t1, .. } => t0.0 <= t1.0 && t1.0 <= TXG_MAX.0, _ => true } }
pub open spec fn synced(l: Seq<Req>, m: usize) -> bool { l.len() > 0 && (l.last() == Req::Sync(Some(m)) || l.last() == Req::Sync(None)) }
pub open spec fn first_label(l: Seq<Req>, m: usize, t: TxgT) -> bool { l.len() > 1 && l[l.len() - 2] == Req::Label(0, m, t) }
proof fn lemma_grown(o: Seq<ZoneT>, n: Seq<ZoneT>, z: ZoneT) requires n == o || n == o.push(z) ensures forall|y: ZoneT| n.contains(y) <==> (o.contains(y) || n != o && y == z)
{
    assert forall|y: ZoneT| n.contains(y) <==> (o.contains(y) || n != o && y == z) by {
        if n != o { assert(n[o.len() as int] == z); if o.contains(y) { let j = o.index_of(y); assert(n[j] == y); } if n.contains(y) { let j = n.index_of(y); if j < o.len() { assert(o[j] == y); } } }
    }
}
proof fn lemma_permuted(a: Seq<ZoneT>, b: Seq<ZoneT>) requires a.to_multiset() == b.to_multiset() ensures a.len() == b.len(), forall|z: ZoneT| #[trigger] b.contains(z) <==> a.contains(z)
{ a.to_multiset_ensures(); b.to_multiset_ensures(); assert forall|z: ZoneT| #[trigger] b.contains(z) <==> a.contains(z) by { assert(a.contains(z) <==> a.to_multiset().count(z) > 0); assert(b.contains(z) <==> b.to_multiset().count(z) > 0); } }
/// z, another zone than the one in hand, has not been copied
pub open spec fn left(f: FreeSpaceMap, rep: Set<(ZoneT, TxgT)>, zid: ZoneT, z: ZoneT) -> bool { z != zid && !rep.contains((z, start_of(f.zv(z)))) }
pub open spec fn extends(a: Seq<Req>, b: Seq<Req>) -> bool { a.len() <= b.len() && forall|k: int| 0 <= k < a.len() ==> #[trigger] b[k] == a[k] }
/// zone z was copied, as far as it is written, before any label was
pub open spec fn copied(f: FreeSpaceMap, a: Seq<Req>, b: Seq<Req>, m: usize, z: ZoneT, j: int) -> bool {
    a.len() <= j <= b.len() && match f.zv(z) {
        ZV::Closed { .. } => a.len() <= j < b.len() && b[j] == Req::Zone(m, z, None),
        ZV::Open { alloc, .. } => alloc == 0 || a.len() <= j < b.len() && b[j] == Req::Zone(m, z, Some(alloc)),
        _ => false }
}
pub open spec fn nolabel(a: Seq<Req>, b: Seq<Req>, j: int) -> bool { forall|k: int| a.len() <= k < j && k < b.len() ==> !(#[trigger] b[k] is Label) }
/// what is taken for copied was copied, and an open zone is taken for copied only when nothing can be written to it meanwhile
pub open spec fn repaired(f: FreeSpaceMap, r0: Set<(ZoneT, TxgT)>, r1: Set<(ZoneT, TxgT)>, a: Seq<Req>, b: Seq<Req>, m: usize, open: bool) -> bool {
    r1 == r0 || exists|z: ZoneT, j: int| #[trigger] copied(f, a, b, m, z, j) && nolabel(a, b, j) && r1 == r0.insert((z, start_of(f.zv(z)))) && (f.zv(z) is Open ==> open)
}
/// a rebuild that begins at label L copies again every zone that has not been copied
pub open spec fn promise(f: FreeSpaceMap, rep: Set<(ZoneT, TxgT)>, s: TxgT, l: TxgT) -> bool {
    forall|z: ZoneT| #![trigger f.zv(z)] wanted(f.zv(z), s) && !rep.contains((z, start_of(f.zv(z)))) ==> wanted(f.zv(z), l)
}
pub open spec fn allowed(f: FreeSpaceMap, rep: Set<(ZoneT, TxgT)>, s: TxgT, m: usize, r: Req) -> bool {
    match r { Req::Zone(x, _, _) => x == m, Req::Sync(_) => true, Req::Label(_, x, l) => x == m && l.0 > s.0 && promise(f, rep, s, l), Req::Restore(_) => false }
}
/// everything that may have been written since s has been copied
pub open spec fn finished(f: FreeSpaceMap, rep: Set<(ZoneT, TxgT)>, s: TxgT, open: bool) -> bool { forall|z: ZoneT| #![trigger f.zv(z)] wanted(f.zv(z), s) && (open || !(f.zv(z) is Open)) ==> rep.contains((z, start_of(f.zv(z)))) }
proof fn lemma_rising(o: Seq<ZoneT>, n: Seq<ZoneT>, z: ZoneT) requires ascending(o), n == o || n == o.push(z), forall|y: ZoneT| o.contains(y) ==> y < z ensures ascending(n)
{ assert forall|i: int, j: int| 0 <= i < j < n.len() implies n[i] < n[j] by { assert(n[i] == o[i]); assert(o.contains(o[i])); } }
pub broadcast proof fn lemma_more(f: FreeSpaceMap, r0: Set<(ZoneT, TxgT)>, r1: Set<(ZoneT, TxgT)>, a: Seq<Req>, b: Seq<Req>, x: Req, m: usize, open: bool) requires repaired(f, r0, r1, a, b, m, open), extends(a, b) ensures #[trigger] repaired(f, r0, r1, a, b.push(x), m, open)
{
    if r1 != r0 {
        let (z, j) = choose|z: ZoneT, j: int| #[trigger] copied(f, a, b, m, z, j) && nolabel(a, b, j) && r1 == r0.insert((z, start_of(f.zv(z)))) && (f.zv(z) is Open ==> open);
        assert(copied(f, a, b.push(x), m, z, j)); assert(nolabel(a, b.push(x), j)) by { assert forall|k: int| a.len() <= k < j && k < b.push(x).len() implies !(#[trigger] b.push(x)[k] is Label) by { assert(k < b.len()); assert(b[k] == b.push(x)[k]); } }
    }
}
