/// what a zone is, observably
#[verifier::ext_equal]
pub enum ZV { Empty, Dead, Open { start: int, total: int, alloc: int, freed: int, t0: TxgT }, Closed { total: int, freed: int, t0: TxgT, t1: TxgT } }
pub open spec fn alloc_of(v: ZV) -> int { match v { ZV::Open { alloc, .. } => alloc, ZV::Closed { total, .. } => total, _ => 0 } }
pub open spec fn used_of(v: ZV) -> int { match v { ZV::Open { alloc, freed, .. } => alloc - freed, ZV::Closed { total, freed, .. } => total - freed, _ => 0 } }
pub open spec fn avail_of(v: ZV) -> int { match v { ZV::Open { total, alloc, .. } => total - alloc, _ => 0 } }
pub open spec fn zpl() -> int { SPACEMAP_ZONES_PER_LBA as int }
/// the block of the stored space map that holds zone z
pub open spec fn blk(z: ZoneT) -> int { z as int / zpl() }
pub open spec fn blocks(n: int) -> int { (n + zpl() - 1) / zpl() }
impl FreeSpaceMap {
    pub open spec fn n(&self) -> int { self.zones@.len() as int }
    pub open spec fn isopen(&self, z: ZoneT) -> bool { self.open_zones@.dom().contains(z) }
    pub open spec fn listed(&self, z: ZoneT) -> bool { self.empty_zones@.contains(z) }
    pub open spec fn zv(&self, z: ZoneT) -> ZV {
        if z >= self.n() { ZV::Empty }
        else { let d = self.zones@[z as int];
            if self.listed(z) { if d.txgs.end.0 == 0 { ZV::Empty } else { ZV::Dead } }
            else if self.isopen(z) { ZV::Open { start: self.open_zones@[z].start as int, total: d.total_blocks as int, alloc: self.open_zones@[z].allocated_blocks as int, freed: d.freed_blocks as int, t0: d.txgs.start } }
            else { ZV::Closed { total: d.total_blocks as int, freed: d.freed_blocks as int, t0: d.txgs.start, t1: d.txgs.end } } }
    }
    pub open spec fn zone_ok(&self, z: ZoneT) -> bool {
        let d = self.zones@[z as int];
        &&& self.listed(z) ==> !self.isopen(z) && (d.txgs.end.0 == 0 || d.txgs.start.0 == 0 && d.txgs.end.0 == 1)
        &&& self.isopen(z) ==> d.freed_blocks <= self.open_zones@[z].allocated_blocks <= d.total_blocks && self.open_zones@[z].start + d.total_blocks <= u64::MAX && d.txgs.start.0 <= TXG_MAX.0 && d.txgs.end == TXG_MAX
        &&& !self.listed(z) && !self.isopen(z) ==> d.freed_blocks <= d.total_blocks && d.txgs.end.0 > 0 && d.txgs.start.0 <= TXG_MAX.0
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.n() <= self.total_zones
        &&& forall|z: ZoneT| #[trigger] self.listed(z) ==> z < self.n()
        &&& forall|z: ZoneT| #[trigger] self.isopen(z) ==> z < self.n()
        &&& forall|z: ZoneT| z < self.n() ==> #[trigger] self.zone_ok(z)
        &&& self.dirty.cap() == blocks(self.total_zones as int)
    }
}
/// only zone z may have changed, and the block that stores it is to be written again
pub open spec fn only(a: FreeSpaceMap, b: FreeSpaceMap, z: ZoneT) -> bool {
    &&& b.wf() && b.total_zones == a.total_zones
    &&& forall|y: ZoneT| y != z ==> #[trigger] b.zv(y) == a.zv(y)
    &&& b.dirty@.contains(blk(z)) && forall|i: int| #[trigger] a.dirty@.contains(i) ==> b.dirty@.contains(i)
}
pub open spec fn sum_of(f: spec_fn(ZoneT) -> int, n: int) -> int decreases n { if n <= 0 { 0 } else { sum_of(f, n - 1) + f((n - 1) as ZoneT) } }
proof fn lemma_blk(z: ZoneT, n: ZoneT) requires z < n ensures 0 <= blk(z) < blocks(n as int)
{ vstd::arithmetic::div_mod::lemma_div_is_ordered((z + zpl()) as int, n + zpl() - 1, zpl()); vstd::arithmetic::div_mod::lemma_div_plus_one(z as int, zpl()); }
fn vp_resize(v: &mut Vec<Zone>, n: usize) requires n >= old(v)@.len()
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < old(v)@.len() ==> final(v)@[i] == old(v)@[i],
        forall|i: int| old(v)@.len() <= i < n ==> (#[trigger] final(v)@[i]).txgs.start == TxgT(0) && final(v)@[i].txgs.end == TxgT(0)
{
    let ghost o = v@;
    while v.len() < n
        invariant o.len() <= v@.len() <= n, forall|i: int| 0 <= i < o.len() ==> v@[i] == o[i],
            forall|i: int| o.len() <= i < v@.len() ==> (#[trigger] v@[i]).txgs.start == TxgT(0) && v@[i].txgs.end == TxgT(0)
        decreases n - v@.len()
    { v.push(Zone::default()); }
}
#[verifier::external_body] fn vp_get_mut(v: &mut Vec<Zone>, i: usize) -> (r: Option<&mut Zone>)
    ensures r is Some <==> i < old(v)@.len(), r is Some ==> *r->0 == old(v)@[i as int] && final(v)@ == old(v)@.update(i as int, *final(r->0)), r is None ==> final(v)@ == old(v)@ { unimplemented!() }
/// zone y is consistent with the sets in b
pub open spec fn fine(b: FreeSpaceMap, y: ZoneT) -> bool { (b.listed(y) ==> y < b.n()) && (b.isopen(y) ==> y < b.n()) && (y < b.n() ==> b.zone_ok(y)) }
pub open spec fn same(a: FreeSpaceMap, b: FreeSpaceMap, y: ZoneT) -> bool { fine(b, y) && b.zv(y) == a.zv(y) }
/// to show that only zone z changed: its own entry is in order and every other entry is as it was
proof fn kept(a: FreeSpaceMap, b: FreeSpaceMap, z: ZoneT)
    requires a.wf(), z < a.total_zones, b.total_zones == a.total_zones, b.n() <= a.total_zones, b.dirty.cap() == a.dirty.cap(), fine(b, z), forall|y: ZoneT| y != z ==> #[trigger] same(a, b, y),
        b.dirty@.contains(blk(z)), forall|i: int| #[trigger] a.dirty@.contains(i) ==> b.dirty@.contains(i)
    ensures only(a, b, z)
{
    assert forall|y: ZoneT| #[trigger] b.listed(y) implies y < b.n() by { assert(y == z || same(a, b, y)); }
    assert forall|y: ZoneT| #[trigger] b.isopen(y) implies y < b.n() by { assert(y == z || same(a, b, y)); }
    assert forall|y: ZoneT| y < b.n() implies #[trigger] b.zone_ok(y) by { assert(y == z || same(a, b, y)); }
    assert forall|y: ZoneT| y != z implies #[trigger] b.zv(y) == a.zv(y) by { assert(same(a, b, y)); }
}
proof fn alike(a: FreeSpaceMap, b: FreeSpaceMap) requires a.wf(), b.zones == a.zones, b.open_zones == a.open_zones, b.empty_zones == a.empty_zones, b.total_zones == a.total_zones, b.dirty.cap() == a.dirty.cap()
    ensures b.wf(), forall|y: ZoneT| #[trigger] b.zv(y) == a.zv(y)
{
    assert forall|y: ZoneT| y < b.n() implies #[trigger] b.zone_ok(y) by { assert(a.zone_ok(y)); }
    assert forall|y: ZoneT| #[trigger] b.listed(y) implies y < b.n() by { assert(a.listed(y)); }
    assert forall|y: ZoneT| #[trigger] b.isopen(y) implies y < b.n() by { assert(a.isopen(y)); }
}
// ---- reap
pub open spec fn done(s: Seq<ZoneT>, i: int, z: ZoneT) -> bool { s.take(i).contains(z) }
pub open spec fn reap_inv(o: FreeSpaceMap, c: FreeSpaceMap, s: Seq<ZoneT>, i: int, r: Seq<ZoneT>) -> bool {
    &&& o.wf() && c.wf() && c.n() == o.n() && c.open_zones == o.open_zones && c.empty_zones == o.empty_zones && c.total_zones == o.total_zones && c.dirty.cap() == o.dirty.cap()
    &&& ascending(s) && forall|z: ZoneT| s.contains(z) <==> #[trigger] o.listed(z)
    &&& forall|z: ZoneT| #[trigger] c.zv(z) == (if o.zv(z) is Dead && done(s, i, z) { ZV::Empty } else { o.zv(z) })
    &&& ascending(r) && forall|z: ZoneT| r.contains(z) <==> (#[trigger] o.zv(z) is Dead && done(s, i, z))
    &&& forall|z: ZoneT| #[trigger] o.zv(z) is Dead && done(s, i, z) ==> c.dirty@.contains(blk(z))
    &&& forall|b: int| #[trigger] o.dirty@.contains(b) ==> c.dirty@.contains(b)
}
proof fn lemma_done(s: Seq<ZoneT>, i: int, z: ZoneT) requires 0 <= i < s.len(), ascending(s) ensures done(s, i + 1, z) <==> (done(s, i, z) || z == s[i]), !done(s, i, s[i]), done(s, i, z) ==> z < s[i]
{
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    if done(s, i, z) { let j = s.take(i).index_of(z); assert(s.take(i)[j] == s[j]); assert(s.take(i + 1)[j] == z); }
    if done(s, i + 1, z) { let j = s.take(i + 1).index_of(z); assert(s.take(i + 1)[j] == z); if j < i { assert(s.take(i)[j] == z); } }
    assert(s.take(i + 1)[i] == s[i]);
    if done(s, i, s[i]) { let j = s.take(i).index_of(s[i]); assert(s.take(i)[j] == s[j]); }
}
proof fn lemma_reap_start(o: FreeSpaceMap, c: FreeSpaceMap, s: Seq<ZoneT>, i: int, r: Seq<ZoneT>) requires 0 <= i < s.len(), reap_inv(o, c, s, i, r)
    ensures c.listed(s[i]), s[i] < c.n(), s[i] < c.total_zones, c.zone_ok(s[i]), blk(s[i]) < c.dirty.cap(), blk(s[i]) >= 0
{ assert(s.contains(s[i])); assert(o.listed(s[i])); assert(c.listed(s[i])); lemma_blk(s[i], c.total_zones); }
proof fn lemma_reap_step(o: FreeSpaceMap, p: FreeSpaceMap, q: FreeSpaceMap, s: Seq<ZoneT>, i: int, r0: Seq<ZoneT>, r1: Seq<ZoneT>)
    requires reap_inv(o, p, s, i, r0), 0 <= i < s.len(), q.n() == p.n(), q.open_zones == p.open_zones, q.empty_zones == p.empty_zones, q.total_zones == p.total_zones, q.dirty.cap() == p.dirty.cap(),
        forall|y: int| 0 <= y < p.n() && y != s[i] ==> q.zones@[y] == p.zones@[y],
        if p.zv(s[i]) is Dead { q.zones@[s[i] as int].txgs.end.0 == 0 && r1 == r0.push(s[i]) && q.dirty@ == p.dirty@.insert(blk(s[i])) } else { q.zones@ == p.zones@ && r1 == r0 && q.dirty@ == p.dirty@ },
    ensures reap_inv(o, q, s, i + 1, r1)
{
    let k = s[i];
    assert(s.contains(k)); assert(o.listed(k)); assert(p.listed(k)); assert(p.zone_ok(k));
    lemma_done(s, i, k);
    assert(p.zv(k) == o.zv(k));
    assert forall|y: ZoneT| y < q.n() implies #[trigger] q.zone_ok(y) by { assert(p.zone_ok(y)); }
    assert forall|z: ZoneT| #[trigger] q.listed(z) implies z < q.n() by { assert(p.listed(z)); }
    assert forall|z: ZoneT| #[trigger] q.isopen(z) implies z < q.n() by { assert(p.isopen(z)); }
    assert forall|z: ZoneT| #[trigger] q.zv(z) == (if o.zv(z) is Dead && done(s, i + 1, z) { ZV::Empty } else { o.zv(z) }) by { lemma_done(s, i, z); assert(p.zv(z) == (if o.zv(z) is Dead && done(s, i, z) { ZV::Empty } else { o.zv(z) })); }
    assert forall|z: ZoneT| r1.contains(z) <==> (#[trigger] o.zv(z) is Dead && done(s, i + 1, z)) by {
        lemma_done(s, i, z); assert(r0.contains(z) <==> (o.zv(z) is Dead && done(s, i, z)));
        if r1 != r0 { if r0.contains(z) { let j = r0.index_of(z); assert(r1[j] == z); } assert(r1[r0.len() as int] == k); if r1.contains(z) { let j = r1.index_of(z); assert(r1[j] == z); if j < r0.len() { assert(r0[j] == z); } } }
    }
    assert forall|a: int, b: int| 0 <= a < b < r1.len() implies r1[a] < r1[b] by {
        if b == r0.len() { let z = r0[a]; assert(r0.contains(z)); assert(o.zv(z) is Dead && done(s, i, z)); lemma_done(s, i, z); }
    }
    assert forall|z: ZoneT| #[trigger] o.zv(z) is Dead && done(s, i + 1, z) implies q.dirty@.contains(blk(z)) by { lemma_done(s, i, z); }
}
proof fn lemma_reaped(o: FreeSpaceMap, c: FreeSpaceMap, s: Seq<ZoneT>, r: Seq<ZoneT>) requires reap_inv(o, c, s, s.len() as int, r)
    ensures forall|z: ZoneT| #[trigger] o.zv(z) is Dead ==> done(s, s.len() as int, z), forall|z: ZoneT| #[trigger] c.zv(z) == (if o.zv(z) is Dead { ZV::Empty } else { o.zv(z) }),
        forall|z: ZoneT| r.contains(z) <==> #[trigger] o.zv(z) is Dead, forall|z: ZoneT| #[trigger] o.zv(z) is Dead ==> c.dirty@.contains(blk(z))
{
    assert(s.take(s.len() as int) =~= s);
    assert forall|z: ZoneT| #[trigger] o.zv(z) is Dead implies done(s, s.len() as int, z) by { assert(o.listed(z)); }
}
/// dropping empty zones at the end changes nothing
proof fn lemma_trimmed(o: FreeSpaceMap, a: FreeSpaceMap, b: FreeSpaceMap)
    requires a.wf(), b.total_zones == a.total_zones, b.dirty == a.dirty, b.open_zones == a.open_zones, b.n() <= a.n(), b.zones@ == a.zones@.take(b.n()),
        forall|z: ZoneT| b.n() <= z ==> #[trigger] a.zv(z) is Empty, forall|z: ZoneT| #[trigger] b.listed(z) <==> (a.listed(z) && z < b.n())
    ensures b.wf(), forall|z: ZoneT| #[trigger] b.zv(z) == a.zv(z)
{
    assert forall|y: ZoneT| y < b.n() implies #[trigger] b.zone_ok(y) by { assert(a.zone_ok(y)); assert(b.listed(y) <==> a.listed(y)); }
    assert forall|z: ZoneT| #[trigger] b.isopen(z) implies z < b.n() by { assert(a.isopen(z)); assert(a.zone_ok(z)); if z >= b.n() { assert(a.zv(z) is Empty); } }
    assert forall|z: ZoneT| #[trigger] b.zv(z) == a.zv(z) by { assert(b.listed(z) <==> (a.listed(z) && z < b.n())); }
}
proof fn lemma_taken(s: Seq<ZoneT>, t: Seq<ZoneT>, c: FreeSpaceMap) requires ascending(s), t.len() <= s.len(), t == s.take(t.len() as int), forall|z: ZoneT| s.contains(z) <==> #[trigger] c.isopen(z)
    ensures ascending(t), forall|z: ZoneT| #[trigger] t.contains(z) ==> c.isopen(z) && exists|j: int| 0 <= j < t.len() && s[j] == z
{
    assert forall|z: ZoneT| #[trigger] t.contains(z) implies c.isopen(z) && exists|j: int| 0 <= j < t.len() && s[j] == z by { let j = t.index_of(z); assert(s[j] == z); assert(s.contains(z)); }
}
