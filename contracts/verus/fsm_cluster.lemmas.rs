// ---- the cluster: its map, its device and its counter
pub open spec fn asum(f: FreeSpaceMap) -> int { sum_of(|z: ZoneT| alloc_of(f.zv(z)), f.total_zones as int) }
pub open spec fn usum(f: FreeSpaceMap) -> int { sum_of(|z: ZoneT| used_of(f.zv(z)), f.total_zones as int) }
pub open spec fn ok(f: FreeSpaceMap, w: World) -> bool {
    &&& f.wf() && w.dev().sane() && f.fits(w.dev()) && f.total_zones == w.dev().nzones() && f.total_zones <= u32::MAX - SPACEMAP_ZONES_PER_LBA
    &&& w@.alloc == asum(f)
    &&& forall|z: ZoneT| w@.wp.dom().contains(z) <==> #[trigger] f.isopen(z)
    &&& forall|z: ZoneT| #[trigger] f.isopen(z) ==> w@.wp[z] == alloc_of(f.zv(z))
}
/// block b of area i holds the map's block b
pub open spec fn stored(w: World, i: int, b: int, v: Seq<ZoneOnDisk>) -> bool { w@.area.dom().contains((i, b)) && w@.area[(i, b)].len() == BYTES_PER_LBA && parse(w@.area[(i, b)]) == Some((digest(b, v), v)) }
/// every block of the map that is not to be written is in area i as it is
pub open spec fn saved(f: FreeSpaceMap, w: World, i: int) -> bool { forall|b: int| 0 <= b < blocks(f.total_zones as int) && !f.dirty@.contains(b) ==> #[trigger] stored(w, i, b, f.img(b)) }
/// what is stored stays in step with what is marked as changed
pub open spec fn still(f: FreeSpaceMap, w: World, g: FreeSpaceMap, v: World) -> bool { g.total_zones == f.total_zones && forall|i: int| #[trigger] saved(f, w, i) ==> saved(g, v, i) }
pub open spec fn closed_zv(v: ZV, txg: TxgT) -> ZV { match v { ZV::Open { total, alloc, freed, t0, .. } => ZV::Closed { total, freed: freed + total - alloc, t0, t1: TxgT((txg.0 + 1) as u32) }, _ => v } }
pub open spec fn closed(f: FreeSpaceMap, g: FreeSpaceMap, s: Seq<ZoneT>, txg: TxgT) -> bool { forall|z: ZoneT| #[trigger] g.zv(z) == (if s.contains(z) { closed_zv(f.zv(z), txg) } else { f.zv(z) }) }
proof fn lemma_sum_tail(h: spec_fn(ZoneT) -> int, m: int, n: int) requires 0 <= m <= n <= u32::MAX, forall|z: ZoneT| m <= z ==> #[trigger] h(z) == 0 ensures sum_of(h, n) == sum_of(h, m) decreases n { if m < n { lemma_sum_tail(h, m, n - 1); assert(h((n - 1) as ZoneT) == 0); } }
proof fn lemma_sum_one(h: spec_fn(ZoneT) -> int, k: spec_fn(ZoneT) -> int, n: int, z: ZoneT) requires 0 <= n <= u32::MAX, forall|y: ZoneT| y != z ==> #[trigger] h(y) == k(y) ensures sum_of(k, n) == sum_of(h, n) + (if z < n { k(z) - h(z) } else { 0 }) decreases n
{ if n > 0 { lemma_sum_one(h, k, n - 1, z); assert((n - 1) as ZoneT != z ==> h((n - 1) as ZoneT) == k((n - 1) as ZoneT)); } }
proof fn lemma_sum_bound(h: spec_fn(ZoneT) -> int, n: int, c: int) requires 0 <= n <= u32::MAX, forall|y: ZoneT| 0 <= #[trigger] h(y) <= c ensures 0 <= sum_of(h, n) <= n * c decreases n
{ if n > 0 { lemma_sum_bound(h, n - 1, c); assert(0 <= h((n - 1) as ZoneT) <= c); assert(n * c == (n - 1) * c + c) by (nonlinear_arith); } }
proof fn lemma_sum_ge(h: spec_fn(ZoneT) -> int, n: int, z: ZoneT) requires 0 <= n <= u32::MAX, z < n, forall|y: ZoneT| 0 <= #[trigger] h(y) ensures h(z) <= sum_of(h, n) decreases n
{ if n > 0 { assert(0 <= h((n - 1) as ZoneT)); if z < n - 1 { lemma_sum_ge(h, n - 1, z); } else { lemma_sum_nonneg(h, n - 1); } } }
proof fn lemma_sum_nonneg(h: spec_fn(ZoneT) -> int, n: int) requires 0 <= n <= u32::MAX, forall|y: ZoneT| 0 <= #[trigger] h(y) ensures 0 <= sum_of(h, n) decreases n { if n > 0 { lemma_sum_nonneg(h, n - 1); assert(0 <= h((n - 1) as ZoneT)); } }
proof fn lemma_asum(f: FreeSpaceMap) requires f.wf() ensures asum(f) == sum_of(|z: ZoneT| alloc_of(f.zv(z)), f.n()) { lemma_sum_tail(|z: ZoneT| alloc_of(f.zv(z)), f.n(), f.total_zones as int); }
proof fn lemma_usum(f: FreeSpaceMap) requires f.wf() ensures usum(f) == sum_of(|z: ZoneT| used_of(f.zv(z)), f.n()) { lemma_sum_tail(|z: ZoneT| used_of(f.zv(z)), f.n(), f.total_zones as int); }
proof fn lemma_zvsizes(f: FreeSpaceMap, z: ZoneT) requires f.wf() ensures 0 <= used_of(f.zv(z)) <= alloc_of(f.zv(z)) <= u32::MAX, z >= f.n() ==> f.zv(z) is Empty { lemma_zvopen(f, z); }
/// one zone changed: the total allocated changes by as much as that zone's, and stays within 64 bits
proof fn lemma_delta(a: FreeSpaceMap, b: FreeSpaceMap, z: ZoneT) requires a.wf(), only(a, b, z), z < a.total_zones
    ensures asum(b) == asum(a) + alloc_of(b.zv(z)) - alloc_of(a.zv(z)), usum(b) == usum(a) + used_of(b.zv(z)) - used_of(a.zv(z)), 0 <= asum(b) <= u64::MAX, alloc_of(a.zv(z)) <= asum(a)
{
    let h = |y: ZoneT| alloc_of(a.zv(y)); let k = |y: ZoneT| alloc_of(b.zv(y)); let n = a.total_zones as int;
    assert forall|y: ZoneT| y != z implies #[trigger] h(y) == k(y) by { assert(b.zv(y) == a.zv(y)); }
    lemma_sum_one(h, k, n, z);
    assert forall|y: ZoneT| 0 <= #[trigger] k(y) <= u32::MAX by { lemma_zvsizes(b, y); }
    assert forall|y: ZoneT| 0 <= #[trigger] h(y) by { lemma_zvsizes(a, y); }
    lemma_sum_bound(k, n, u32::MAX as int); lemma_sum_ge(h, n, z);
    assert(n * u32::MAX <= u64::MAX) by (nonlinear_arith) requires 0 <= n <= u32::MAX;
    let h2 = |y: ZoneT| used_of(a.zv(y)); let k2 = |y: ZoneT| used_of(b.zv(y));
    assert forall|y: ZoneT| y != z implies #[trigger] h2(y) == k2(y) by { assert(b.zv(y) == a.zv(y)); }
    lemma_sum_one(h2, k2, n, z);
}
/// the blocks of every zone that changed are marked
pub open spec fn marked(a: FreeSpaceMap, b: FreeSpaceMap) -> bool { b.total_zones == a.total_zones && (forall|z: ZoneT| z < a.total_zones && #[trigger] b.zv(z) != a.zv(z) ==> b.dirty@.contains(blk(z))) && forall|i: int| #[trigger] a.dirty@.contains(i) ==> b.dirty@.contains(i) }
proof fn lemma_still(a: FreeSpaceMap, b: FreeSpaceMap, w: World, v: World) requires marked(a, b), v@.area == w@.area ensures still(a, w, b, v)
{
    assert forall|i: int| #[trigger] saved(a, w, i) implies saved(b, v, i) by {
        assert forall|c: int| 0 <= c < blocks(b.total_zones as int) && !b.dirty@.contains(c) implies #[trigger] stored(v, i, c, b.img(c)) by {
            assert(!a.dirty@.contains(c)); assert(stored(w, i, c, a.img(c))); lemma_cnt(a.total_zones as int, c);
            assert(a.img(c) =~= b.img(c)) by { assert forall|j: int| 0 <= j < a.img(c).len() implies a.img(c)[j] == b.img(c)[j] by { let y = (c * zpl() + j) as ZoneT; assert((c * 255 + j) / 255 == c) by (nonlinear_arith) requires 0 <= j < 255, c >= 0; assert(blk(y) == c); assert(b.zv(y) == a.zv(y)); } }
        }
    }
}
proof fn lemma_still_trans(a: FreeSpaceMap, w: World, b: FreeSpaceMap, v: World, c: FreeSpaceMap, u: World) requires still(a, w, b, v), still(b, v, c, u) ensures still(a, w, c, u) { assert forall|i: int| #[trigger] saved(a, w, i) implies saved(c, u, i) by { assert(saved(b, v, i)); } }
/// one zone changed, and the counter and the device with it
proof fn lemma_okay(a: FreeSpaceMap, w: World, b: FreeSpaceMap, v: World, z: ZoneT)
    requires ok(a, w), only(a, b, z), z < a.total_zones, v.dev() == w.dev(), v@.alloc == w@.alloc + alloc_of(b.zv(z)) - alloc_of(a.zv(z)), v@.area == w@.area,
        b.zv(z) matches ZV::Open { start, total, alloc, .. } ==> (a.isopen(z) || forall|y: ZoneT| !#[trigger] a.isopen(y)) && start == w.dev().lim(z).0 && total == w.dev().lim(z).1 - start && 0 < alloc && v@.wp =~= w@.wp.insert(z, alloc),
        b.zv(z) matches ZV::Closed { total, .. } ==> total == w.dev().lim(z).1 - w.dev().lim(z).0, !(b.zv(z) is Open) ==> v@.wp =~= w@.wp.remove(z)
    ensures ok(b, v), still(a, w, b, v)
{
    lemma_delta(a, b, z); lemma_still(a, b, w, v); lemma_zvopen(b, z); lemma_zvopen(a, z);
    assert forall|y: ZoneT| y != z implies #[trigger] b.isopen(y) == a.isopen(y) by { lemma_zvopen(a, y); lemma_zvopen(b, y); assert(b.zv(y) == a.zv(y)); }
    assert forall|y: ZoneT| #![trigger b.zv(y)] match b.zv(y) { ZV::Open { start, total, alloc, .. } => start == v.dev().lim(y).0 && total == v.dev().lim(y).1 - v.dev().lim(y).0 && 0 < alloc < u32::MAX, ZV::Closed { total, .. } => total == v.dev().lim(y).1 - v.dev().lim(y).0, _ => true } by { if y != z { assert(b.zv(y) == a.zv(y)); } }
    assert forall|y: ZoneT| v@.wp.dom().contains(y) <==> #[trigger] b.isopen(y) by { if y != z { assert(b.isopen(y) == a.isopen(y)); } }
    assert forall|y: ZoneT| #[trigger] b.isopen(y) implies v@.wp[y] == alloc_of(b.zv(y)) by { if y != z { assert(b.isopen(y) == a.isopen(y)); assert(b.zv(y) == a.zv(y)); } }
    assert forall|x: ZoneT, y: ZoneT| #[trigger] b.isopen(x) && #[trigger] b.isopen(y) implies x == y by { if x != z { assert(a.isopen(x)); } if y != z { assert(a.isopen(y)); } }
}

proof fn lemma_asum_bound(f: FreeSpaceMap) requires f.wf() ensures 0 <= asum(f) <= u64::MAX
{
    let h = |z: ZoneT| alloc_of(f.zv(z)); let n = f.total_zones as int;
    assert forall|y: ZoneT| 0 <= #[trigger] h(y) <= u32::MAX by { lemma_zvsizes(f, y); }
    lemma_sum_bound(h, n, u32::MAX as int); assert(n * u32::MAX <= u64::MAX) by (nonlinear_arith) requires 0 <= n <= u32::MAX;
}
proof fn lemma_asum_nonneg(f: FreeSpaceMap) requires f.wf() ensures 0 <= asum(f) { let h = |z: ZoneT| alloc_of(f.zv(z)); assert forall|y: ZoneT| 0 <= #[trigger] h(y) by { lemma_zvsizes(f, y); } lemma_sum_nonneg(h, f.total_zones as int); }
proof fn lemma_close_start(f: FreeSpaceMap, g: FreeSpaceMap, s: Seq<ZoneT>, i: int, txg: TxgT) requires f.wf(), g.wf(), ascending(s), 0 <= i < s.len(), closed(f, g, s.take(i), txg), forall|z: ZoneT| #[trigger] s.contains(z) ==> f.isopen(z)
    ensures g.zv(s[i]) == f.zv(s[i]), g.zv(s[i]) is Open, s[i] < g.n()
{ lemma_done(s, i, s[i]); assert(s.contains(s[i])); lemma_zvopen(f, s[i]); lemma_zvopen(g, s[i]); assert(g.zv(s[i]) == f.zv(s[i])); }
proof fn lemma_close_step(f: FreeSpaceMap, g: FreeSpaceMap, h: FreeSpaceMap, s: Seq<ZoneT>, i: int, txg: TxgT) requires ascending(s), 0 <= i < s.len(), closed(f, g, s.take(i), txg), only(g, h, s[i]), h.zv(s[i]) == closed_zv(f.zv(s[i]), txg) ensures closed(f, h, s.take(i + 1), txg)
{ assert forall|z: ZoneT| #[trigger] h.zv(z) == (if s.take(i + 1).contains(z) { closed_zv(f.zv(z), txg) } else { f.zv(z) }) by { lemma_done(s, i, z); if z != s[i] { assert(h.zv(z) == g.zv(z)); } } }

pub open spec fn inzone(w: World, z: ZoneT, lba: int) -> bool { z < w.dev().nzones() && w.dev().lim(z).0 <= lba < w.dev().lim(z).1 }
pub open spec fn freeable(f: FreeSpaceMap, w: World, z: ZoneT, lba: int, len: int) -> bool { inzone(w, z, lba) && (f.zv(z) is Open || f.zv(z) is Closed) && len <= used_of(f.zv(z)) }
/// the zone after some of it was freed: once all of a closed zone is, it is dead
pub open spec fn freed_zv(v: ZV, n: int) -> ZV { match v { ZV::Open { start, total, alloc, freed, t0 } => ZV::Open { start, total, alloc, freed: freed + n, t0 }, ZV::Closed { total, freed, t0, t1 } => if freed + n == total { ZV::Dead } else { ZV::Closed { total, freed: freed + n, t0, t1 } }, _ => v } }
pub open spec fn freed(f: FreeSpaceMap, g: FreeSpaceMap, z: ZoneT, n: int) -> bool { g.zv(z) == freed_zv(f.zv(z), n) && forall|y: ZoneT| y != z ==> #[trigger] g.zv(y) == f.zv(y) }
proof fn lemma_inzone(w: World, y: ZoneT, z: ZoneT, lba: int) requires w.dev().sane(), inzone(w, y, lba), inzone(w, z, lba) ensures y == z { if y < z { assert(w.dev().lim(y).1 <= w.dev().lim(z).0); } else if z < y { assert(w.dev().lim(z).1 <= w.dev().lim(y).0); } }
proof fn lemma_freed(f: FreeSpaceMap, w: World, g: FreeSpaceMap, h: FreeSpaceMap, v: World, z: ZoneT, lba: int, len: int)
    requires ok(f, w), freeable(f, w, z, lba, len), forall|y: ZoneT| y != z ==> #[trigger] g.zv(y) == f.zv(y), forall|y: ZoneT| y != z ==> #[trigger] h.zv(y) == g.zv(y), h.zv(z) == freed_zv(f.zv(z), len)
    ensures forall|y: ZoneT| #[trigger] freeable(f, w, y, lba, len) ==> freed(f, h, y, len)
{
    assert forall|y: ZoneT| #[trigger] freeable(f, w, y, lba, len) implies freed(f, h, y, len) by { lemma_inzone(w, y, z, lba); assert forall|x: ZoneT| x != z implies #[trigger] h.zv(x) == f.zv(x) by { assert(h.zv(x) == g.zv(x)); assert(g.zv(x) == f.zv(x)); } }
}
proof fn lemma_sum_eq(h: spec_fn(ZoneT) -> int, k: spec_fn(ZoneT) -> int, n: int) requires 0 <= n <= u32::MAX, forall|y: ZoneT| #[trigger] h(y) == k(y) ensures sum_of(k, n) == sum_of(h, n) decreases n { if n > 0 { lemma_sum_eq(h, k, n - 1); assert(h((n - 1) as ZoneT) == k((n - 1) as ZoneT)); } }
proof fn lemma_reap_okay(a: FreeSpaceMap, w: World, b: FreeSpaceMap, v: World)
    requires ok(a, w), b.wf(), b.total_zones == a.total_zones, v.dev() == w.dev(), v@.alloc == w@.alloc, v@.wp == w@.wp, v@.area == w@.area, forall|z: ZoneT| #[trigger] b.zv(z) == (if a.zv(z) is Dead { ZV::Empty } else { a.zv(z) }),
        forall|z: ZoneT| #[trigger] a.zv(z) is Dead ==> b.dirty@.contains(blk(z)), forall|i: int| #[trigger] a.dirty@.contains(i) ==> b.dirty@.contains(i)
    ensures ok(b, v), still(a, w, b, v)
{
    let h = |z: ZoneT| alloc_of(a.zv(z)); let k = |z: ZoneT| alloc_of(b.zv(z));
    assert forall|y: ZoneT| #[trigger] h(y) == k(y) by { assert(b.zv(y) == (if a.zv(y) is Dead { ZV::Empty } else { a.zv(y) })); }
    lemma_sum_eq(h, k, a.total_zones as int); lemma_still(a, b, w, v);
    assert forall|y: ZoneT| #[trigger] b.isopen(y) == a.isopen(y) by { lemma_zvopen(a, y); lemma_zvopen(b, y); assert(b.zv(y) == (if a.zv(y) is Dead { ZV::Empty } else { a.zv(y) })); }
    assert forall|y: ZoneT| #[trigger] b.isopen(y) implies v@.wp[y] == alloc_of(b.zv(y)) by { assert(b.isopen(y) == a.isopen(y)); assert(h(y) == k(y)); }
}
/// where a write of n blocks went
pub open spec fn wrote(f: FreeSpaceMap, g: FreeSpaceMap, d: RaidImpl, z: ZoneT, lba: int, n: int, txg: TxgT) -> bool {
    &&& z < f.total_zones && lba == d.lim(z).0 + alloc_of(f.zv(z)) && lba + n <= d.lim(z).1
    &&& match f.zv(z) { ZV::Open { start, total, alloc, freed, t0 } => g.zv(z) == (ZV::Open { start, total, alloc: alloc + n, freed, t0 }), ZV::Empty => g.zv(z) == (ZV::Open { start: d.lim(z).0, total: d.lim(z).1 - d.lim(z).0, alloc: n, freed: 0, t0: txg }), _ => false }
    &&& forall|y: ZoneT| y != z ==> #[trigger] g.zv(y) == f.zv(y) || f.isopen(y) && g.zv(y) == closed_zv(f.zv(y), txg)
}
proof fn lemma_one_open(f: FreeSpaceMap, d: RaidImpl, a: Option<(ZoneT, LbaT)>, s: Seq<ZoneT>, space: int)
    requires f.wf(), f.fits(d), a matches Some(p) ==> f.zv(p.0) is Open && avail_of(f.zv(p.0)) >= space, forall|z: ZoneT| #[trigger] s.contains(z) ==> f.isopen(z) && avail_of(f.zv(z)) < space
    ensures a is Some ==> s.len() == 0
{ if a is Some && s.len() > 0 { lemma_zvopen(f, (a->0).0); assert(s.contains(s[0])); assert(f.isopen(s[0])); } }
/// the device's write pointers without those of the zones in s
pub open spec fn shut(a: Map<ZoneT, int>, b: Map<ZoneT, int>, s: Seq<ZoneT>) -> bool { (forall|z: ZoneT| #[trigger] b.dom().contains(z) <==> a.dom().contains(z) && !s.contains(z)) && forall|z: ZoneT| #[trigger] b.dom().contains(z) ==> b[z] == a[z] }
proof fn lemma_shut(a: Map<ZoneT, int>, b: Map<ZoneT, int>, c: Map<ZoneT, int>, s: Seq<ZoneT>, i: int) requires ascending(s), 0 <= i < s.len(), shut(a, b, s.take(i)), c == b.remove(s[i]) ensures shut(a, c, s.take(i + 1))
{ assert forall|z: ZoneT| #[trigger] c.dom().contains(z) <==> a.dom().contains(z) && !s.take(i + 1).contains(z) by { lemma_done(s, i, z); assert(c.dom().contains(z) <==> b.dom().contains(z) && z != s[i]); } assert forall|z: ZoneT| #[trigger] c.dom().contains(z) implies c[z] == a[z] by { assert(b.dom().contains(z)); } }
proof fn lemma_marked(a: FreeSpaceMap, b: FreeSpaceMap, c: FreeSpaceMap, z: ZoneT) requires marked(a, b), only(b, c, z) ensures marked(a, c)
{ assert forall|y: ZoneT| y < a.total_zones && #[trigger] c.zv(y) != a.zv(y) implies c.dirty@.contains(blk(y)) by { if y != z { assert(c.zv(y) == b.zv(y)); } } }
/// nothing changed but that blocks of the map may be marked
proof fn lemma_same(f: FreeSpaceMap, w: World, g: FreeSpaceMap, v: World) requires ok(f, w), v.dev() == w.dev(), v@ == w@, g.wf(), g.total_zones == f.total_zones, forall|z: ZoneT| #[trigger] g.zv(z) == f.zv(z), forall|i: int| #[trigger] f.dirty@.contains(i) ==> g.dirty@.contains(i)
    ensures ok(g, v), still(f, w, g, v)
{
    lemma_asum_eq(f, g); lemma_still(f, g, w, v);
    assert forall|z: ZoneT| g.isopen(z) == #[trigger] f.isopen(z) && f.zv(z) == g.zv(z) by { lemma_zvopen(f, z); lemma_zvopen(g, z); assert(g.zv(z) == f.zv(z)); }
    assert forall|z: ZoneT| v@.wp.dom().contains(z) <==> #[trigger] g.isopen(z) by { assert(g.isopen(z) == f.isopen(z)); }
    assert forall|z: ZoneT| #[trigger] g.isopen(z) implies v@.wp[z] == alloc_of(g.zv(z)) by { assert(f.isopen(z)); }
    assert forall|a: ZoneT, b: ZoneT| #[trigger] g.isopen(a) && #[trigger] g.isopen(b) implies a == b by { assert(f.isopen(a) && f.isopen(b)); }
    assert forall|z: ZoneT| #![trigger g.zv(z)] match g.zv(z) { ZV::Open { start, total, alloc, .. } => start == v.dev().lim(z).0 && total == v.dev().lim(z).1 - v.dev().lim(z).0 && 0 < alloc < u32::MAX, ZV::Closed { total, .. } => total == v.dev().lim(z).1 - v.dev().lim(z).0, _ => true } by { assert(g.zv(z) == f.zv(z)); }
}
proof fn lemma_asum_eq(f: FreeSpaceMap, g: FreeSpaceMap) requires g.total_zones == f.total_zones, forall|z: ZoneT| #[trigger] g.zv(z) == f.zv(z) ensures asum(g) == asum(f)
{
    let h = |z: ZoneT| alloc_of(f.zv(z)); let k = |z: ZoneT| alloc_of(g.zv(z));
    assert forall|y: ZoneT| #[trigger] h(y) == k(y) by { assert(g.zv(y) == f.zv(y)); }
    lemma_sum_eq(h, k, f.total_zones as int);
}
/// the blocks were handed out in zone z (the map is g now), then the zones in s, which are all those with too little room, were closed (h)
proof fn lemma_closed_all(f: FreeSpaceMap, g: FreeSpaceMap, h: FreeSpaceMap, w: World, u: World, v: World, a: Option<(ZoneT, LbaT)>, s: Seq<ZoneT>, z: ZoneT, n: int, txg: TxgT)
    requires ok(f, w), only(f, g, z), h.wf(), h.total_zones == f.total_zones, z < f.total_zones, marked(g, h), closed(g, h, s, txg), n > 0, v@.area == w@.area, u.dev() == w.dev(), v.dev() == w.dev(), v@.alloc == w@.alloc + n + asum(h) - asum(g),
        a is Some ==> s.len() == 0, a is None ==> forall|y: ZoneT| #[trigger] f.isopen(y) ==> s.contains(y), forall|y: ZoneT| #[trigger] s.contains(y) ==> f.isopen(y),
        a is None ==> f.zv(z) is Empty && n <= w.dev().lim(z).1 - w.dev().lim(z).0 && g.zv(z) == (ZV::Open { start: w.dev().lim(z).0, total: w.dev().lim(z).1 - w.dev().lim(z).0, alloc: n, freed: 0, t0: txg }) && u@.wp == w@.wp.insert(z, 0),
        a is Some ==> (f.zv(z) matches ZV::Open { start, total, alloc, freed, t0 } && alloc + n <= total && g.zv(z) == (ZV::Open { start, total, alloc: alloc + n, freed, t0 })) && u@.wp == w@.wp,
        handed(u@.wp, v@.wp, s, z, n),
    ensures ok(h, v), still(f, w, h, v), wrote(f, h, w.dev(), z, w.dev().lim(z).0 + alloc_of(f.zv(z)), n, txg)
{
    let d = w.dev();
    lemma_delta(f, g, z); lemma_zvopen(f, z); lemma_zvopen(g, z); lemma_zvopen(h, z);
    assert(marked(f, h)) by { assert forall|y: ZoneT| y < f.total_zones && #[trigger] h.zv(y) != f.zv(y) implies h.dirty@.contains(blk(y)) by { if g.zv(y) != f.zv(y) { assert(g.dirty@.contains(blk(y))); } } }
    lemma_still(f, h, w, v);
    assert(s.contains(z) ==> false) by { if s.contains(z) { assert(f.isopen(z)); } }
    assert(h.zv(z) == g.zv(z));
    assert forall|y: ZoneT| y != z implies (#[trigger] h.zv(y) == f.zv(y) || f.isopen(y) && h.zv(y) == closed_zv(f.zv(y), txg)) && !h.isopen(y) by {
        assert(g.zv(y) == f.zv(y)); lemma_zvopen(f, y); lemma_zvopen(h, y); lemma_zvopen(g, y);
        if s.contains(y) { assert(f.isopen(y)); assert(h.zv(y) == closed_zv(g.zv(y), txg)); } else { assert(h.zv(y) == g.zv(y)); if f.isopen(y) { assert(a is Some); assert(f.isopen(z)); } }
    }
    assert(h.isopen(z));
    let m = choose|m: Map<ZoneT, int>| #[trigger] shut(u@.wp, m, s) && m.dom().contains(z) && v@.wp == m.insert(z, m[z] + n);
    assert forall|y: ZoneT| v@.wp.dom().contains(y) <==> #[trigger] h.isopen(y) by { if y != z { let t = h.zv(y); assert(!h.isopen(y)); assert(m.dom().contains(y) <==> u@.wp.dom().contains(y) && !s.contains(y)); assert(w@.wp.dom().contains(y) <==> f.isopen(y)); if f.isopen(y) && a is Some { assert(f.isopen(z)); } } }
    assert forall|y: ZoneT| #[trigger] h.isopen(y) implies v@.wp[y] == alloc_of(h.zv(y)) by { if y != z { let t = h.zv(y); } else if a is Some { assert(f.isopen(z)); assert(m[z] == u@.wp[z]); } else { assert(m[z] == 0); } }
    assert forall|x: ZoneT, y: ZoneT| #[trigger] h.isopen(x) && #[trigger] h.isopen(y) implies x == y by { let t = h.zv(x); let t2 = h.zv(y); }
    assert forall|y: ZoneT| #![trigger h.zv(y)] match h.zv(y) { ZV::Open { start, total, alloc, .. } => start == d.lim(y).0 && total == d.lim(y).1 - d.lim(y).0 && 0 < alloc < u32::MAX, ZV::Closed { total, .. } => total == d.lim(y).1 - d.lim(y).0, _ => true } by { assert(f.zv(y) == f.zv(y)); assert(f.zv(z) == f.zv(z)); }
}
/// the write pointers after the zones in s were closed and n blocks were written to zone z
pub open spec fn handed(a: Map<ZoneT, int>, b: Map<ZoneT, int>, s: Seq<ZoneT>, z: ZoneT, n: int) -> bool { exists|m: Map<ZoneT, int>| #[trigger] shut(a, m, s) && m.dom().contains(z) && b == m.insert(z, m[z] + n) }
/// a zone was filled up to a stripe boundary, with blocks that are free at once
pub open spec fn wasted(u: ZV, v: ZV) -> bool { match (u, v) { (ZV::Open { start, total, alloc, freed, t0 }, ZV::Open { start: s2, total: tot2, alloc: a2, freed: f2, t0: t2 }) => start == s2 && total == tot2 && t0 == t2 && alloc <= a2 <= total && f2 - freed == a2 - alloc, _ => u == v } }
/// what block b of area i holds
pub open spec fn at(w: World, i: int, b: int) -> Option<Seq<u8>> { if w@.area.dom().contains((i, b)) { Some(w@.area[(i, b)]) } else { None } }
pub open spec fn among(s: Seq<(LbaT, DivBufShared)>, b: int) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == b }
pub open spec fn untouched(u: World, v: World, idx: int, s: Seq<(LbaT, DivBufShared)>) -> bool { forall|i: int, b: int| i != idx || !among(s, b) ==> #[trigger] at(v, i, b) == at(u, i, b) }
proof fn lemma_cat(s: Seq<DivBuf>) ensures s.len() == 1 ==> cat(s) == s[0]@ + Seq::<u8>::empty(), s.len() == 2 ==> cat(s) == s[0]@ + s[1]@
{
    reveal_with_fuel(cat, 3);
    if s.len() == 1 { assert(s.drop_last() =~= Seq::empty()); assert(cat(s) =~= s[0]@ + Seq::<u8>::empty()); }
    if s.len() == 2 { assert(s.drop_last().len() == 1 && s.drop_last()[0] == s[0]); assert(s.drop_last().drop_last().len() == 0); assert(cat(s) =~= s[0]@ + s[1]@); }
}
proof fn lemma_area_step(u: World, p: World, v: World, idx: int, s: Seq<(LbaT, DivBufShared)>, k: int, f: FreeSpaceMap)
    requires 0 <= k < s.len(), untouched(u, p, idx, s), v@.area == p@.area.insert((idx, s[k].0 as int), v@.area[(idx, s[k].0 as int)]), stored(v, idx, s[k].0 as int, f.img(s[k].0 as int)),
        forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0, forall|j: int| 0 <= j < k ==> stored(p, idx, #[trigger] s[j].0 as int, f.img(s[j].0 as int))
    ensures untouched(u, v, idx, s), forall|j: int| 0 <= j < k + 1 ==> stored(v, idx, #[trigger] s[j].0 as int, f.img(s[j].0 as int))
{
    assert forall|i: int, b: int| i != idx || !among(s, b) implies #[trigger] at(v, i, b) == at(u, i, b) by { assert(at(p, i, b) == at(u, i, b)); if i == idx { assert(b != s[k].0); } }
    assert forall|j: int| 0 <= j < k + 1 implies stored(v, idx, #[trigger] s[j].0 as int, f.img(s[j].0 as int)) by { if j < k { assert(s[j].0 < s[k].0); } }
}
proof fn lemma_flushed(g: FreeSpaceMap, u: World, v: World, idx: int, s: Seq<(LbaT, DivBufShared)>)
    requires forall|k: int| 0 <= k < s.len() ==> block_out(g, #[trigger] s[k]), forall|k: int| 0 <= k < s.len() ==> stored(v, idx, #[trigger] s[k].0 as int, g.img(s[k].0 as int)), untouched(u, v, idx, s),
        forall|b: int| #[trigger] g.dirty@.contains(b) ==> exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == b
    ensures forall|i: int, b: int| i != idx ==> #[trigger] at(v, i, b) == at(u, i, b), saved(g, u, idx) ==> forall|b: int| 0 <= b < blocks(g.total_zones as int) ==> #[trigger] stored(v, idx, b, g.img(b))
{
    if saved(g, u, idx) {
        assert forall|b: int| 0 <= b < blocks(g.total_zones as int) implies #[trigger] stored(v, idx, b, g.img(b)) by {
            if g.dirty@.contains(b) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == b; assert(stored(v, idx, s[k].0 as int, g.img(s[k].0 as int))); }
            else { assert(!among(s, b)) by { if among(s, b) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == b; assert(block_out(g, s[k])); } } assert(stored(u, idx, b, g.img(b))); assert(at(v, idx, b) == at(u, idx, b)); }
        }
    }
}
/// once the map is stored nothing of it is marked
proof fn lemma_flush_end(g: FreeSpaceMap, u: World, h: FreeSpaceMap, v: World, idx: int)
    requires ok(g, u), v.dev() == u.dev(), v@ == (WS { area: v@.area, ..u@ }), h.zones == g.zones, h.open_zones == g.open_zones, h.empty_zones == g.empty_zones, h.total_zones == g.total_zones, h.dirty.cap() == g.dirty.cap()
    ensures ok(h, v), forall|z: ZoneT| #[trigger] h.zv(z) == g.zv(z), (forall|b: int| 0 <= b < blocks(g.total_zones as int) ==> #[trigger] stored(v, idx, b, g.img(b))) ==> saved(h, v, idx)
{
    alike(g, h);
    let p = |z: ZoneT| alloc_of(g.zv(z)); let q = |z: ZoneT| alloc_of(h.zv(z));
    assert forall|y: ZoneT| #[trigger] p(y) == q(y) by { assert(h.zv(y) == g.zv(y)); }
    lemma_sum_eq(p, q, g.total_zones as int);
    assert forall|z: ZoneT| #[trigger] h.isopen(z) == g.isopen(z) by {}
    assert forall|z: ZoneT| #[trigger] h.isopen(z) implies v@.wp[z] == alloc_of(h.zv(z)) by { assert(g.isopen(z)); assert(p(z) == q(z)); }
    assert forall|b: int| g.img(b) == h.img(b) by { assert(g.img(b) =~= h.img(b)); }
}
