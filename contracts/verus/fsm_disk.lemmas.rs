// ---- the stored space map -------------------------------------------------------------------------------------
pub open spec fn none() -> Range<TxgT> { Range { start: TxgT(0), end: TxgT(0) } }
/// what is stored for a zone
pub open spec fn rec_of(v: ZV) -> ZoneOnDisk {
    match v {
        ZV::Empty => ZoneOnDisk { allocated_blocks: 0, freed_blocks: 0, txgs: Range { start: TxgT(0), end: TxgT(0) } },
        ZV::Dead => ZoneOnDisk { allocated_blocks: 0, freed_blocks: 0, txgs: Range { start: TxgT(0), end: TxgT(1) } },
        ZV::Open { alloc, freed, t0, .. } => ZoneOnDisk { allocated_blocks: alloc as u32, freed_blocks: freed as u32, txgs: Range { start: t0, end: TXG_MAX } },
        ZV::Closed { freed, t0, t1, .. } => ZoneOnDisk { allocated_blocks: u32::MAX, freed_blocks: freed as u32, txgs: Range { start: t0, end: t1 } },
    }
}
/// zones in block b of a map of n zones
pub open spec fn cnt(n: int, b: int) -> int { if (b + 1) * zpl() <= n { zpl() } else { n - b * zpl() } }
impl FreeSpaceMap {
    pub open spec fn img(&self, b: int) -> Seq<ZoneOnDisk> { Seq::new(cnt(self.total_zones as int, b) as nat, |j: int| rec_of(self.zv((b * zpl() + j) as ZoneT))) }
}
#[verifier::ext_equal]
pub enum Hashed { Word(u64), Zones(Seq<ZoneOnDisk>) }
/// MetroHash64 of what was written to it
pub uninterp spec fn metro(s: Seq<Hashed>) -> u64;
/// the checksum covers the block's index and its records
pub open spec fn digest(b: int, v: Seq<ZoneOnDisk>) -> u64 { metro(seq![Hashed::Word(b as u64), Hashed::Zones(v)]) }
/// what speedy reads at the start of some bytes
pub uninterp spec fn parse(b: Seq<u8>) -> Option<(u64, Seq<ZoneOnDisk>)>;
/// block b's bytes carry the checksum of what they contain
pub open spec fn valid(s: Seq<u8>, b: int) -> bool { parse(s) matches Some(p) && p.0 == digest(b, p.1) }
/// the bytes s, with any padding, are block b of the map
pub open spec fn stores(s: Seq<u8>, b: int, v: Seq<ZoneOnDisk>) -> bool { s.len() == 12 + 16 * v.len() && forall|pad: Seq<u8>| #[trigger] parse(s + pad) == Some((digest(b, v), v)) }
pub open spec fn block_out(f: FreeSpaceMap, o: (LbaT, DivBufShared)) -> bool { 0 <= o.0 < blocks(f.total_zones as int) && f.dirty@.contains(o.0 as int) && stores(o.1@, o.0 as int, f.img(o.0 as int)) }
proof fn lemma_cnt(n: int, b: int) requires 0 <= b < blocks(n), n >= 0 ensures 0 < cnt(n, b) <= zpl(), b * zpl() + cnt(n, b) <= n, b + 1 < blocks(n) ==> cnt(n, b) == zpl(), b + 1 == blocks(n) ==> b * zpl() + cnt(n, b) == n
{
    assert(b * 255 < n && (b + 1 < (n + 254) / 255 ==> (b + 1) * 255 <= n) && (b + 1 == (n + 254) / 255 ==> (b + 1) * 255 >= n)) by (nonlinear_arith) requires 0 <= b < (n + 254) / 255, n >= 0;
}
impl FreeSpaceMap {
    /// the zones that are in use match the device's zones, and at most one is open
    pub open spec fn fits(&self, d: RaidImpl) -> bool {
        &&& forall|z: ZoneT| #![trigger self.zv(z)] match self.zv(z) { ZV::Open { start, total, alloc, .. } => start == d.lim(z).0 && total == d.lim(z).1 - d.lim(z).0 && 0 < alloc < u32::MAX, ZV::Closed { total, .. } => total == d.lim(z).1 - d.lim(z).0, _ => true }
        &&& forall|a: ZoneT, b: ZoneT| #[trigger] self.isopen(a) && #[trigger] self.isopen(b) ==> a == b
    }
    pub open spec fn as_far(&self, g: FreeSpaceMap, k: int) -> bool {
        &&& self.wf() && self.total_zones == g.total_zones
        &&& forall|z: ZoneT| #[trigger] self.zv(z) == (if z < k { g.zv(z) } else { ZV::Empty })
    }
}
pub open spec fn chunk(s: Seq<u8>, i: int) -> Seq<u8> { s.subrange(i * BYTES_PER_LBA, (i + 1) * BYTES_PER_LBA) }
/// what is on the disk is the map g, or is seen not to be
pub open spec fn holds(s: Seq<u8>, g: FreeSpaceMap) -> bool {
    &&& s.len() == blocks(g.total_zones as int) * BYTES_PER_LBA
    &&& forall|i: int| 0 <= i < blocks(g.total_zones as int) && valid(#[trigger] chunk(s, i), i) ==> (parse(chunk(s, i))->0).1 == g.img(i)
}
proof fn lemma_zvopen(f: FreeSpaceMap, z: ZoneT) requires f.wf() ensures f.zv(z) is Open <==> f.isopen(z), z < f.n() ==> f.zone_ok(z), f.listed(z) ==> z < f.n(), f.isopen(z) ==> z < f.n()
{ if f.isopen(z) { assert(z < f.n()); assert(f.zone_ok(z)); } if z < f.n() { assert(f.zone_ok(z)); } }
// ---- loading
/// chunks 0..i are good, so the map so far is g up to zone k
pub open spec fn load_inv(f: FreeSpaceMap, g: FreeSpaceMap, d: RaidImpl, s: Seq<u8>, i: int, k: int) -> bool {
    &&& f.as_far(g, k) && 0 <= i <= blocks(g.total_zones as int) && k == (if i == blocks(g.total_zones as int) { g.total_zones as int } else { i * zpl() })
    &&& forall|j: int| 0 <= j < i ==> valid(#[trigger] chunk(s, j), j)
}
proof fn lemma_chunks(s: Seq<u8>, n: int, v: Seq<DivBuf>) requires s.len() == n * BYTES_PER_LBA, v.len() * BYTES_PER_LBA == s.len(), n >= 0, forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == s.subrange(i * BYTES_PER_LBA, (i + 1) * BYTES_PER_LBA)
    ensures v.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] v[i])@ == chunk(s, i) {}
proof fn lemma_load_start(f: FreeSpaceMap, g: FreeSpaceMap, d: RaidImpl, s: Seq<u8>) requires f.wf(), f.total_zones == g.total_zones, forall|z: ZoneT| #[trigger] f.zv(z) is Empty
    ensures load_inv(f, g, d, s, 0, 0)
{
    lemma_blocks_zero(g.total_zones as int);
    assert forall|z: ZoneT| #[trigger] f.zv(z) == (if z < 0 { g.zv(z) } else { ZV::Empty }) by { assert(f.zv(z) is Empty); }
    assert(f.as_far(g, 0)); assert(0 * zpl() == 0);
}
proof fn lemma_blocks_zero(n: int) requires n >= 0 ensures blocks(n) >= 0, blocks(n) == 0 ==> n == 0
{
    let x = n + zpl() - 1; let q = x / zpl(); let r = x % zpl();
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, zpl()); vstd::arithmetic::div_mod::lemma_mod_bound(x, zpl());
    assert(q == 0 ==> zpl() * q == 0) by (nonlinear_arith); assert(q <= -1 ==> zpl() * q <= -zpl()) by (nonlinear_arith) requires zpl() > 0;
}
/// the zone about to be restored is empty and no zone is open unless it is open in g
proof fn lemma_load_zone(f: FreeSpaceMap, g: FreeSpaceMap, d: RaidImpl, k: int, z: ZoneT) requires f.as_far(g, k), g.wf(), g.fits(d), d.sane(), k == z, z < g.total_zones
    ensures f.zv(z) is Empty, g.zv(z) is Open ==> forall|y: ZoneT| !#[trigger] f.isopen(y), 0 <= d.lim(z).0 <= d.lim(z).1,
        rec_of(g.zv(z)).txgs.start.0 <= TXG_MAX.0, rec_of(g.zv(z)).txgs.end.0 <= u32::MAX
{
    lemma_zvopen(g, z);
    assert(f.zv(z) == ZV::Empty);
    assert forall|y: ZoneT| g.zv(z) is Open implies !#[trigger] f.isopen(y) by { lemma_zvopen(f, y); lemma_zvopen(g, y); if f.isopen(y) { assert(f.zv(y) is Open); assert(y < k); assert(f.zv(y) == g.zv(y)); assert(g.isopen(y) && g.isopen(z)); } }
}
/// one zone restored
proof fn lemma_restored(f: FreeSpaceMap, h: FreeSpaceMap, g: FreeSpaceMap, k: int, z: ZoneT) requires f.as_far(g, k), k == z, h.wf(), h.total_zones == f.total_zones, forall|y: ZoneT| y != z ==> #[trigger] h.zv(y) == f.zv(y), h.zv(z) == g.zv(z)
    ensures h.as_far(g, k + 1)
{ assert forall|y: ZoneT| #[trigger] h.zv(y) == (if y < k + 1 { g.zv(y) } else { ZV::Empty }) by { if y != z { assert(h.zv(y) == f.zv(y)); } } }

/// setting how much of zone z was freed, and its transactions, touches nothing else
proof fn lemma_rest(p: FreeSpaceMap, m: FreeSpaceMap, h: FreeSpaceMap, z: ZoneT)
    requires m.wf(), h.total_zones == m.total_zones, h.open_zones == m.open_zones, h.empty_zones == m.empty_zones, h.dirty == m.dirty, h.n() == m.n(), forall|i: int| 0 <= i < m.n() && i != z ==> #[trigger] h.zones@[i] == m.zones@[i],
        forall|y: ZoneT| y != z ==> #[trigger] m.zv(y) == p.zv(y), z < h.n() ==> h.zone_ok(z)
    ensures h.wf(), forall|y: ZoneT| y != z ==> #[trigger] h.zv(y) == p.zv(y)
{
    assert forall|y: ZoneT| y < h.n() implies #[trigger] h.zone_ok(y) by { if y != z { assert(m.zone_ok(y)); } }
    assert forall|y: ZoneT| #[trigger] h.listed(y) implies y < h.n() by { assert(m.listed(y)); }
    assert forall|y: ZoneT| #[trigger] h.isopen(y) implies y < h.n() by { assert(m.isopen(y)); }
    assert forall|y: ZoneT| y != z implies #[trigger] h.zv(y) == p.zv(y) by { assert(m.zv(y) == p.zv(y)); }
}
