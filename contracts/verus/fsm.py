SOURCE = "bfffs-core/src/cluster.rs"
TYPESRS = "bfffs-core/src/types.rs"
LABEL = "bfffs-core/src/label.rs"
HEADER = """#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, unused_braces)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::set_lib::*;
use core::ops::{Range, RangeFrom};
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
"""
PRELUDE = r"""
fn vp_panic() requires false {}
#[verifier::external_body] fn vp_never<T>() -> T requires false { unimplemented!() }
// ---- assumed contracts: std's ordered set and map, as a set and a map whose keys come in order --------------------
#[verifier::external_body] #[verifier::reject_recursive_types(K)]
pub struct BTreeSet<K> { x: std::marker::PhantomData<K> }
pub open spec fn ascending(s: Seq<ZoneT>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
impl BTreeSet<ZoneT> {
    pub uninterp spec fn view(&self) -> Set<ZoneT>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<ZoneT>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, k: &ZoneT) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: ZoneT) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &ZoneT) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn split_off(&mut self, k: &ZoneT) -> (r: Self)
        ensures forall|z: ZoneT| #[trigger] final(self)@.contains(z) <==> (old(self)@.contains(z) && z < *k), forall|z: ZoneT| #[trigger] r@.contains(z) <==> (old(self)@.contains(z) && z >= *k) { unimplemented!() }
    #[verifier::external_body] pub fn vp_key(&self, k: ZoneT) -> (r: &ZoneT) requires self@.contains(k) ensures *r == k { unimplemented!() }
    /// the elements in iteration order
    #[verifier::external_body] pub fn vp_elems(&self) -> (r: Vec<ZoneT>) ensures ascending(r@), forall|z: ZoneT| r@.contains(z) <==> #[trigger] self@.contains(z) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { x: std::marker::PhantomData<(K, V)> }
impl<V> BTreeMap<ZoneT, V> {
    pub uninterp spec fn view(&self) -> Map<ZoneT, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<ZoneT, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &ZoneT) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &ZoneT) -> (r: Option<&V>)
        ensures r is Some <==> self@.dom().contains(*k), r is Some ==> *r->0 == self@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &ZoneT) -> (r: Option<&mut V>)
        ensures r is Some <==> old(self)@.dom().contains(*k),
            r is Some ==> *r->0 == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->0)),
            r is None ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: ZoneT, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r is Some <==> old(self)@.dom().contains(k), r is Some ==> r->0 == old(self)@[k] { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &ZoneT) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k), r is Some <==> old(self)@.dom().contains(*k), r is Some ==> r->0 == old(self)@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn vp_elems(&self) -> (r: Vec<ZoneT>) ensures ascending(r@), forall|z: ZoneT| r@.contains(z) <==> #[trigger] self@.dom().contains(z) { unimplemented!() }
    #[verifier::external_body] pub fn vp_key(&self, k: ZoneT) -> (r: &ZoneT) requires self@.dom().contains(k) ensures *r == k { unimplemented!() }
    #[verifier::external_body] pub fn vp_at(&self, k: &ZoneT) -> (r: &V) requires self@.dom().contains(*k) ensures *r == self@[*k] { unimplemented!() }
}
// ---- fixedbitset 0.4
#[verifier::external_body] pub struct FixedBitSet { x: u8 }
impl FixedBitSet {
    pub uninterp spec fn view(&self) -> Set<int>;
    pub uninterp spec fn cap(&self) -> int;
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Set::<int>::empty(), r.cap() == n { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, i: usize) requires i < old(self).cap() ensures final(self)@ == old(self)@.insert(i as int), final(self).cap() == old(self).cap() { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Set::<int>::empty(), final(self).cap() == old(self).cap() { unimplemented!() }
    #[verifier::external_body] pub fn vp_insert_all(&mut self) ensures forall|i: int| #[trigger] final(self)@.contains(i) <==> 0 <= i < old(self).cap(), final(self).cap() == old(self).cap() { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, i: usize) -> (r: bool) ensures r == self@.contains(i as int) { unimplemented!() }
    #[verifier::external_body] pub fn vp_ones(&self) -> (r: Vec<usize>)
        ensures forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i] < r@[j], forall|i: int| 0 <= i < r@.len() ==> self@.contains(#[trigger] r@[i] as int) && r@[i] < self.cap(),
            forall|b: int| #[trigger] self@.contains(b) ==> 0 <= b < self.cap() && exists|i: int| 0 <= i < r@.len() && r@[i] == b { unimplemented!() }
}
// ---- transaction numbers: the derived comparisons and the operators of types.rs (T02)
impl PartialOrdSpecImpl for TxgT { open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &TxgT) -> Option<Ordering> { Some(if self.0 < o.0 { Ordering::Less } else if self.0 == o.0 { Ordering::Equal } else { Ordering::Greater }) } }
impl PartialOrd for TxgT { #[verifier::external_body] fn partial_cmp(&self, o: &TxgT) -> (r: Option<Ordering>) { self.0.partial_cmp(&o.0) } }
impl AddSpecImpl<u32> for TxgT { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, r: u32) -> bool { self.0 + r <= u32::MAX } open spec fn add_spec(self, r: u32) -> TxgT { TxgT((self.0 + r) as u32) } }
impl core::ops::Add<u32> for TxgT { type Output = Self; #[verifier::external_body] fn add(self, rhs: u32) -> Self::Output { TxgT(self.0 + rhs) } }
impl SubSpecImpl<u32> for TxgT { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, r: u32) -> bool { self.0 >= r } open spec fn sub_spec(self, r: u32) -> TxgT { TxgT((self.0 - r) as u32) } }
impl core::ops::Sub<u32> for TxgT { type Output = Self; #[verifier::external_body] fn sub(self, rhs: u32) -> Self::Output { TxgT(self.0 - rhs) } }
impl TxgT { pub fn vp_from(t: u32) -> (r: TxgT) ensures r == TxgT(t) { TxgT(t) } }
pub trait VpRange: Sized { fn vp_clone(&self) -> (r: Self) ensures r == *self; }
impl VpRange for Range<TxgT> { #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() } }
pub trait VpOpt<T>: Sized { spec fn o(&self) -> Option<T>; fn vp_or(self, b: Option<T>) -> (r: Option<T>) ensures r == (if self.o() is Some { self.o() } else { b }); }
impl<T> VpOpt<T> for Option<T> { open spec fn o(&self) -> Option<T> { *self } fn vp_or(self, b: Option<T>) -> (r: Option<T>) { match self { Some(x) => Some(x), None => b } } }
/// an element of a sequence that is consumed in order
#[verifier::external_body] pub fn vp_take<T>(v: &mut Vec<T>, i: usize) -> (r: T) requires i < old(v)@.len() ensures r == old(v)@[i as int], final(v)@ == old(v)@ { unimplemented!() }
pub fn vp_min(a: u32, b: u32) -> (r: u32) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
pub fn vp_max(a: u32, b: u32) -> (r: u32) ensures r == if a < b { b } else { a } { if a < b { b } else { a } }
pub assume_specification [u64::div_ceil] (a: u64, b: u64) -> (r: u64) requires b > 0 ensures r == (a + b - 1) / (b as int);
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == (a + b - 1) / (b as int);
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum Error {  ENOSPC, EINTEGRITY, EIO, EINVAL, ENOENT, ENXIO }
// ---- what the stored map is made with: MetroHash64, speedy, divbuf
#[verifier::external_body] pub struct MetroHash64 { x: u8 }
impl MetroHash64 {
    pub uninterp spec fn view(&self) -> Seq<Hashed>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<Hashed>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn write_u64(&mut self, x: u64) ensures final(self)@ == old(self)@.push(Hashed::Word(x)) { unimplemented!() }
    #[verifier::external_body] pub fn finish(&self) -> (r: u64) ensures r == metro(self@) { unimplemented!() }
}
pub trait Hash { spec fn hashed(&self) -> Hashed; fn hash(&self, h: &mut MetroHash64) ensures final(h)@ == old(h)@.push(self.hashed()); }
impl Hash for Vec<ZoneOnDisk> { open spec fn hashed(&self) -> Hashed { Hashed::Zones(self@) } #[verifier::external_body] fn hash(&self, h: &mut MetroHash64) { unimplemented!() } }
#[verifier::external_body] pub struct SpeedyError { x: u8 }
#[verifier::external] impl core::fmt::Debug for SpeedyError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl SpacemapOnDisk {
    #[verifier::external_body] pub fn write_to_vec(&self) -> (r: Result<Vec<u8>, SpeedyError>)
        ensures r is Ok, r->Ok_0@.len() == 12 + 16 * self.zones@.len(), forall|pad: Seq<u8>| #[trigger] parse(r->Ok_0@ + pad) == Some((self.checksum, self.zones@)) { unimplemented!() }
    #[verifier::external_body] pub fn read_from_buffer(b: &[u8]) -> (r: Result<Self, SpeedyError>)
        ensures r is Ok <==> parse(b@) is Some, r is Ok ==> (r->Ok_0.checksum, r->Ok_0.zones@) == parse(b@)->0 { unimplemented!() }
}
#[verifier::external_body] pub struct DivBufShared { x: u8 }
#[verifier::external_body] pub struct DivBuf { x: u8 }
impl DivBufShared { pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn from(v: Vec<u8>) -> (r: Self) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body] pub fn try_const(&self) -> (r: Result<DivBuf, u8>) ensures r is Ok, r->Ok_0@ == self@ { unimplemented!() } }
impl DivBuf { pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn slice_to(&self, n: usize) -> (r: DivBuf) requires n <= self@.len() ensures r@ == self@.subrange(0, n as int) { unimplemented!() }
    #[verifier::external_body] pub fn vp_all(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn into_chunks(self, n: usize) -> (r: Vec<DivBuf>) requires n > 0, self@.len() % (n as nat) == 0 ensures r@.len() * n == self@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self@.subrange(i * n, (i + 1) * n) { unimplemented!() } }
pub trait VpRes<T, E>: Sized { spec fn res(&self) -> Result<T, E>; fn vp_unwrap_or(self, d: T) -> (r: T) ensures r == (match self.res() { Ok(v) => v, Err(_) => d }); }
impl<T, E> VpRes<T, E> for Result<T, E> { open spec fn res(&self) -> Result<T, E> { *self } fn vp_unwrap_or(self, d: T) -> (r: T) { match self { Ok(v) => v, Err(_) => d } } }
// ---- the device below, and futures as their results
#[verifier::external_body] pub struct RaidImpl { x: u8 }
pub struct BoxVdevFut { pub r: Result<(), Error> }
impl RaidImpl {
    /// first block of a zone and first block beyond it
    pub uninterp spec fn lim(&self, z: ZoneT) -> (int, int);
    pub uninterp spec fn nzones(&self) -> int;
    pub open spec fn sane(&self) -> bool {
        &&& forall|z: ZoneT| 0 <= (#[trigger] self.lim(z)).0 <= self.lim(z).1 <= u64::MAX && self.lim(z).1 - self.lim(z).0 < u32::MAX
        &&& forall|y: ZoneT, z: ZoneT| y < z ==> (#[trigger] self.lim(y)).1 <= (#[trigger] self.lim(z)).0
    }
    #[verifier::external_body] pub fn zones(&self) -> (r: ZoneT) ensures r == self.nzones() { unimplemented!() }
    #[verifier::external_body] pub fn zone_limits(&self, z: ZoneT) -> (r: (LbaT, LbaT)) ensures r.0 == self.lim(z).0, r.1 == self.lim(z).1 { unimplemented!() }
    #[verifier::external_body] pub fn reopen_zone(&self, z: ZoneT, alloc: LbaT) -> (r: BoxVdevFut) { unimplemented!() }
}
/// the device and the counter of allocated space, as one state
#[verifier::external_body] pub struct World { x: u8 }
pub struct WS { pub alloc: int, pub wp: Map<ZoneT, int>, pub area: Map<(int, int), Seq<u8>>, pub erased: Set<ZoneT> }
pub open spec fn lbas(n: int) -> int { (n + BYTES_PER_LBA - 1) / (BYTES_PER_LBA as int) }
pub open spec fn cat(s: Seq<DivBuf>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last()@ } }
impl World {
    pub uninterp spec fn dev(&self) -> RaidImpl;
    pub uninterp spec fn view(&self) -> WS;
    #[verifier::external_body] pub fn load(&self, o: ()) -> (r: u64) ensures r == self@.alloc { unimplemented!() }
    #[verifier::external_body] pub fn fetch_add(&mut self, n: u64, o: ()) -> (r: u64) requires old(self)@.alloc + n <= u64::MAX ensures final(self).dev() == old(self).dev(), final(self)@ == (WS { alloc: old(self)@.alloc + n, ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn fetch_sub(&mut self, n: u64, o: ()) -> (r: u64) requires old(self)@.alloc >= n ensures final(self).dev() == old(self).dev(), final(self)@ == (WS { alloc: old(self)@.alloc - n, ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn zone_limits(&self, z: ZoneT) -> (r: (LbaT, LbaT)) ensures r.0 == self.dev().lim(z).0, r.1 == self.dev().lim(z).1 { unimplemented!() }
    #[verifier::external_body] pub fn lba2zone(&self, lba: LbaT) -> (r: Option<ZoneT>) ensures forall|z: ZoneT| #![trigger self.dev().lim(z)] z < self.dev().nzones() ==> (r == Some(z) <==> self.dev().lim(z).0 <= lba < self.dev().lim(z).1) { unimplemented!() }
    #[verifier::external_body] pub fn open_zone(&mut self, z: ZoneT) -> (r: BoxVdevFut) requires !old(self)@.wp.dom().contains(z) ensures final(self).dev() == old(self).dev(), final(self)@ == (WS { wp: old(self)@.wp.insert(z, 0), ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn finish_zone(&mut self, z: ZoneT) -> (r: BoxVdevFut) requires old(self)@.wp.dom().contains(z) ensures final(self).dev() == old(self).dev(), final(self)@ == (WS { wp: old(self)@.wp.remove(z), ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn erase_zone(&mut self, z: ZoneT) -> (r: BoxVdevFut) requires !old(self)@.wp.dom().contains(z) ensures final(self).dev() == old(self).dev(), final(self)@ == (WS { erased: old(self)@.erased.insert(z), ..old(self)@ }) { unimplemented!() }
    /// a write begins at the zone's write pointer and stays in the zone
    #[verifier::external_body] pub fn write_at(&mut self, b: IoVec, z: ZoneT, lba: LbaT) -> (r: BoxVdevFut)
        requires old(self)@.wp.dom().contains(z), lba == old(self).dev().lim(z).0 + old(self)@.wp[z], lba + lbas(b@.len() as int) <= old(self).dev().lim(z).1
        ensures final(self).dev() == old(self).dev(), final(self)@ == (WS { wp: old(self)@.wp.insert(z, old(self)@.wp[z] + lbas(b@.len() as int)), ..old(self)@ }) { unimplemented!() }
    /// flushing fills up a stripe, and says how many blocks that took
    #[verifier::external_body] pub fn flush_zone(&mut self, z: ZoneT) -> (r: (LbaT, BoxVdevFut)) requires old(self)@.wp.dom().contains(z)
        ensures final(self).dev() == old(self).dev(), r.0 + old(self)@.wp[z] <= old(self).dev().lim(z).1 - old(self).dev().lim(z).0, final(self)@ == (WS { wp: old(self)@.wp.insert(z, old(self)@.wp[z] + r.0), ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn write_spacemap(&mut self, s: Vec<DivBuf>, idx: u32, block: LbaT) -> (r: BoxVdevFut) requires cat(s@).len() == BYTES_PER_LBA, block < blocks(old(self).dev().nzones())
        ensures final(self).dev() == old(self).dev(), final(self)@ == (WS { area: old(self)@.area.insert((idx as int, block as int), cat(s@)), ..old(self)@ }) { unimplemented!() }
}
pub type IoVec = DivBuf;
impl BoxVdevFut {
    #[verifier::external_body] pub fn vp_ok() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn vp_then(self, f: BoxVdevFut) -> (r: Self) { unimplemented!() }
}
impl FuturesUnordered<BoxVdevFut> {
    #[verifier::external_body] pub fn vp_all(self) -> (r: BoxVdevFut) { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, v: Vec<BoxVdevFut>) { unimplemented!() }
}
/// some buffer of zeros
#[verifier::external_body] pub fn vp_zeros() -> (r: DivBufShared) ensures r@.len() == ZERO_REGION_LEN { unimplemented!() }
pub struct Cluster { x: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct FuturesUnordered<T> { x: std::marker::PhantomData<T> }
impl<T> FuturesUnordered<T> {
    #[verifier::external_body] pub fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn push(&self, f: T) { unimplemented!() }
    #[verifier::external_body] pub fn vp_wait(self) { unimplemented!() }
}
pub fn vp_id<T>(x: T) -> (r: T) ensures r == x { x }
#[verifier::external] impl core::fmt::Debug for Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
"""
DER = "Clone, Copy, PartialEq, Eq, Structural"
TYPES = [
    ("type", "LbaT", dict(file=TYPESRS)), ("type", "ZoneT", dict(file=TYPESRS)), ("struct", "TxgT", dict(file=TYPESRS, derive=DER, pub_fields=True)),
    ("const", "TXG_MAX", dict(file=TYPESRS)), ("const", "SPACEMAP_ZONES_PER_LBA", dict(file=LABEL)), ("const", "BYTES_PER_LBA", dict(file="bfffs-core/src/util.rs")), ("const", "ZERO_REGION_LEN", dict(file="bfffs-core/src/util.rs")),
    ("struct", "Zone", dict(pub_fields=True)), ("struct", "OpenZone", dict(pub_fields=True, derive="Clone, Copy")), ("struct", "ClosedZone", dict(pub_fields=True)),
    ("struct", "FreeSpaceMap", dict(pub_fields=True)), ("struct", "ZoneOnDisk", dict(pub_fields=True)), ("struct", "SpacemapOnDisk", dict(pub_fields=True)),
]
LEMMAS = ["fsm.lemmas.rs", "fsm_disk.lemmas.rs", "fsm_cluster.lemmas.rs"]
SUB = [("TxgT::from(", "TxgT::vp_from(", "TxgT::from::<u32> is its constructor (T02)"), (".txgs.clone()", ".txgs.vp_clone()", "Range::clone"),
       (".or(", ".vp_or(", "Option::or"), ("cmp::min(", "vp_min(", "std::cmp::min"), ("cmp::max(", "vp_max(", "std::cmp::max"),
       ("dirty.insert_range(..)", "dirty.vp_insert_all()", "FixedBitSet::insert_range(..)"),
       ("self.zones.resize_with(idx + 1, Default::default)", "vp_resize(&mut self.zones, idx + 1)", "Vec::resize_with the extracted Default"),
       ("self.zones.get_mut(zone_id as usize)", "vp_get_mut(&mut self.zones, zone_id as usize)", "Vec::get_mut"),
       ("Result<Option<(ZoneT, LbaT)>>", "Result<Option<(ZoneT, LbaT)>, Error>", "types::Result"),
       ("impl IntoIterator<Item = ZoneT>", "Vec<ZoneT>", "the collection reap returns"),
       ("concat!(", "(", "concat!")]
DELTA = " lemma_delta(*old(self), *self, %s);"
def kept(z, x=""): return "assert forall|y: ZoneT| y != %s implies #[trigger] same(*old(self), *self, y) by { " % z + x + "assert(fine(*old(self), y)) by { if y < old(self).n() { assert(old(self).zone_ok(y)); } assert(old(self).listed(y) ==> y < old(self).n()); } } kept(*old(self), *self, %s);" % z
KINDS = {"self.empty_zones": "set", "self.open_zones": "map"}
FNS = []
def fn(name, impl="FreeSpaceMap", **k):
    p = dict(kinds=KINDS, fors=True, lazy=True, calls={}); p.update(k.pop("pipes", {}))
    FNS.append(dict(dict(impl=impl, name=name, subst=SUB + k.pop("subst", []), pipes=p, optmap=True), **k))
fn("default", "Default for Zone", as_impl="Zone", ensures=["ret.txgs.start == TxgT(0)", "ret.txgs.end == TxgT(0)"])
fn("write_pointer", "OpenZone", requires=["self.start + self.allocated_blocks <= u64::MAX"], ensures=["ret == self.start + self.allocated_blocks"])
fn("waste_space", "OpenZone", requires=["old(self).allocated_blocks + space <= u32::MAX"], ensures=["final(self).allocated_blocks == old(self).allocated_blocks + space", "final(self).start == old(self).start"])
fn("spacemap_space", None, file=LABEL, ensures=["ret == blocks(nzones as int)"])
fn("allocated", requires=["self.wf()", "zid < self.n()"], ensures=["ret == alloc_of(self.zv(zid))"], start="assert(self.zone_ok(zid));")
fn("allocated_total", requires=["self.wf()"], ensures=["ret == sum_of(|z: ZoneT| alloc_of(self.zv(z)), self.n())"],
   loops=[dict(kind="while", invariant=["self.wf()", "vp_i <= vp_n == self.n()", "vp_acc == sum_of(|z: ZoneT| alloc_of(self.zv(z)), vp_i as int)", "vp_acc <= vp_i * 0xffff_ffff"], decreases="vp_n - vp_i",
               start="assert(self.zone_ok(vp_i)); assert(alloc_of(self.zv(vp_i)) <= 0xffff_ffff); assert((vp_i + 1) * 0xffff_ffff <= 0xffff_ffff * 0xffff_ffff);")])
fn("available", requires=["self.wf()"], ensures=["ret == avail_of(self.zv(zone_id))"], start="if zone_id < self.n() { assert(self.zone_ok(zone_id)); } assert(self.isopen(zone_id) ==> zone_id < self.n());")
fn("clear_dirty_zones", ensures=["final(self).dirty@ == Set::<int>::empty()", "final(self).dirty.cap() == old(self).dirty.cap()", "final(self).zones == old(self).zones", "final(self).open_zones == old(self).open_zones", "final(self).empty_zones == old(self).empty_zones", "final(self).total_zones == old(self).total_zones"])
fn("dirty_zone_priv", requires=["blk(zone_id) < old(dirty).cap()"], ensures=["final(dirty)@ == old(dirty)@.insert(blk(zone_id))", "final(dirty).cap() == old(dirty).cap()"])
fn("dirty_zone", requires=["old(self).dirty.cap() == blocks(old(self).total_zones as int)", "zone_id < old(self).total_zones"], ensures=["final(self).dirty@ == old(self).dirty@.insert(blk(zone_id))", "final(self).dirty.cap() == old(self).dirty.cap()",
   "final(self).zones == old(self).zones", "final(self).open_zones == old(self).open_zones", "final(self).empty_zones == old(self).empty_zones", "final(self).total_zones == old(self).total_zones", "old(self).wf() ==> final(self).wf()", "forall|y: ZoneT| #[trigger] final(self).zv(y) == old(self).zv(y)"], start="lemma_blk(zone_id, self.total_zones);", end="if old(self).wf() { alike(*old(self), *self); }")
for nm, e in (("is_closed", "Closed"), ("is_dead", "Dead"), ("is_empty", "Empty"), ("is_open", "Open")):
    fn(nm, requires=["self.wf()"], ensures=["ret == (self.zv(zone_id) is %s)" % e], start="if zone_id < self.n() { assert(self.zone_ok(zone_id)); } assert(self.isopen(zone_id) ==> zone_id < self.n());")
fn("in_use", requires=["self.wf()"], ensures=["ret == used_of(self.zv(zone_id))"], start="if zone_id < self.n() { assert(self.zone_ok(zone_id)); } assert(self.isopen(zone_id) ==> zone_id < self.n());")
fn("in_use_total", requires=["self.wf()"], ensures=["ret == sum_of(|z: ZoneT| used_of(self.zv(z)), self.n())"],
   loops=[dict(kind="while", invariant=["self.wf()", "vp_i <= vp_n == self.n()", "vp_acc == sum_of(|z: ZoneT| used_of(self.zv(z)), vp_i as int)", "vp_acc <= vp_i * 0xffff_ffff"], decreases="vp_n - vp_i",
               start="assert(self.zone_ok(vp_i)); assert(used_of(self.zv(vp_i)) <= 0xffff_ffff); assert((vp_i + 1) * 0xffff_ffff <= 0xffff_ffff * 0xffff_ffff);")])
fn("kill_zone", requires=["old(self).wf()", "old(self).zv(zone_id) is Closed", "zone_id < old(self).total_zones"], ensures=["0 <= asum(*final(self)) <= u64::MAX", "only(*old(self), *final(self), zone_id)", "final(self).zv(zone_id) is Dead", "ret == alloc_of(old(self).zv(zone_id))", "asum(*final(self)) == asum(*old(self)) - ret"],
   start="assert(self.zone_ok(zone_id));", end=kept("zone_id") + DELTA % "zone_id")
fn("find_empty", pipes=dict(types=["&ZoneT"]), requires=["self.wf()"], ensures=["ret matches Some(z) ==> z < self.total_zones && self.zv(z) is Empty", "ret is None ==> forall|z: ZoneT| z < self.total_zones ==> !(#[trigger] self.zv(z) is Empty)"],
   loops=[dict(kind="while", invariant_except_break=["vp_acc is None"], invariant=["self.wf()", "vp_i <= vp_s@.len()", "ascending(vp_s@)", "forall|z: ZoneT| vp_s@.contains(z) <==> #[trigger] self.listed(z)",
        "forall|j: int| 0 <= j < vp_i && vp_acc is None ==> self.zv(#[trigger] vp_s@[j]) is Dead"], ensures=["vp_acc is None ==> vp_i == vp_s@.len()", "vp_acc matches Some(z) ==> self.listed(*z) && self.zv(*z) is Empty"], decreases="vp_s@.len() - vp_i",
        start="assert(vp_s@.contains(vp_s@[vp_i as int])); assert(self.listed(vp_s@[vp_i as int]));",
        after="assert forall|z: ZoneT| vp_acc is None && self.listed(z) implies self.zv(z) is Dead by { let j = vp_s@.index_of(z); assert(vp_s@.contains(z)); assert(vp_s@[j] == z); }")])
fn("finish_zone", requires=["old(self).wf()", "old(self).zv(zone_id) is Open", "txg.0 < u32::MAX"], 
   ensures=["0 <= asum(*final(self)) <= u64::MAX", "only(*old(self), *final(self), zone_id)", "old(self).zv(zone_id) matches ZV::Open { total, alloc, freed, t0, .. } && final(self).zv(zone_id) == (ZV::Closed { total, freed: freed + total - alloc, t0, t1: TxgT((txg.0 + 1) as u32) })", "ret == avail_of(old(self).zv(zone_id))", "asum(*final(self)) == asum(*old(self)) + ret"],
   start="assert(self.zone_ok(zone_id));", end=kept("zone_id") + DELTA % "zone_id")
fn("free", requires=["old(self).wf()", "old(self).zv(zone_id) is Open || old(self).zv(zone_id) is Closed", "length <= used_of(old(self).zv(zone_id))"],
   ensures=["only(*old(self), *final(self), zone_id)", "match old(self).zv(zone_id) { ZV::Open { start, total, alloc, freed, t0 } => final(self).zv(zone_id) == (ZV::Open { start, total, alloc, freed: freed + length, t0 }), ZV::Closed { total, freed, t0, t1 } => final(self).zv(zone_id) == (ZV::Closed { total, freed: freed + length, t0, t1 }), _ => false }"],
   start="assert(self.zone_ok(zone_id));", end=kept("zone_id"))
fn("new", ensures=["ret.wf()", "ret.total_zones == total_zones", "forall|z: ZoneT| ret.zv(z) is Empty", "forall|i: int| 0 <= i < blocks(total_zones as int) ==> ret.dirty@.contains(i)"])
fn("open_zone", requires=["old(self).wf()", "old(self).zv(id) is Empty", "id < old(self).total_zones", "start <= end", "end - start <= u32::MAX", "txg.0 <= TXG_MAX.0"],
   ensures=["lbas > end - start ==> ret is Err && only(*old(self), *final(self), id) && final(self).zv(id) == old(self).zv(id)",
            "lbas <= end - start ==> ret == Ok::<_, Error>(if lbas > 0 { Some((id, start)) } else { None }) && only(*old(self), *final(self), id) && final(self).zv(id) == (ZV::Open { start: start as int, total: end - start, alloc: lbas as int, freed: 0, t0: txg }) && asum(*final(self)) == asum(*old(self)) + lbas && asum(*final(self)) <= u64::MAX"],
   loops=[dict(kind="for", iter="it", invariant=["self.zones == vp_o.zones", "self.open_zones == vp_o.open_zones", "self.total_zones == vp_o.total_zones", "self.dirty@ == vp_o.dirty@.insert(blk(id))", "self.dirty.cap() == vp_o.dirty.cap()",
        "vp_o.wf()", "id < vp_o.total_zones", "idx == id", "forall|y: ZoneT| #[trigger] self.listed(y) <==> (vp_o.listed(y) || vp_o.n() <= y < z)"],
       ghost_start="let ghost vp_p = *self;", start="assert(!vp_o.listed(z as ZoneT)); assert(!self.listed(z as ZoneT));", end="assert forall|y: ZoneT| #[trigger] self.listed(y) <==> (vp_o.listed(y) || vp_o.n() <= y < z + 1) by { assert(vp_p.listed(y) <==> (vp_o.listed(y) || vp_o.n() <= y < z)); }", after="vp_m = *self;")],
   start="if id < self.n() { assert(self.zone_ok(id)); } assert(self.isopen(id) ==> id < self.n());", ghost_start="let ghost vp_o = *self; let ghost mut vp_m = *self;", end=kept("id", "let vp_x = vp_m.listed(y); ") + DELTA % "id")
fn("reap", requires=["old(self).wf()"], ensures=["final(self).wf()", "final(self).total_zones == old(self).total_zones", "forall|z: ZoneT| #[trigger] final(self).zv(z) == (if old(self).zv(z) is Dead { ZV::Empty } else { old(self).zv(z) })",
   "forall|z: ZoneT| ret@.contains(z) <==> #[trigger] old(self).zv(z) is Dead", "ascending(ret@)", "forall|z: ZoneT| #[trigger] old(self).zv(z) is Dead ==> final(self).dirty@.contains(blk(z))", "forall|i: int| #[trigger] old(self).dirty@.contains(i) ==> final(self).dirty@.contains(i)"],
   pipes=dict(types=[None, "usize"]), ghost_start="let ghost vp_o = *self; let ghost mut vp_m = *self;",
   loops=[dict(kind="while", invariant=["vp_o == *old(self)", "vp_i <= vp_s@.len()", "reap_inv(vp_o, *self, vp_s@, vp_i as int, reaped@)"],
          decreases="vp_s@.len() - vp_i", ghost_start="let ghost vp_p = *self; let ghost vp_q = reaped@; let ghost vp_j = vp_i as int;", start="lemma_reap_start(vp_o, *self, vp_s@, vp_i as int, reaped@);", end="lemma_reap_step(vp_o, vp_p, *self, vp_s@, vp_j, vp_q, reaped@);", after="assert(vp_s@.take(vp_s@.len() as int) =~= vp_s@); lemma_reaped(vp_o, *self, vp_s@, reaped@); vp_m = *self;"),
          dict(kind="while", invariant_except_break=["vp_acc1 is None"], invariant=["self.wf()", "vp_i1 <= self.n()", "forall|z: ZoneT| vp_i1 <= z && vp_acc1 is None ==> #[trigger] self.zv(z) is Empty"],
               ensures=["vp_acc1 is None ==> vp_i1 == 0", "vp_acc1 matches Some(i) ==> i < self.n() && forall|z: ZoneT| i < z ==> #[trigger] self.zv(z) is Empty"], decreases="vp_i1")],
   end="assert(self.zones@ =~= vp_m.zones@.take(self.n())); lemma_trimmed(vp_o, vp_m, *self);")
fn("try_allocate", requires=["old(self).wf()", "space <= u32::MAX"],
   ensures=["ret.0 matches Some(p) ==> only(*old(self), *final(self), p.0) && (old(self).zv(p.0) matches ZV::Open { start, total, alloc, freed, t0 } && alloc + space <= total && p.1 == start + alloc && final(self).zv(p.0) == (ZV::Open { start, total, alloc: alloc + space, freed, t0 })) && asum(*final(self)) == asum(*old(self)) + space && asum(*final(self)) <= u64::MAX",
            "ret.0 is None ==> *final(self) == *old(self)",
            "ascending(ret.1@)", "forall|z: ZoneT| #[trigger] ret.1@.contains(z) ==> old(self).isopen(z) && avail_of(old(self).zv(z)) < space", "ret.0 is None ==> forall|z: ZoneT| #[trigger] old(self).isopen(z) ==> ret.1@.contains(z)"],
   ghost_start="let ghost vp_o = *self;",
   loops=[dict(kind="while", invariant_except_break=["vp_acc is None", "nearly_full_zones@ == vp_s@.take(vp_i as int)"], invariant=["*self == vp_o", "vp_o.wf()", "*zones == self.zones", "space <= u32::MAX", "vp_i <= vp_s@.len()", "ascending(vp_s@)", "forall|z: ZoneT| vp_s@.contains(z) <==> #[trigger] self.isopen(z)",
        "forall|j: int| 0 <= j < nearly_full_zones@.len() ==> avail_of(self.zv(#[trigger] vp_s@[j])) < space"],
        ensures=["vp_acc is None ==> nearly_full_zones@ == vp_s@", "vp_acc matches Some(k) ==> self.isopen(k) && avail_of(self.zv(k)) >= space && 0 < vp_i <= vp_s@.len() && nearly_full_zones@ == vp_s@.take(vp_i - 1)"], decreases="vp_s@.len() - vp_i",
        start="assert(vp_s@.contains(vp_s@[vp_i as int])); assert(self.isopen(vp_s@[vp_i as int])); assert(self.zone_ok(vp_s@[vp_i as int]));", end="assert(vp_s@.take(vp_i as int) =~= vp_s@.take(vp_i - 1).push(vp_s@[vp_i - 1]));", after="assert(vp_s@.take(vp_s@.len() as int) =~= vp_s@); if vp_acc is Some { assert(self.zone_ok(vp_acc->0)); lemma_blk(vp_acc->0, self.total_zones); } lemma_taken(vp_s@, nearly_full_zones@, *self);")],
   end="if vp_ret.0 is Some { let vp_z = (vp_ret.0->0).0; assert(vp_o.zone_ok(vp_z)); " + kept("vp_z") + DELTA % "vp_z" + " }")
fn("waste_space", requires=["old(self).wf()", "old(self).zv(zid) is Open", "space <= avail_of(old(self).zv(zid))"],
   ensures=["only(*old(self), *final(self), zid)", "old(self).zv(zid) matches ZV::Open { start, total, alloc, freed, t0 } && final(self).zv(zid) == (ZV::Open { start, total, alloc: alloc + space, freed: freed + space, t0 })", "asum(*final(self)) == asum(*old(self)) + space", "asum(*final(self)) <= u64::MAX"],
   start="assert(self.zone_ok(zid));", end=kept("zid") + DELTA % "zid")
fn("write_pointer", requires=["self.wf()"], ensures=["ret == (match self.zv(zid) { ZV::Open { alloc, .. } => Some(alloc as u64), _ => None })"], start="if zid < self.n() { assert(self.zone_ok(zid)); } assert(self.isopen(zid) ==> zid < self.n());")
R = [("Result<Self>", "Result<Self, Error>", "types::Result"), ("speedy::Error", "SpeedyError", "the error type of the serialization crate"), (".unwrap_or(", ".vp_unwrap_or(", "Result::unwrap_or")]
fn("new", "SpacemapOnDisk", requires=["v@.len() <= zpl()"], ensures=["ret.zones == v", "ret.checksum == digest(i as int, v@)"], end="assert(hasher@ =~= seq![Hashed::Word(i), Hashed::Zones(v@)]);")
FNS[-1]["optmap"] = False
fn("deserialize", "SpacemapOnDisk", full=True, resmap=True, subst=R, ret_type="std::result::Result<Result<SpacemapOnDisk, Error>, SpeedyError>",
   ensures=["ret is Ok <==> parse(buf@) is Some", "ret is Ok && valid(buf@, block as int) ==> ret->Ok_0 is Ok && ret->Ok_0->Ok_0.zones@ == (parse(buf@)->0).1", "ret is Ok && !valid(buf@, block as int) ==> ret->Ok_0 == Err::<SpacemapOnDisk, Error>(Error::EINTEGRITY)"],
   after_let={"expected": "assert(hasher@ =~= seq![Hashed::Word(block), Hashed::Zones(sod.zones@)]);"})
FNS[-1]["optmap"] = False
fn("serialize", subst=[("&'a self", "&self", "a named lifetime")], ret_type="Vec<(LbaT, DivBufShared)>", pipes=dict(types=["Vec<(LbaT, DivBufShared)>", "Vec<ZoneOnDisk>"]),
   requires=["self.wf()", "self.total_zones <= u32::MAX - SPACEMAP_ZONES_PER_LBA"],
   ensures=["forall|k: int| 0 <= k < ret@.len() ==> block_out(*self, #[trigger] ret@[k])", "forall|b: int| #[trigger] self.dirty@.contains(b) ==> exists|k: int| 0 <= k < ret@.len() && (#[trigger] ret@[k]).0 == b",
            "forall|i: int, j: int| 0 <= i < j < ret@.len() ==> ret@[i].0 < ret@[j].0"],
   loops=[dict(kind="while", invariant=["self.wf()", "self.total_zones <= u32::MAX - SPACEMAP_ZONES_PER_LBA", "vp_i <= vp_s@.len()", "vp_acc@.len() == vp_i", "forall|k: int| 0 <= k < vp_i ==> block_out(*self, #[trigger] vp_acc@[k]) && vp_acc@[k].0 == vp_s@[k]",
             "forall|i: int, j: int| 0 <= i < j < vp_s@.len() ==> vp_s@[i] < vp_s@[j]", "forall|i: int| 0 <= i < vp_s@.len() ==> self.dirty@.contains(#[trigger] vp_s@[i] as int) && vp_s@[i] < self.dirty.cap()",
             "forall|b: int| #[trigger] self.dirty@.contains(b) ==> exists|i: int| 0 <= i < vp_s@.len() && vp_s@[i] == b"], decreases="vp_s@.len() - vp_i",
             start="let vp_b = vp_s@[vp_i as int] as int; assert(self.dirty@.contains(vp_b)); lemma_cnt(self.total_zones as int, vp_b);",
             after="assert forall|b: int| #[trigger] self.dirty@.contains(b) implies exists|k: int| 0 <= k < vp_acc@.len() && (#[trigger] vp_acc@[k]).0 == b by { let k = choose|k: int| 0 <= k < vp_s@.len() && vp_s@[k] == b; assert(vp_acc@[k].0 == b); }"),
          dict(kind="while", invariant=["self.wf()", "start <= vp_i1 <= vp_n1 == end", "start == block * zpl()", "end - start == cnt(self.total_zones as int, block as int)", "end <= self.total_zones", "cnt(self.total_zones as int, block as int) <= zpl()", "vp_acc1@ == self.img(block as int).take(vp_i1 - start)"], decreases="vp_n1 - vp_i1",
             start="lemma_zvopen(*self, vp_i1);", end="let vp_m = self.img(block as int); assert(vp_m.take(vp_i1 - start) =~= vp_m.take(vp_i1 - 1 - start).push(vp_m[vp_i1 - 1 - start]));",
             after="assert(self.img(block as int).take(end - start) =~= self.img(block as int));")])
LOADING = ["vp_b == buf@", "vdev.sane()", "vp_g.wf()", "vp_g.fits(vdev)", "vp_g.total_zones == zones", "holds(vp_b, vp_g)", "vp_s.len() == blocks(zones as int)", "forall|j: int| vp_i <= j < vp_s.len() ==> (#[trigger] vp_s@[j])@ == chunk(vp_b, j)"]
fn("deserialize", ghost_param="Ghost(vp_g): Ghost<FreeSpaceMap>", ret_type="Result<(FreeSpaceMap, RaidImpl), Error>", pipes=dict(calls={"into_chunks": "vec"}, kinds=dict(KINDS, **{"sod.unwrap().zones": "vec"})),
   pre=[(".try_collect::<Vec<_>>().map(|_| Ok((fsm, vdev)))", ".vp_wait(); let fut = Ok((fsm, vdev))", "waiting for the reopened zones, whose results are ignored, then the result"), ("let fut = oz_futs.vp_wait(); let fut", "oz_futs.vp_wait(); let fut", ""),
        ("future::err(", "Err::<(FreeSpaceMap, RaidImpl), Error>(", "futures stand for their results"), ("Box::pin(", "vp_id(", "boxing")] + R,
   requires=["vdev.sane()", "vp_g.wf()", "vp_g.fits(vdev)", "vp_g.total_zones == zones", "holds(buf@, vp_g)"],
   ensures=["(forall|i: int| 0 <= i < blocks(zones as int) ==> valid(#[trigger] chunk(buf@, i), i)) ==> ret is Ok && ret->Ok_0.0.as_far(vp_g, zones as int) && ret->Ok_0.0.dirty@ == Set::<int>::empty()",
            "(exists|i: int| 0 <= i < blocks(zones as int) && !valid(#[trigger] chunk(buf@, i), i)) ==> ret is Err && ret->Err_0 == Error::EINTEGRITY"],
   ghost_start="let ghost vp_b = buf@; let ghost mut vp_m = vp_g;",
   loops=[dict(kind="while", invariant=LOADING + ["load_inv(fsm, vp_g, vdev, vp_b, vp_i as int, zid as int)"], decreases="vp_s@.len() - vp_i",
               before="lemma_load_start(fsm, vp_g, vdev, vp_b); lemma_chunks(vp_b, blocks(zones as int), vp_s@);", ghost_start="let ghost vp_k = vp_i as int;",
               start="lemma_cnt(zones as int, vp_i as int); assert(vp_s@[vp_i as int]@ == chunk(vp_b, vp_i as int));", end="assert(valid(chunk(vp_b, vp_k), vp_k)); assert(forall|j: int| 0 <= j < vp_k + 1 ==> valid(#[trigger] chunk(vp_b, j), j));", after="vp_m = fsm;"),
          dict(kind="while", invariant=LOADING + ["0 <= vp_k < blocks(zones as int)", "vp_i == vp_k + 1", "vp_i1 <= vp_s1.len() == cnt(zones as int, vp_k)", "zid == vp_k * zpl() + vp_i1", "zid <= zones", "vp_k * zpl() + cnt(zones as int, vp_k) <= zones", "fsm.as_far(vp_g, zid as int)",
               "forall|j: int| vp_i1 <= j < vp_s1.len() ==> #[trigger] vp_s1@[j] == vp_g.img(vp_k)[j]", "forall|j: int| 0 <= j <= vp_k ==> valid(#[trigger] chunk(vp_b, j), j)"], decreases="vp_s1@.len() - vp_i1",
               ghost_start="let ghost vp_p = fsm; let ghost vp_z = zid; proof { vp_m = fsm; }",
               start="lemma_load_zone(fsm, vp_g, vdev, zid as int, zid); assert(vp_s1@[vp_i1 as int] == rec_of(vp_g.zv(zid))); lemma_zvopen(vp_g, zid);",
               end="lemma_zvopen(vp_m, vp_z); assert(vp_m.zv(vp_z) is Dead <==> vp_g.zv(vp_z) is Dead); assert(vp_m.zv(vp_z) is Open <==> vp_g.zv(vp_z) is Open); assert(vp_m.zv(vp_z) is Empty <==> vp_g.zv(vp_z) is Empty);  assert(vp_m.zv(vp_z) is Closed <==> vp_g.zv(vp_z) is Closed); assert(fsm.listed(vp_z) ==> fsm.zone_ok(vp_z)); assert(fsm.isopen(vp_z) ==> fsm.zone_ok(vp_z)); lemma_rest(vp_p, vp_m, fsm, vp_z); assert(fsm.zv(vp_z) == vp_g.zv(vp_z)); lemma_restored(vp_p, fsm, vp_g, vp_z as int, vp_z);")],
   before_stmt=[("fsm.zones[zid as usize].freed_blocks =", "vp_m = fsm;")], end="if vp_ret is Ok { alike(vp_m, vp_ret->Ok_0.0); }")
FNS[-1]["optmap"] = False
fn("open_zone_ids", subst=[("self.open_zones.keys()", "self.open_zones.vp_elems()", "the keys of the ordered map, in order")], ret_type="Vec<ZoneT>", ensures=["ascending(ret@)", "forall|z: ZoneT| ret@.contains(z) <==> #[trigger] self.isopen(z)"])
# ---- the cluster
CP = [("self.vdev.", "vp_w.", "the device and the counter are one state"), ("self.allocated_space.", "vp_w.", "the device and the counter are one state"), ("Ordering::Relaxed", "()", "atomic changes of the counter, each exact, in one thread"),
      (".try_collect::<Vec<_>>().map_ok(drop)", ".vp_all()", "futures stand for their results"), ("future::ok(())", "BoxVdevFut::vp_ok()", "futures stand for their results"), (".and_then(move |_|", ".vp_then(", "futures stand for their results"),
      ("Box::pin(", "vp_id(", "boxing"), ("as BoxVdevFut", "", "boxing"), ("self.kill_zone(", "self.vp_kill_zone(", "two methods of one name"), ("ZERO_REGION.", "vp_zeros().", "a static")]
CS = [("&mut RwLockWriteGuard<'a, FreeSpaceMap>", "&mut FreeSpaceMap", "the guard is what it guards"), ("<'a>", "", "a named lifetime"), ("Result<(LbaT, BoxVdevFut)>", "Result<(LbaT, BoxVdevFut), Error>", "types::Result"), ("=> vp_panic()", "=> vp_never()", "a panic in an expression")]
OK = "ok(*old(vp_fsm), *old(vp_w))"
def cl(name, fsm="&mut ", w="&mut ", **k):
    ps = (["vp_fsm: %sFreeSpaceMap" % fsm] if fsm else []) + (["vp_w: %sWorld" % w] if w else [])
    fn(name, "Cluster", ghost_calls=[(("vp_kill_zone",), "vp_fsm, vp_w"), (("close_zones",), "vp_w")], lockparam=("self.fsm", "vp_fsm"), pre=CP + k.pop("pre", []), subst=CS + k.pop("subst", []), ghost_param=", ".join(ps), **k)
KEEP = ["ok(*final(vp_fsm), *final(vp_w))", "final(vp_w).dev() == old(vp_w).dev()", "still(*old(vp_fsm), *old(vp_w), *final(vp_fsm), *final(vp_w))"]
cl("allocated", fsm="&", w="&", requires=["ok(*vp_fsm, *vp_w)"], ensures=["ret == asum(*vp_fsm)"])
cl("used", fsm="&", w="&", requires=["ok(*vp_fsm, *vp_w)"], ensures=["ret == usum(*vp_fsm)"], end="lemma_usum(*vp_fsm);")
cl("new", fsm="", w="", subst=[("fsm.allocated_total().into()", "fsm.allocated_total()", "into an atomic"), ("Cluster { allocated_space, fsm: RwLock::new(fsm), vdev }", "(allocated_space, fsm, vdev)", "a cluster is its counter, its map and its device")], ret_type="(u64, FreeSpaceMap, RaidImpl)",
   requires=["args.0.wf()"], ensures=["ret.0 == asum(args.0)", "ret.1 == args.0", "ret.2 == args.1"], end="lemma_asum(args.0);")
FNS[-1]["ghost_param"] = None
cl("kill_zone", requires=[OK, "old(vp_fsm).zv(zone) is Closed"], ensures=KEEP + ["only(*old(vp_fsm), *final(vp_fsm), zone)", "final(vp_fsm).zv(zone) is Dead", "final(vp_w)@.erased == old(vp_w)@.erased"], end="lemma_okay(*old(vp_fsm), *old(vp_w), *vp_fsm, *vp_w, zone);", start="lemma_zvopen(*vp_fsm, zone); lemma_asum_nonneg(*vp_fsm);", **{"as": "vp_kill_zone"})
ER = "final(vp_w)@.erased == old(vp_w)@.erased"
NF = "nearly_full_zones@"
NEAR = ["vp_w.dev() == vp_v.dev()", "vp_w@ == (WS { alloc: vp_w@.alloc, wp: vp_w@.wp, ..vp_v@ })", "vp_w@.alloc - vp_v@.alloc == asum(*wg) - asum(vp_f)", "marked(vp_f, *wg)"]
cl("close_zones", fsm="", ghost_start="let ghost vp_f = *wg; let ghost vp_v = *vp_w;", requires=["old(wg).wf()", "old(vp_w)@.alloc <= asum(*old(wg))", "ascending(nearly_full_zones@)", "forall|z: ZoneT| #[trigger] nearly_full_zones@.contains(z) ==> old(wg).isopen(z) && old(vp_w)@.wp.dom().contains(z) && z < old(wg).total_zones", "txg.0 < TXG_MAX.0"],
   ensures=["final(wg).wf()", "closed(*old(wg), *final(wg), nearly_full_zones@, txg)", "shut(old(vp_w)@.wp, final(vp_w)@.wp, nearly_full_zones@)"] + [x.replace("vp_w", "final(VPW)").replace("*wg", "*final(wg)").replace("vp_v", "old(VPW)").replace("vp_f", "*old(wg)").replace("VPW", "vp_w") for x in NEAR],
   pipes=dict(types=["FuturesUnordered<BoxVdevFut>"]), loops=[dict(kind="while", invariant=["vp_i <= nearly_full_zones@.len()", "ascending(nearly_full_zones@)", "forall|z: ZoneT| #[trigger] nearly_full_zones@.contains(z) ==> vp_f.isopen(z) && vp_v@.wp.dom().contains(z) && z < vp_f.total_zones", "txg.0 < TXG_MAX.0", "vp_f.wf()", "wg.wf()", "vp_v@.alloc <= asum(vp_f)",
       "closed(vp_f, *wg, nearly_full_zones@.take(vp_i as int), txg)", "shut(vp_v@.wp, vp_w@.wp, nearly_full_zones@.take(vp_i as int))"] + NEAR, decreases="nearly_full_zones@.len() - vp_i",
       ghost_start="let ghost vp_g = *wg; let ghost vp_u = *vp_w; let ghost vp_z = nearly_full_zones@[vp_i as int]; let ghost vp_j = vp_i as int;", start="assert(nearly_full_zones@.contains(vp_z)); lemma_close_start(vp_f, *wg, nearly_full_zones@, vp_i as int, txg); assert(vp_w@.wp.dom().contains(vp_z)) by { lemma_done(nearly_full_zones@, vp_j, vp_z); }",
       end="lemma_close_step(vp_f, vp_g, *wg, nearly_full_zones@, vp_j, txg); lemma_marked(vp_f, vp_g, *wg, vp_z); lemma_shut(vp_v@.wp, vp_u@.wp, vp_w@.wp, nearly_full_zones@, vp_j);", after="assert(nearly_full_zones@.take(nearly_full_zones@.len() as int) =~= nearly_full_zones@);")])
cl("free", requires=[OK, "exists|z: ZoneT| #[trigger] freeable(*old(vp_fsm), *old(vp_w), z, lba as int, length as int)"],
   ensures=KEEP + [ER, "forall|z: ZoneT| #[trigger] freeable(*old(vp_fsm), *old(vp_w), z, lba as int, length as int) ==> freed(*old(vp_fsm), *final(vp_fsm), z, length as int)"],
   ghost_start="let ghost vp_z = choose|z: ZoneT| #[trigger] freeable(*old(vp_fsm), *old(vp_w), z, lba as int, length as int); let ghost mut vp_g = *vp_fsm;", start="let vp_x = vp_w.dev().lim(vp_z); lemma_zvopen(*vp_fsm, vp_z);" + "", end="lemma_freed(*old(vp_fsm), *old(vp_w), vp_g, *vp_fsm, *vp_w, vp_z, lba as int, length as int);",
   after_stmt=[("vp_fsm.free(start_zone, length);", "vp_g = *vp_fsm; lemma_okay(*old(vp_fsm), *old(vp_w), *vp_fsm, *vp_w, vp_z);")])
cl("advance_transaction", pre=[("_txg", "_txg", "")], ret_type="BoxVdevFut", pipes=dict(calls={"reap": "vec"}, types=["FuturesUnordered<BoxVdevFut>"]), requires=[OK], ensures=KEEP + ["forall|z: ZoneT| #[trigger] final(vp_fsm).zv(z) == (if old(vp_fsm).zv(z) is Dead { ZV::Empty } else { old(vp_fsm).zv(z) })", "forall|z: ZoneT| #[trigger] final(vp_w)@.erased.contains(z) <==> (old(vp_w)@.erased.contains(z) || old(vp_fsm).zv(z) is Dead)"],
   ghost_start="let ghost vp_f = *vp_fsm; let ghost vp_v = *vp_w;", end="lemma_reap_okay(*old(vp_fsm), *old(vp_w), *vp_fsm, *vp_w);",
   loops=[dict(kind="while", invariant=["vp_i <= vp_s@.len()", "ok(vp_f, vp_v)", "forall|z: ZoneT| vp_s@.contains(z) <==> #[trigger] vp_f.zv(z) is Dead", "ascending(vp_s@)", "vp_w.dev() == vp_v.dev()", "vp_w@ == (WS { erased: vp_w@.erased, ..vp_v@ })", "forall|z: ZoneT| #[trigger] vp_w@.erased.contains(z) <==> (vp_v@.erased.contains(z) || done(vp_s@, vp_i as int, z))"], decreases="vp_s@.len() - vp_i",
       start="assert(vp_s@.contains(vp_s@[vp_i as int])); assert(vp_f.zv(vp_s@[vp_i as int]) is Dead); lemma_zvopen(vp_f, vp_s@[vp_i as int]);", end="assert forall|z: ZoneT| #[trigger] vp_w@.erased.contains(z) <==> (vp_v@.erased.contains(z) || done(vp_s@, vp_i as int, z)) by { lemma_done(vp_s@, vp_i - 1, z); }", after="assert(vp_s@.take(vp_s@.len() as int) =~= vp_s@);")])
cl("write", end_type="Result<(LbaT, BoxVdevFut), Error>", requires=[OK, "0 < buf@.len()", "lbas(buf@.len() as int) <= u32::MAX", "txg.0 < TXG_MAX.0"],
   ensures=KEEP + [ER, "ret is Err ==> ret->Err_0 == Error::ENOSPC && (forall|z: ZoneT| #[trigger] final(vp_fsm).zv(z) == old(vp_fsm).zv(z)) && final(vp_w)@ == old(vp_w)@ && forall|z: ZoneT| #[trigger] old(vp_fsm).isopen(z) ==> avail_of(old(vp_fsm).zv(z)) < lbas(buf@.len() as int)",
       "ret is Ok ==> exists|z: ZoneT| #[trigger] wrote(*old(vp_fsm), *final(vp_fsm), old(vp_w).dev(), z, ret->Ok_0.0 as int, lbas(buf@.len() as int), txg)"],
   ghost_start="let ghost mut vp_g = *vp_fsm; let ghost mut vp_u = *vp_w; let ghost mut vp_z: ZoneT = 0; let ghost mut vp_m = vp_w@.wp;", after_let={"wfut": "vp_z = zone_id; assert(shut(vp_u@.wp, vp_m, nearly_full_zones@) && vp_m.dom().contains(vp_z) && vp_w@.wp == vp_m.insert(vp_z, vp_m[vp_z] + space));", "futs": "vp_m = vp_w@.wp; lemma_asum_bound(*vp_fsm); lemma_delta(*old(vp_fsm), vp_g, zone_id); assert(!nearly_full_zones@.contains(zone_id)); assert(vp_w@.wp.dom().contains(zone_id) <==> vp_u@.wp.dom().contains(zone_id));", "oz_fut": "vp_g = *vp_fsm; vp_u = *vp_w; assert(only(*old(vp_fsm), vp_g, zone_id)); assert(vp_u@.wp.dom().contains(zone_id)) by { lemma_zvopen(*old(vp_fsm), zone_id); if alloc_result is Some { assert(old(vp_fsm).isopen(zone_id)); } } assert(!nearly_full_zones@.contains(zone_id)) by { if nearly_full_zones@.contains(zone_id) { assert(old(vp_fsm).isopen(zone_id)); lemma_zvopen(*old(vp_fsm), zone_id); } } assert forall|z: ZoneT| #[trigger] nearly_full_zones@.contains(z) implies vp_g.isopen(z) && vp_u@.wp.dom().contains(z) && z < vp_g.total_zones by { lemma_zvopen(*old(vp_fsm), z); lemma_zvopen(vp_g, z); assert(old(vp_fsm).isopen(z)); assert(vp_g.zv(z) == old(vp_fsm).zv(z)); }",
       "alloc_result": "vp_g = *vp_fsm; vp_u = *vp_w; lemma_one_open(*old(vp_fsm), vp_w.dev(), alloc_result, nearly_full_zones@, space as int); if alloc_result is Some { let vp_y = (alloc_result->0).0; lemma_zvopen(*old(vp_fsm), vp_y); assert(old(vp_fsm).isopen(vp_y)); assert(vp_w@.wp.dom().contains(vp_y)); } else { assert forall|z: ZoneT| #[trigger] vp_fsm.zv(z) is Empty implies !old(vp_fsm).isopen(z) by { lemma_zvopen(*vp_fsm, z); } }"},
   end="if vp_ret is Err { lemma_same(*old(vp_fsm), *old(vp_w), *vp_fsm, *vp_w); } else { lemma_closed_all(*old(vp_fsm), vp_g, *vp_fsm, *old(vp_w), vp_u, *vp_w, alloc_result, nearly_full_zones@, vp_z, space as int, txg); assert(wrote(*old(vp_fsm), *vp_fsm, old(vp_w).dev(), vp_z, vp_ret->Ok_0.0 as int, space as int, txg)); }")
FL = ["ok(vp_f, vp_v)", "vp_w.dev() == vp_v.dev()", "vp_w@.erased == vp_v@.erased"]
cl("flush", ret_type="BoxVdevFut", requires=[OK], ensures=["ok(*final(vp_fsm), *final(vp_w))", "final(vp_w).dev() == old(vp_w).dev()", ER, "forall|z: ZoneT| wasted(old(vp_fsm).zv(z), #[trigger] final(vp_fsm).zv(z))", "final(vp_fsm).total_zones == old(vp_fsm).total_zones",
   "saved(*old(vp_fsm), *old(vp_w), idx as int) ==> saved(*final(vp_fsm), *final(vp_w), idx as int)", "final(vp_fsm).dirty@ == Set::<int>::empty()", "forall|i: int, b: int| i != idx ==> (#[trigger] at(*final(vp_w), i, b) == at(*old(vp_w), i, b))"],
   pipes=dict(calls={"open_zone_ids": "refs", "serialize": "vec"}, types=["Vec<ZoneT>", "FuturesUnordered<BoxVdevFut>", "Vec<BoxVdevFut>"]),
   ghost_start="let ghost vp_f = *vp_fsm; let ghost vp_v = *vp_w; let ghost mut vp_g = *vp_fsm; let ghost mut vp_u = *vp_w;",
   loops=[dict(kind="while", invariant=["vp_i <= vp_s@.len()", "vp_acc@ == vp_s@.take(vp_i as int)"], decreases="vp_s@.len() - vp_i", end="assert(vp_s@.take(vp_i as int) =~= vp_s@.take(vp_i - 1).push(vp_s@[vp_i - 1]));", after="assert(vp_s@.take(vp_s@.len() as int) =~= vp_s@);"),
          dict(kind="while", invariant=FL + ["vp_i1 <= zone_ids@.len()", "ascending(zone_ids@)", "forall|z: ZoneT| zone_ids@.contains(z) <==> #[trigger] vp_f.isopen(z)", "ok(*vp_fsm, *vp_w)", "still(vp_f, vp_v, *vp_fsm, *vp_w)", "vp_w@.area == vp_v@.area",
             "forall|z: ZoneT| wasted(vp_f.zv(z), #[trigger] vp_fsm.zv(z))"], before="assert forall|z: ZoneT| wasted(vp_f.zv(z), #[trigger] vp_fsm.zv(z)) by { lemma_zvopen(vp_f, z); }", decreases="zone_ids@.len() - vp_i1",
             ghost_start="let ghost vp_p = *vp_fsm; let ghost vp_q = *vp_w; let ghost vp_z = zone_ids@[vp_i1 as int];", start="assert(zone_ids@.contains(vp_z)); assert(vp_f.isopen(vp_z)); lemma_zvopen(vp_f, vp_z); assert(wasted(vp_f.zv(vp_z), vp_fsm.zv(vp_z))); lemma_zvopen(*vp_fsm, vp_z); assert(vp_fsm.isopen(vp_z));",
             end="lemma_okay(vp_p, vp_q, *vp_fsm, *vp_w, vp_z); lemma_still_trans(vp_f, vp_v, vp_p, vp_q, *vp_fsm, *vp_w); assert forall|z: ZoneT| wasted(vp_f.zv(z), #[trigger] vp_fsm.zv(z)) by { assert(wasted(vp_f.zv(z), vp_p.zv(z))); if z != vp_z { assert(vp_fsm.zv(z) == vp_p.zv(z)); } }",
             after="vp_g = *vp_fsm; vp_u = *vp_w;"),
          dict(kind="while", invariant=["vp_i2 <= vp_s2@.len()", "*vp_fsm == vp_g", "ok(vp_g, vp_u)", "vp_w.dev() == vp_u.dev()", "vp_w@ == (WS { area: vp_w@.area, ..vp_u@ })",
             "forall|k: int| 0 <= k < vp_s2@.len() ==> block_out(vp_g, #[trigger] vp_s2@[k])", "forall|i: int, j: int| 0 <= i < j < vp_s2@.len() ==> (#[trigger] vp_s2@[i]).0 < (#[trigger] vp_s2@[j]).0", "forall|k: int| 0 <= k < vp_i2 ==> stored(*vp_w, idx as int, #[trigger] vp_s2@[k].0 as int, vp_g.img(vp_s2@[k].0 as int))", "forall|b: int| #[trigger] vp_g.dirty@.contains(b) ==> exists|k: int| 0 <= k < vp_s2@.len() && (#[trigger] vp_s2@[k]).0 == b",
             "untouched(vp_u, *vp_w, idx as int, vp_s2@)"], decreases="vp_s2@.len() - vp_i2",
             ghost_start="let ghost vp_p = *vp_w; let ghost vp_o = vp_s2@[vp_i2 as int];", start="assert(block_out(vp_g, vp_o)); lemma_cnt(vp_g.total_zones as int, vp_o.0 as int);",
             after_let={"sglist": "lemma_cat(sglist@);"}, end="lemma_area_step(vp_u, vp_p, *vp_w, idx as int, vp_s2@, vp_i2 - 1, vp_g);",
             after="lemma_flushed(vp_g, vp_u, *vp_w, idx as int, vp_s2@);")],
   end="lemma_flush_end(vp_g, vp_u, *vp_fsm, *vp_w, idx as int); assert forall|z: ZoneT| wasted(old(vp_fsm).zv(z), #[trigger] vp_fsm.zv(z)) by { assert(vp_fsm.zv(z) == vp_g.zv(z)); } assert forall|i: int, b: int| i != idx implies #[trigger] at(*vp_w, i, b) == at(*old(vp_w), i, b) by { assert(at(*vp_w, i, b) == at(vp_u, i, b)); }")
POSTLUDE = r"""
// ---- Z01
/// the live blocks of zone z
pub open spec fn part(l: Set<int>, d: RaidImpl, z: ZoneT) -> Set<int> { l.filter(|x: int| d.lim(z).0 <= x < d.lim(z).1) }
/// of each zone, as many blocks are live as the map says are in use, all of them among those handed out
pub open spec fn live(l: Set<int>, f: FreeSpaceMap, d: RaidImpl) -> bool { forall|z: ZoneT| z < f.total_zones ==> zlive(#[trigger] part(l, d, z), f.zv(z), d.lim(z).0) }
pub open spec fn zlive(p: Set<int>, v: ZV, base: int) -> bool { p.len() == used_of(v) && forall|x: int| #[trigger] p.contains(x) ==> x < base + alloc_of(v) }
proof fn lemma_add(l: Set<int>, d: RaidImpl, z: ZoneT, lba: int, n: int) requires d.sane(), n >= 0, d.lim(z).0 <= lba, lba + n <= d.lim(z).1
    ensures part(l + set_int_range(lba, lba + n), d, z) =~= part(l, d, z) + set_int_range(lba, lba + n), part(l - set_int_range(lba, lba + n), d, z) =~= part(l, d, z) - set_int_range(lba, lba + n),
        forall|y: ZoneT| y != z ==> #[trigger] part(l + set_int_range(lba, lba + n), d, y) =~= part(l, d, y), forall|y: ZoneT| y != z ==> #[trigger] part(l - set_int_range(lba, lba + n), d, y) =~= part(l, d, y)
{
    vstd::set_lib::lemma_int_range(lba, lba + n);
    assert forall|y: ZoneT| y != z implies #[trigger] part(l + set_int_range(lba, lba + n), d, y) =~= part(l, d, y) && part(l - set_int_range(lba, lba + n), d, y) =~= part(l, d, y) by { if y < z { assert(d.lim(y).1 <= d.lim(z).0); } else { assert(d.lim(z).1 <= d.lim(y).0); } }
    assert forall|y: ZoneT| y != z implies #[trigger] part(l - set_int_range(lba, lba + n), d, y) =~= part(l, d, y) by { if y < z { assert(d.lim(y).1 <= d.lim(z).0); } else { assert(d.lim(z).1 <= d.lim(y).0); } }
}
fn prop_z01_write(c: &Cluster, buf: IoVec, txg: TxgT, f: &mut FreeSpaceMap, w: &mut World, Ghost(l): Ghost<Set<int>>) -> (ret: Result<(LbaT, BoxVdevFut), Error>)
    requires ok(*old(f), *old(w)), live(l, *old(f), old(w).dev()), 0 < buf@.len(), lbas(buf@.len() as int) <= u32::MAX, txg.0 < TXG_MAX.0
    ensures ok(*final(f), *final(w)), final(w)@.erased == old(w)@.erased, ret is Err ==> live(l, *final(f), final(w).dev()),
        ret is Ok ==> ({ let r = set_int_range(ret->Ok_0.0 as int, ret->Ok_0.0 + lbas(buf@.len() as int));
            r.disjoint(l) && live(l + r, *final(f), final(w).dev()) && exists|z: ZoneT| #[trigger] final(f).isopen(z) && final(w).dev().lim(z).0 <= ret->Ok_0.0 && ret->Ok_0.0 + lbas(buf@.len() as int) <= final(w).dev().lim(z).1 }),
{
    let ghost o = *f; let ghost n = lbas(buf@.len() as int);
    let ret = c.write(buf, txg, f, w);
    proof {
        let d = w.dev(); let g = *f;
        assert forall|y: ZoneT| used_of(closed_zv(o.zv(y), txg)) == used_of(o.zv(y)) && alloc_of(closed_zv(o.zv(y), txg)) >= alloc_of(o.zv(y)) by { lemma_zvopen(o, y); }
        if ret is Ok {
            let lba = ret->Ok_0.0 as int;
            let z = choose|z: ZoneT| #[trigger] wrote(o, g, d, z, lba, n, txg);
            lemma_add(l, d, z, lba, n); vstd::set_lib::lemma_int_range(lba, lba + n); lemma_zvopen(g, z); lemma_zvopen(o, z);
            let r = set_int_range(lba, lba + n); let p = part(l, d, z);
            assert(zlive(p, o.zv(z), d.lim(z).0));
            assert forall|x: int| r.contains(x) implies !l.contains(x) by { if l.contains(x) { assert(p.contains(x)); } }
            vstd::set_lib::lemma_set_disjoint_lens(p, r);
            assert forall|y: ZoneT| y < g.total_zones implies zlive(#[trigger] part(l + r, d, y), g.zv(y), d.lim(y).0) by { assert(zlive(part(l, d, y), o.zv(y), d.lim(y).0)); }
        } else {
            assert forall|y: ZoneT| y < g.total_zones implies zlive(#[trigger] part(l, d, y), g.zv(y), d.lim(y).0) by { assert(zlive(part(l, d, y), o.zv(y), d.lim(y).0)); }
        }
    }
    ret
}
fn prop_z01_free(c: &Cluster, lba: LbaT, length: LbaT, f: &mut FreeSpaceMap, w: &mut World, Ghost(l): Ghost<Set<int>>, Ghost(z): Ghost<ZoneT>)
    requires ok(*old(f), *old(w)), live(l, *old(f), old(w).dev()), length > 0, z < old(f).total_zones, old(w).dev().lim(z).0 <= lba, lba + length <= old(w).dev().lim(z).1, forall|x: int| lba <= x < lba + length ==> l.contains(x)
    ensures ok(*final(f), *final(w)), final(w)@.erased == old(w)@.erased, live(l - set_int_range(lba as int, lba + length), *final(f), final(w).dev()),
        // only a zone in which nothing is live any more dies
        forall|y: ZoneT| y < final(f).total_zones && #[trigger] final(f).zv(y) is Dead ==> part(l - set_int_range(lba as int, lba + length), final(w).dev(), y).len() == 0
{
    let ghost o = *f; let ghost r = set_int_range(lba as int, lba + length); let ghost p = part(l, w.dev(), z);
    proof {
        vstd::set_lib::lemma_int_range(lba as int, lba + length); assert(zlive(p, o.zv(z), w.dev().lim(z).0));
        assert(r.subset_of(p)); vstd::set_lib::lemma_len_subset(r, p);
        assert(freeable(o, *w, z, lba as int, length as int));
    }
    c.free(lba, length, f, w);
    proof {
        let d = w.dev(); let g = *f;
        assert(freed(o, g, z, length as int)); lemma_add(l, d, z, lba as int, length as int); lemma_zvopen(o, z);
        assert(p.intersect(r) =~= r); vstd::set_lib::lemma_set_difference_len(p, r);
        assert forall|y: ZoneT| y < g.total_zones implies zlive(#[trigger] part(l - r, d, y), g.zv(y), d.lim(y).0) by {
            assert(zlive(part(l, d, y), o.zv(y), d.lim(y).0));
            if y == z { assert((p - r).len() == p.len() - length); if g.zv(z) is Dead { assert((p - r).len() == 0); assert forall|x: int| (p - r).contains(x) implies false by { vstd::set_lib::lemma_set_empty_equivalency_len(p - r); } } }
        }
    }
}
fn prop_z01_flush(c: &Cluster, idx: u32, f: &mut FreeSpaceMap, w: &mut World, Ghost(l): Ghost<Set<int>>)
    requires ok(*old(f), *old(w)), live(l, *old(f), old(w).dev()) ensures ok(*final(f), *final(w)), live(l, *final(f), final(w).dev()), final(w)@.erased == old(w)@.erased
{
    let ghost o = *f;
    c.flush(idx, f, w);
    proof { assert forall|y: ZoneT| y < f.total_zones implies zlive(#[trigger] part(l, w.dev(), y), f.zv(y), w.dev().lim(y).0) by { assert(zlive(part(l, w.dev(), y), o.zv(y), w.dev().lim(y).0)); assert(wasted(o.zv(y), f.zv(y))); } }
}
/// what is erased holds nothing live
fn prop_z01_advance(c: &Cluster, txg: TxgT, f: &mut FreeSpaceMap, w: &mut World, Ghost(l): Ghost<Set<int>>)
    requires ok(*old(f), *old(w)), live(l, *old(f), old(w).dev())
    ensures ok(*final(f), *final(w)), live(l, *final(f), final(w).dev()), forall|z: ZoneT| z < final(f).total_zones && #[trigger] final(w)@.erased.contains(z) && !old(w)@.erased.contains(z) ==> part(l, final(w).dev(), z).len() == 0 && final(f).zv(z) is Empty,
        forall|z: ZoneT| z < final(f).total_zones && #[trigger] final(f).zv(z) is Empty && !(old(f).zv(z) is Empty) ==> final(w)@.erased.contains(z)
{
    let ghost o = *f;
    c.advance_transaction(txg, f, w);
    proof {
        assert forall|y: ZoneT| y < f.total_zones implies zlive(#[trigger] part(l, w.dev(), y), f.zv(y), w.dev().lim(y).0) by { assert(zlive(part(l, w.dev(), y), o.zv(y), w.dev().lim(y).0)); assert(f.zv(y) == (if o.zv(y) is Dead { ZV::Empty } else { o.zv(y) })); }
        assert forall|z: ZoneT| z < f.total_zones && #[trigger] w@.erased.contains(z) && !old(w)@.erased.contains(z) implies part(l, w.dev(), z).len() == 0 && f.zv(z) is Empty by { assert(o.zv(z) is Dead); assert(zlive(part(l, w.dev(), z), o.zv(z), w.dev().lim(z).0)); assert(f.zv(z) == (if o.zv(z) is Dead { ZV::Empty } else { o.zv(z) })); }
        assert forall|z: ZoneT| z < f.total_zones && #[trigger] f.zv(z) is Empty && !(o.zv(z) is Empty) implies w@.erased.contains(z) by { assert(f.zv(z) == (if o.zv(z) is Dead { ZV::Empty } else { o.zv(z) })); }
    }
}
/// what is reported is what the zones add up to
fn prop_z01_totals(c: &Cluster, f: &FreeSpaceMap, w: &World) -> (ret: (LbaT, LbaT)) requires ok(*f, *w) ensures ret.0 == asum(*f), ret.1 == usum(*f) { (c.allocated(f, w), c.used(f, w)) }
// ---- Z02
/// what is read back is what was written
#[verifier::external_body] fn vp_read_back(w: &World, idx: u32) -> (r: DivBuf) requires forall|b: int| 0 <= b < blocks(w.dev().nzones()) ==> #[trigger] at(*w, idx as int, b) is Some
    ensures r@.len() == blocks(w.dev().nzones()) * BYTES_PER_LBA, forall|b: int| 0 <= b < blocks(w.dev().nzones()) ==> Some(#[trigger] chunk(r@, b)) == at(*w, idx as int, b) { unimplemented!() }
/// a map that was created has nothing stored that is wrong
proof fn prop_z02_fresh(f: FreeSpaceMap, w: World, i: int) requires forall|b: int| 0 <= b < blocks(f.total_zones as int) ==> f.dirty@.contains(b) ensures saved(f, w, i) {}
fn prop_z02_round_trip(c: &Cluster, idx: u32, vdev: RaidImpl, f: &mut FreeSpaceMap, w: &mut World) -> (ret: Result<(FreeSpaceMap, RaidImpl), Error>)
    requires ok(*old(f), *old(w)), saved(*old(f), *old(w), idx as int), vdev.sane(), vdev == old(w).dev()
    ensures ret is Ok, ret->Ok_0.0.wf(), ret->Ok_0.0.total_zones == final(f).total_zones, forall|z: ZoneT| z < final(f).total_zones ==> #[trigger] ret->Ok_0.0.zv(z) == final(f).zv(z), saved(ret->Ok_0.0, *final(w), idx as int)
{
    c.flush(idx, f, w);
    proof { assert forall|b: int| 0 <= b < blocks(w.dev().nzones()) implies #[trigger] at(*w, idx as int, b) is Some by { assert(stored(*w, idx as int, b, f.img(b))); } }
    let buf = vp_read_back(w, idx);
    proof { assert forall|b: int| 0 <= b < blocks(f.total_zones as int) implies valid(#[trigger] chunk(buf@, b), b) && (parse(chunk(buf@, b))->0).1 == f.img(b) by { assert(stored(*w, idx as int, b, f.img(b))); assert(at(*w, idx as int, b) is Some); } }
    let n = f.total_zones;
    let ret = FreeSpaceMap::deserialize(vdev, buf, n, Ghost(*f));
    proof { let g = ret->Ok_0.0; assert forall|b: int| 0 <= b < blocks(g.total_zones as int) implies #[trigger] stored(*w, idx as int, b, g.img(b)) by { assert(stored(*w, idx as int, b, f.img(b))); lemma_cnt(n as int, b); assert(g.img(b) =~= f.img(b)); } }
    ret
}
/// a stored block that does not carry the checksum of what it contains is refused
fn prop_z02_reject(vdev: RaidImpl, buf: DivBuf, zones: ZoneT, Ghost(g): Ghost<FreeSpaceMap>, Ghost(b): Ghost<int>) -> (ret: Result<(FreeSpaceMap, RaidImpl), Error>)
    requires vdev.sane(), g.wf(), g.fits(vdev), g.total_zones == zones, holds(buf@, g), 0 <= b < blocks(zones as int), !valid(chunk(buf@, b), b)
    ensures ret is Err, ret->Err_0 == Error::EINTEGRITY
{ FreeSpaceMap::deserialize(vdev, buf, zones, Ghost(g)) }
"""
