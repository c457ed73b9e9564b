SOURCE = "bfffs-core/src/mirror.rs"
VDEV = "bfffs-core/src/vdev.rs"
RAID = "bfffs-core/src/raid/vdev_raid.rs"
RAIDMOD = "bfffs-core/src/raid/mod.rs"
NULL = "bfffs-core/src/raid/null_raid.rs"
BLOCK = "bfffs-core/src/vdev_block.rs"
CLUSTER = "bfffs-core/src/cluster.rs"
POOL = "bfffs-core/src/pool.rs"
HEADER = """#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, unused_braces)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
"""
PRELUDE = r"""
fn vp_panic() requires false {}
#[verifier::external_body] fn vp_never<T>() -> T requires false { unimplemented!() }
// ---- assumed contracts
/// std::num::NonZeroU8
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct NonZeroU8 { pub n: u8 }
impl NonZeroU8 { pub fn new(n: u8) -> (r: Option<NonZeroU8>) ensures r == (if n == 0 { None } else { Some(NonZeroU8 { n }) }) { if n == 0 { None } else { Some(NonZeroU8 { n }) } }
    pub fn vp_get(self) -> (r: u8) ensures r == self.n { self.n } }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct Uuid { pub n: u128 }
impl Uuid { pub uninterp spec fn nil() -> Uuid; #[verifier::external_body] pub fn default() -> (r: Uuid) { unimplemented!() } }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum Error { EAGAIN, EINVAL, ENOENT, EBUSY, ENXIO }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct TxgT { pub n: u32 }
impl PartialOrdSpecImpl for TxgT { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &TxgT) -> Option<Ordering> { Some(int_cmp(self.n as int, o.n as int)) } }
impl PartialOrd for TxgT { #[verifier::external_body] fn partial_cmp(&self, o: &TxgT) -> (r: Option<Ordering>) { unimplemented!() } }
#[verifier::external_body] pub struct VpPath { x: u8 }
impl VpPath { #[verifier::external_body] pub fn new() -> VpPath { unimplemented!() } #[verifier::external_body] pub fn clone(&self) -> VpPath { unimplemented!() } }
#[verifier::external_body] pub struct VpInner { x: u8 }
pub assume_specification<T> [core::mem::replace::<T>] (a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
pub trait VpRes<T> { spec fn v(&self) -> Option<T>; fn vp_unwrap_or(self, d: T) -> (r: T) ensures r == (match self.v() { Some(x) => x, None => d }); }
impl<T, E> VpRes<T> for Result<T, E> { open spec fn v(&self) -> Option<T> { match *self { Ok(x) => Some(x), Err(e) => None } } fn vp_unwrap_or(self, d: T) -> (r: T) { match self { Ok(x) => x, Err(e) => d } } }
/// Arc<T>, T seen through it
pub struct VpArc<T> { pub i: T, pub unique: bool }
/// Arc::get_mut: only if nothing else holds the value
#[verifier::external_body] pub fn vp_get_mut<T>(a: &mut VpArc<T>) -> (r: Option<&mut T>)
    ensures r is Some <==> old(a).unique, final(a).unique == old(a).unique, r is Some ==> *r->0 == old(a).i && final(a).i == *final(r->0), r is None ==> *final(a) == *old(a) { unimplemented!() }
#[verifier::external_body] pub fn vp_string() -> String { unimplemented!() }
impl VdevBlock { pub uninterp spec fn txg_of(&self) -> TxgT; #[verifier::external_body] pub fn txg(&self) -> (r: TxgT) ensures r == self.txg_of() { unimplemented!() } }
/// std::vec::Vec: a vector is the sequence of its elements (its capacity is not looked at)
pub axiom fn vec_is_its_elements<T>(a: Vec<T>, b: Vec<T>) requires a@ == b@ ensures a == b;
pub struct VpLocator { pub x: u8 }
/// contract codec: the code's parameters
pub struct Codec { pub k: i16, pub f: i16 }
impl Codec { pub fn protection(&self) -> (r: i16) ensures r == self.f { self.f } pub fn stripesize(&self) -> (r: i16) ensures r == self.k { self.k } }
/// enum_dispatch: a RAID device of some kind is asked through its own methods
#[verifier::external_body] pub struct RaidImpl { x: u8 }
impl RaidImpl {
    pub uninterp spec fn health_of(&self) -> Health;
    pub uninterp spec fn fault_of(&self, u: Uuid) -> (Result<(), Error>, RaidImpl);
    #[verifier::external_body] pub fn status(&self) -> (r: RStatus) ensures r.health == self.health_of() { unimplemented!() }
    #[verifier::external_body] pub fn fault(&mut self, u: Uuid) -> (r: Result<(), Error>) ensures (r, *final(self)) == old(self).fault_of(u) { unimplemented!() }
}
/// #[derive(PartialOrd, Ord)] on Health (proved for every pair of values by the Kani part)
impl PartialOrdSpecImpl for Health { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Health) -> Option<Ordering> { Some(int_cmp(worse(*self), worse(*o))) } }
impl PartialOrd for Health { #[verifier::external_body] fn partial_cmp(&self, o: &Health) -> (r: Option<Ordering>) { unimplemented!() } }
pub open spec fn int_cmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
"""
COPY = "Clone, Copy, PartialEq, Eq, Structural"
def st(to): return [("struct Status", "struct " + to)]
TYPES = [
    ("enum", "FaultedReason", dict(file=VDEV, derive=COPY)), ("enum", "Health", dict(file=VDEV, derive=COPY)),
    ("struct", "VdevBlock", dict(file=BLOCK, pub_fields=True, subst=[("Arc<RwLock<Inner>>", "VpInner"), ("PathBuf", "VpPath"), ("LbaT", "u64")])),
    ("struct", "Status", dict(file=BLOCK, pub_fields=True, subst=st("BStatus") + [("PathBuf", "VpPath")])),
    ("struct", "Status", dict(pub_fields=True, subst=st("MStatus") + [("vdev_block::Status", "BStatus")])),
    ("struct", "Status", dict(file=RAIDMOD, pub_fields=True, subst=st("RStatus") + [("mirror::Status", "MStatus")])),
    ("struct", "Status", dict(file=POOL, pub_fields=True, subst=st("PStatus") + [("cluster::Status", "RStatus")])),
    ("enum", "Child", dict(subst=[("enum Child", "pub enum MChild"), ("Arc<VdevBlock>", "VpArc<VdevBlock>")])),
    ("struct", "Mirror", dict(pub_fields=True, subst=[("Vec<Child>", "Vec<MChild>"), ("Arc<AtomicU32>", "VpInner"), ("AtomicU32", "VpInner"), ("LbaT", "u64")])),
    ("enum", "Child", dict(file=RAID, subst=[("enum Child", "pub enum RChild")])),
    ("struct", "Inner", dict(file=RAID, pub_fields=True, subst=[("LocatorImpl", "VpLocator"), ("Box<[Child]>", "Vec<RChild>")])),
    ("struct", "VdevRaid", dict(file=RAID, pub_fields=True, subst=[("LbaT", "u64"), ("RwLock<BTreeMap<ZoneT, StripeBuffer>>", "VpInner"), ("Arc<Inner>", "VpArc<Inner>"), ("LayoutAlgorithm", "VpInner")])),
    ("struct", "NullRaid", dict(file=NULL, pub_fields=True)),
    ("struct", "Cluster", dict(file=CLUSTER, pub_fields=True, subst=[("AtomicU64", "VpInner"), ("RwLock<FreeSpaceMap>", "VpInner")])),
    ("struct", "Pool", dict(file=POOL, pub_fields=True, subst=[("Arc<Stats>", "VpInner")])),
]
LEMMAS = ["health.lemmas.rs"]
RES = [("u8::try_from(sick_children).unwrap_or(", "u8::try_from(sick_children).vp_unwrap_or(", "Result::unwrap_or"), ("u8::try_from(m.leaves.len()).unwrap_or(", "u8::try_from(m.leaves.len()).vp_unwrap_or(", "Result::unwrap_or"), ("Result<()>", "Result<(), Error>", "the crate's Result alias"), ("mem::replace(", "core::mem::replace(", "std::mem::replace")]
MSUB = RES + [("Arc<VdevBlock>", "VpArc<VdevBlock>", "Arc"), ("Child", "MChild", "the mirror's Child, renamed"), ("vdev_block::Status", "BStatus", "the leaf's Status, renamed"), ("Status {", "MStatus {", "the mirror's Status, renamed"),
    ("vb.status()", "vb.i.status()", "seen through the Arc"), ("vb.uuid()", "vb.i.uuid()", "seen through the Arc"), ("vb.txg()", "vb.i.txg()", "seen through the Arc"), ("vb.size()", "vb.i.size()", "seen through the Arc"),
    ("nonzero!(1u8)", "NonZeroU8 { n: 1 }", "the macro's constant"), ("std::path::PathBuf::new()", "VpPath::new()", "an empty path")]
RSUB = RES + [("self.inner.", "self.inner.i.", "seen through the Arc"), ("Child", "RChild", "the RAID device's Child, renamed"), ("mirror::Status", "MStatus", "the mirror's Status, renamed"), ("Status {", "RStatus {", "the RAID device's Status, renamed"),
    ("u8::from(n)", "n.vp_get()", "NonZeroU8 as u8")]
FNS = []
DEG = [(".map(Health::Degraded)", ".map(|vp_d| Health::Degraded(vp_d))", "a constructor passed to map, as a closure")]
RT = dict(VdevBlock="BStatus", Mirror="MStatus", VdevRaid="RStatus", NullRaid="RStatus", Cluster="RStatus", Pool="PStatus")
def fn(impl, name, as_impl, sub, file=SOURCE, **k):
    if name == "status" and as_impl in RT: k["ret_type"] = RT[as_impl]
    if name == "as_rebuilding": k["ret_type"] = "Option<&VpArc<VdevBlock>>"
    FNS.append(dict(impl=impl, name=name, as_impl=as_impl, subst=k.pop("subst", []) + sub, file=file, local=True, strs=True, optmap=True, probe_ty=as_impl, **k))
fn("Health", "as_degraded", "Health", [], file=VDEV, ensures=["ret == (match self { Health::Degraded(d) => Some(d), _ => None })"])
fn("Health", "is_faulted", "Health", [], file=VDEV, ensures=["ret == (self is Faulted)"])
fn("VdevBlock", "status", "VdevBlock", [("Status {", "BStatus {", "the leaf's Status, renamed")], file=BLOCK, ensures=["ret.health == Health::Online", "ret.uuid == self.uuid"])
fn("VdevBlock", "uuid", "VdevBlock", [], file=BLOCK, ensures=["ret == self.uuid"])
fn("Child", "as_rebuilding", "MChild", MSUB, ensures=["ret is Some <==> self is Rebuilding"])
fn("Child", "is_rebuilding", "MChild", MSUB, ensures=["ret == (self is Rebuilding)"])
fn("Child", "is_present", "MChild", MSUB, ensures=["ret == (self is Present)"])
fn("Child", "fault", "MChild", MSUB, ensures=["*final(self) == m_fault1(*old(self))"])
fn("Child", "rebuild", "MChild", MSUB, ensures=["*final(self) == m_rebuild1(*old(self))"])
fn("Child", "restore", "MChild", MSUB, requires=["!(*old(self) is Faulted)"], ensures=["*final(self) == m_restore1(*old(self))"], subst=[("Child::Faulted(_) => vp_panic()", "Child::Faulted(_) => vp_never()", "a panicking arm, which must not be reached")])
fn("Child", "uuid", "MChild", MSUB, ensures=["ret == m_uuid(*self)"])
fn("Child", "status", "MChild", MSUB, ensures=["ret is None <==> self is Missing", "ret is Some ==> leaf_ok(*self, ret->0)"])
FOR = dict(fors=True)
def walk(inv, **k): return dict(kind="while", invariant=inv, **k)
CH = "self.children"
def each(name, one, **k):
    fn("Mirror", name, "Mirror", MSUB, pipes=FOR, no_probe=True, **k)
each("fault", "m_fault1", ensures=["match m_find(old(self).children@, uuid) { Some(i) => ret is Ok && final(self).children@ =~= old(self).children@.update(i, m_fault1(old(self).children@[i])), None => ret == Err::<(), Error>(Error::ENOENT) && final(self).children@ =~= old(self).children@ }", "same_mirror(*old(self), *final(self))", "ret is Err ==> *final(self) == *old(self)"],
  loops=[walk(["vp_i <= self.children@.len()", "*self == *old(self)", "forall|j: int| 0 <= j < vp_i ==> m_uuid(#[trigger] self.children@[j]) != uuid"], decreases="self.children@.len() - vp_i", start="lemma_m_find(old(self).children@, uuid);", end="assert(self.children@ =~= old(self).children@); vec_is_its_elements(self.children, old(self).children);")], start="lemma_m_find(old(self).children@, uuid);")
each("rebuild", "m_rebuild1", ensures=["match m_find(old(self).children@, uuid) { Some(i) => ret is Ok && final(self).children@ =~= old(self).children@.update(i, m_rebuild1(old(self).children@[i])), None => ret == Err::<(), Error>(Error::ENOENT) && final(self).children@ =~= old(self).children@ }", "same_mirror(*old(self), *final(self))", "ret is Err ==> *final(self) == *old(self)"],
  loops=[walk(["vp_i <= self.children@.len()", "*self == *old(self)", "forall|j: int| 0 <= j < vp_i ==> m_uuid(#[trigger] self.children@[j]) != uuid"], decreases="self.children@.len() - vp_i", start="lemma_m_find(old(self).children@, uuid);", end="assert(self.children@ =~= old(self).children@); vec_is_its_elements(self.children, old(self).children);")], start="lemma_m_find(old(self).children@, uuid);")
each("restore", "m_restore1", ensures=["final(self).children@.len() == old(self).children@.len()", "forall|j: int| 0 <= j < old(self).children@.len() ==> #[trigger] final(self).children@[j] == m_restore1(old(self).children@[j])", "same_mirror(*old(self), *final(self))"],
  loops=[walk(["vp_i <= self.children@.len()", "same_mirror(*old(self), *self)", "self.children@.len() == old(self).children@.len()", "forall|j: int| 0 <= j < vp_i ==> #[trigger] self.children@[j] == m_restore1(old(self).children@[j])", "forall|j: int| vp_i <= j < self.children@.len() ==> #[trigger] self.children@[j] == old(self).children@[j]"], decreases="self.children@.len() - vp_i")])
fn("Mirror", "uuid", "Mirror", [], ensures=["ret == self.uuid"])
fn("Mirror", "status", "Mirror", MSUB, pre=DEG, pipes=dict(fors=True, types=[None, None, "TxgT"]), ensures=["mirror_ok(*self, ret)"],
  subst=[("if vp_x < vp_m2 { Some(vp_x) } else { Some(vp_m2) }", "", "")][:0],
  loops=[walk(["vp_i <= self.children@.len()", "nchildren == self.children@.len()", "leaves@.len() == vp_i", "forall|j: int| 0 <= j < vp_i ==> leaf_ok(self.children@[j], #[trigger] leaves@[j])"], decreases="self.children@.len() - vp_i"),
         walk(["vp_i1 <= leaves@.len()", "leaves@.len() == self.children@.len()", "forall|j: int| 0 <= j < leaves@.len() ==> leaf_ok(self.children@[j], #[trigger] leaves@[j])", "vp_acc1 == sick(self.children@.take(vp_i1 as int))", "vp_acc1 <= vp_i1"], decreases="leaves@.len() - vp_i1",
              end="assert(self.children@.take(vp_i1 as int).drop_last() =~= self.children@.take(vp_i1 - 1)); assert(leaf_ok(self.children@[vp_i1 - 1], leaves@[vp_i1 - 1]));", after="assert(self.children@.take(self.children@.len() as int) =~= self.children@);"),
         walk(["vp_i2 <= self.children@.len()"], decreases="self.children@.len() - vp_i2")])
# ---- RAID
fn("Child", "as_present_mut", "RChild", RSUB, file=RAID, ensures=["ret is Some <==> *old(self) is Present", "ret is None ==> *final(self) == *old(self)", "ret is Some ==> *ret->0 == old(self)->Present_0 && *final(self) == RChild::Present(*final(ret->0))"])
fn("Child", "is_present", "RChild", RSUB, file=RAID, ensures=["ret == (self is Present)"])
fn("Child", "uuid", "RChild", RSUB, file=RAID, ensures=["ret == r_uuid(*self)"])
fn("Child", "fault", "RChild", RSUB, file=RAID, ensures=["*final(self) == r_fault1(*old(self))", "ret == (if *old(self) is Present { 1int } else { 0 })"])
fn("Child", "restore", "RChild", RSUB, file=RAID, ensures=["r_restored(*old(self), *final(self))", "ret == (if *old(self) is Faulted { 1int } else { 0 })"])
fn("Child", "status", "RChild", RSUB, file=RAID, ensures=["ret is None <==> self is Missing", "ret is Some ==> child_ok(*self, ret->0)"])
fn("VdevRaid", "faulted_children", "VdevRaid", RSUB, file=RAID, requires=["counted(*self)"], ensures=["ret == self.faulted_children"], pipes={},
  loops=[walk(["vp_i <= self.inner.i.children@.len()", "vp_acc == absent(self.inner.i.children@.take(vp_i as int))", "vp_acc <= vp_i"], decreases="self.inner.i.children@.len() - vp_i",
     end="assert(self.inner.i.children@.take(vp_i as int).drop_last() =~= self.inner.i.children@.take(vp_i - 1));", after="assert(self.inner.i.children@.take(self.inner.i.children@.len() as int) =~= self.inner.i.children@);")])
GM = [("Arc::get_mut(&mut self.inner)", "vp_get_mut(&mut self.inner)", "Arc::get_mut")]
KIDS, KIDS0 = "final(self).inner.i.children@", "old(self).inner.i.children@"
fn("VdevRaidApi for VdevRaid", "fault", "VdevRaid", RSUB, file=RAID, pre=GM, pipes=FOR, requires=["counted(*old(self))"], ensures=["counted(*final(self))", "same_raid(*old(self), *final(self))",
   "if uuid == old(self).uuid { ret == Err::<(), Error>(Error::EINVAL) && KIDS =~= KIDS0 } else if !old(self).inner.unique { ret == Err::<(), Error>(Error::EAGAIN) && KIDS =~= KIDS0 } else { match r_find(KIDS0, uuid) { Some(i) => ret is Ok && KIDS =~= KIDS0.update(i, KIDS[i]) && r_faulted(KIDS0[i], KIDS[i], uuid), None => ret == Err::<(), Error>(Error::ENOENT) && KIDS =~= KIDS0 } }".replace("KIDS0", KIDS0).replace("KIDS", KIDS)],
   start="lemma_r_find(%s, uuid); lemma_absent_bound(%s);" % (KIDS0, KIDS0),
   loops=[walk(["vp_i <= inner.children@.len()", "inner.children@ =~= %s" % KIDS0, "inner.codec == old(self).inner.i.codec", "*final(inner) == vp_fin", "self.uuid == old(self).uuid", "self.size == old(self).size", "self.chunksize == old(self).chunksize", "self.faulted_children == old(self).faulted_children", "counted(*old(self))", "uuid != old(self).uuid", "old(self).inner.unique",
      "forall|j: int| 0 <= j < vp_i ==> !r_named(#[trigger] %s[j], uuid)" % KIDS0], decreases="inner.children@.len() - vp_i", start="lemma_absent_update(%s, vp_i as int, RChild::Missing(uuid));" % KIDS0, ghost_before="let ghost vp_fin = *final(inner);")], attrs=["#[verifier::loop_isolation(false)]"],
   end="let s1 = self.inner.i.children@; if let Some(i) = r_find(%s, uuid) { lemma_absent_update(%s, i, s1[i]); assert(s1 =~= %s || s1 =~= %s.update(i, s1[i])); } else { assert(s1 =~= %s); }" % ((KIDS0,) * 5))
fn("VdevRaidApi for VdevRaid", "restore", "VdevRaid", RSUB, file=RAID, pre=GM, requires=["counted(*old(self))", "mirror_idx < %s.len()" % KIDS0], ensures=["counted(*final(self))", "same_raid(*old(self), *final(self))",
   "if old(self).inner.unique { ret is Ok && final(self).inner.i.children@.len() == old(self).inner.i.children@.len() && r_restored(KIDS0[mirror_idx as int], KIDS[mirror_idx as int]) && KIDS =~= KIDS0.update(mirror_idx as int, KIDS[mirror_idx as int]) } else { ret == Err::<(), Error>(Error::EAGAIN) && KIDS =~= KIDS0 }".replace("KIDS0", KIDS0).replace("KIDS", KIDS)],
   start="let s0 = %s; lemma_absent_bound(s0); lemma_absent_update(s0, mirror_idx as int, RChild::Missing(self.uuid)); match s0[mirror_idx as int] { RChild::Faulted(m) => lemma_absent_update(s0, mirror_idx as int, RChild::Present(m)), _ => {} }" % KIDS0,
   end="let s1 = self.inner.i.children@; lemma_absent_update(%s, mirror_idx as int, s1[mirror_idx as int]); assert(s1 =~= %s || s1 =~= %s.update(mirror_idx as int, s1[mirror_idx as int]));" % ((KIDS0,) * 3))
fn("VdevRaidApi for VdevRaid", "status", "VdevRaid", RSUB, file=RAID, requires=["counted(*self)"], ensures=["raid_ok(*self, ret)"], pipes=dict(fors=True, types=[None, "u8"]),
   pre=DEG + [('format!("{}-{},{},{}", self.layout_algorithm, n, k, f)', "vp_string()", "text for display")],
   loops=[walk(["vp_i <= self.inner.i.children@.len()", "mirrors@.len() == vp_i", "forall|j: int| 0 <= j < vp_i ==> child_ok(self.inner.i.children@[j], #[trigger] mirrors@[j])"], decreases="self.inner.i.children@.len() - vp_i"),
          walk(["vp_i1 <= mirrors@.len()", "mirrors@.len() == self.inner.i.children@.len()", "forall|j: int| 0 <= j < mirrors@.len() ==> child_ok(self.inner.i.children@[j], #[trigger] mirrors@[j])", "vp_acc1 == cap(lost(self.inner.i.children@.take(vp_i1 as int)))"], decreases="mirrors@.len() - vp_i1",
               end="assert(self.inner.i.children@.take(vp_i1 as int).drop_last() =~= self.inner.i.children@.take(vp_i1 - 1)); assert(child_ok(self.inner.i.children@[vp_i1 - 1], mirrors@[vp_i1 - 1]));", after="assert(self.inner.i.children@.take(self.inner.i.children@.len() as int) =~= self.inner.i.children@);")])
# ---- the rest of the way up
NSUB = RES + [("Status {", "RStatus {", "the RAID device's Status, renamed"), ('String::from("NonRedundant")', "vp_string()", "text for display")]
fn("VdevRaidApi for NullRaid", "status", "NullRaid", NSUB, file=NULL, ensures=["ret.health == m_health(self.mirror.children@)", "ret.mirrors@.len() == 1 && mirror_ok(self.mirror, ret.mirrors@[0])"])
fn("VdevRaidApi for NullRaid", "fault", "NullRaid", NSUB, file=NULL, ensures=["if uuid == old(self).uuid { ret == Err::<(), Error>(Error::EINVAL) && *final(self) == *old(self) } else { match m_find(old(self).mirror.children@, uuid) { Some(i) => ret is Ok && final(self).mirror.children@ =~= old(self).mirror.children@.update(i, m_fault1(old(self).mirror.children@[i])), None => ret == Err::<(), Error>(Error::ENOENT) && final(self).mirror.children@ =~= old(self).mirror.children@ } }"])
fn("VdevRaidApi for NullRaid", "restore", "NullRaid", NSUB, file=NULL, ensures=["ret is Ok", "m_restored(old(self).mirror, final(self).mirror)"])
fn("Cluster", "status", "Cluster", [], file=CLUSTER, ensures=["ret.health == self.vdev.health_of()"])
fn("Cluster", "fault", "Cluster", RES, file=CLUSTER, ensures=["(ret, final(self).vdev) == old(self).vdev.fault_of(uuid)"])
fn("Pool", "status", "Pool", [("Status {", "PStatus {", "the pool's Status, renamed"), ("self.name().to_string()", "vp_string()", "text for display")], file=POOL, requires=["self.clusters@.len() > 0"], ensures=["worst(self.clusters@, ret.health)"],
   pipes=dict(types=["Vec<RStatus>", "Health"]),
   loops=[walk(["vp_i <= self.clusters@.len()", "vp_acc@.len() == vp_i", "forall|j: int| 0 <= j < vp_i ==> (#[trigger] vp_acc@[j]).health == self.clusters@[j].vdev.health_of()"], decreases="self.clusters@.len() - vp_i"),
          walk(["vp_i1 <= clusters@.len()", "clusters@.len() == self.clusters@.len()", "forall|j: int| 0 <= j < clusters@.len() ==> (#[trigger] clusters@[j]).health == self.clusters@[j].vdev.health_of()", "vp_acc1 is None <==> vp_i1 == 0", "vp_acc1 is Some ==> worst(self.clusters@.take(vp_i1 as int), vp_acc1->0)"], decreases="clusters@.len() - vp_i1",
               end="let s = self.clusters@.take(vp_i1 as int); assert(clusters@[vp_i1 - 1].health == s[vp_i1 - 1].vdev.health_of()); assert forall|j: int| 0 <= j < s.len() implies worse(#[trigger] s[j].vdev.health_of()) <= worse(vp_acc1->0) by { if j < vp_i1 - 1 { assert(self.clusters@.take(vp_i1 - 1)[j] == s[j]); } }", after="assert(self.clusters@.take(self.clusters@.len() as int) =~= self.clusters@);")])
POSTLUDE = ""
