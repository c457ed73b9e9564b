"""Rebuilding a leaf of a mirror: which zones are copied, when the leaf's label is advanced, and what `done` means."""
import os
_f = {}
exec(compile(open(os.path.join(os.path.dirname(os.path.abspath(path)), "fsm.py")).read(), "fsm.py", "exec"), _f)
SOURCE = "bfffs-core/src/cluster.rs"
POOL = "bfffs-core/src/pool.rs"
TYPESRS = "bfffs-core/src/types.rs"
DDML = "bfffs-core/src/ddml/ddml.rs"
HEADER = _f["HEADER"]
_p = _f["PRELUDE"]
def cut(a, b, new):
    global _p
    i = _p.index(a); j = _p.index(b, i)
    _p = _p[:i] + new + _p[j:]
# the device, as what it is asked to do while a leaf is rebuilt
cut("pub struct WS {", "pub open spec fn lbas", """pub struct WS { pub alloc: int, pub wp: Map<ZoneT, int>, pub area: Map<(int, int), Seq<u8>>, pub erased: Set<ZoneT>, pub log: Seq<Req> }
""")
cut("    #[verifier::external_body] pub fn load(&self", "    #[verifier::external_body] pub fn zone_limits(&self, z: ZoneT) -> (r: (LbaT, LbaT)) ensures r.0 == self.dev()", r"""    /// all (None) or the first blocks of a zone are copied to the mirror's rebuilding leaf
    #[verifier::external_body] pub fn repair_mirror_zone(&mut self, m: usize, z: ZoneT, n: Option<NonZeroU64>) -> (r: Result<(), Error>)
        ensures final(self).dev() == old(self).dev(), r is Ok ==> final(self)@.log == old(self)@.log.push(Req::Zone(m, z, nz(n))), r is Err ==> final(self)@.log == old(self)@.log { unimplemented!() }
    #[verifier::external_body] pub fn sync_all(&mut self, m: Option<usize>) -> (r: Result<(), Error>)
        ensures final(self).dev() == old(self).dev(), r is Ok ==> final(self)@.log == old(self)@.log.push(Req::Sync(m)), r is Err ==> final(self)@.log == old(self)@.log { unimplemented!() }
    /// a label is written only when everything before it is stable, and the second one only after the first
    #[verifier::external_body] pub fn repair_label(&mut self, l: LabelWriter, m: usize, txg: TxgT) -> (r: Result<(), Error>)
        requires synced(old(self)@.log, m), l.idx == 1 ==> first_label(old(self)@.log, m, txg)
        ensures final(self).dev() == old(self).dev(), final(self)@.log == old(self)@.log.push(Req::Label(l.idx, m, txg)) { unimplemented!() }
    #[verifier::external_body] pub fn restore(&mut self, m: usize) -> (r: Result<(), Error>)
        ensures final(self).dev() == old(self).dev(), r is Ok ==> final(self)@.log == old(self)@.log.push(Req::Restore(m)), r is Err ==> final(self)@.log == old(self)@.log { unimplemented!() }
""")
PRELUDE = _p + r"""
#[derive(Clone, Copy)] #[verifier::external_body] pub struct NonZeroU64 { x: u64 }
impl NonZeroU64 { pub uninterp spec fn view(&self) -> u64;
    #[verifier::external_body] pub fn new(n: u64) -> (r: Option<NonZeroU64>) ensures n == 0 <==> r is None, r matches Some(x) ==> x@ == n { unimplemented!() } }
pub open spec fn nz(n: Option<NonZeroU64>) -> Option<int> { match n { Some(x) => Some(x@ as int), None => None } }
pub struct LabelWriter { pub idx: u32 }
impl LabelWriter { pub fn new(i: u32) -> (r: Self) ensures r.idx == i { LabelWriter { idx: i } } }
pub enum Req { Zone(usize, ZoneT, Option<int>), Sync(Option<usize>), Label(u32, usize, TxgT), Restore(usize) }
impl BTreeSet<(ZoneT, TxgT)> {
    pub uninterp spec fn pairs(&self) -> Set<(ZoneT, TxgT)>;
    #[verifier::external_body] pub fn vp_new() -> (r: Self) ensures r.pairs() == Set::<(ZoneT, TxgT)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vp_contains(&self, k: &(ZoneT, TxgT)) -> (r: bool) ensures r == self.pairs().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn vp_insert(&mut self, k: (ZoneT, TxgT)) -> (r: bool) ensures final(self).pairs() == old(self).pairs().insert(k) { unimplemented!() }
}
// ---- a queue, as a sequence
pub type VecDeque<T> = Vec<T>;
pub trait VpQueue<T>: Sized { spec fn q(&self) -> Seq<T>; fn pop_front(&mut self) -> (r: Option<T>)
    ensures old(self).q().len() == 0 ==> r is None && final(self).q() == old(self).q(), old(self).q().len() > 0 ==> r == Some(old(self).q()[0]) && final(self).q() == old(self).q().skip(1); }
impl<T> VpQueue<T> for Vec<T> { open spec fn q(&self) -> Seq<T> { self@ } #[verifier::external_body] fn pop_front(&mut self) -> (r: Option<T>) { unimplemented!() } }
pub fn vp_since(t: TxgT) -> (r: RangeFrom<TxgT>) ensures r.start == t { RangeFrom { start: t } }
/// Vec::sort_by_key: the same elements in some order
#[verifier::external_body] pub fn vp_sort(v: &mut Vec<ZoneT>) ensures final(v)@.to_multiset() == old(v)@.to_multiset() { unimplemented!() }
"""
TYPES = _f["TYPES"] + [("struct", "RepairMirrorTask", dict(pub_fields=True)), ("struct", "RepairMirrorZoneSpec", dict(pub_fields=True)), ]
LEMMAS = _f["LEMMAS"] + ["rebuild.lemmas.rs"]
KEEPF = [(None, "spacemap_space"), ("Default for Zone", "default"), ("OpenZone", "write_pointer"), ("FreeSpaceMap", "is_dead"), ("FreeSpaceMap", "is_empty"), ("FreeSpaceMap", "is_open"), ("FreeSpaceMap", "write_pointer"), ("FreeSpaceMap", "open_zone_ids")]
FNS = [f for f in _f["FNS"] if (f["impl"], f["name"]) in KEEPF]
_f["FNS"] = FNS
fn, CP, CS = _f["fn"], _f["CP"], _f["CS"]
fn("contains", ret_type="Vec<ZoneT>", requires=["self.wf()"], pipes=dict(types=["Vec<ZoneT>"]),
   ensures=["ascending(ret@)", "forall|z: ZoneT| ret@.contains(z) <==> #[trigger] wanted(self.zv(z), txgs.start)"],
   loops=[dict(kind="while", invariant=["self.wf()", "s == txgs.start", "vp_i <= self.zones@.len()", "ascending(vp_acc@)", "forall|z: ZoneT| #![trigger vp_acc@.contains(z)] #![trigger wanted(self.zv(z), txgs.start)] vp_acc@.contains(z) <==> (z < vp_i && wanted(self.zv(z), txgs.start))"], decreases="self.zones@.len() - vp_i",
       ghost_start="let ghost vp_o = vp_acc@;", start="assert(self.zone_ok(vp_i as ZoneT));", end="let vp_z = (vp_i - 1) as ZoneT; assert(vp_acc@ != vp_o ==> vp_acc@.len() == vp_o.len() + 1); assert(vp_acc@ != vp_o <==> wanted(self.zv(vp_z), txgs.start)); lemma_grown(vp_o, vp_acc@, vp_z); lemma_rising(vp_o, vp_acc@, vp_z); ", after="assert forall|z: ZoneT| vp_acc@.contains(z) <==> #[trigger] wanted(self.zv(z), txgs.start) by { }")])
fn("dirty_all_zones", ensures=["forall|i: int| #[trigger] final(self).dirty@.contains(i) <==> 0 <= i < old(self).dirty.cap()", "final(self).dirty.cap() == old(self).dirty.cap()", "final(self).zones == old(self).zones", "final(self).open_zones == old(self).open_zones", "final(self).empty_zones == old(self).empty_zones", "final(self).total_zones == old(self).total_zones",
   "old(self).wf() ==> final(self).wf()", "forall|y: ZoneT| #[trigger] final(self).zv(y) == old(self).zv(y)"], end="if old(self).wf() { alike(*old(self), *self); }")
W = [("self.vdev.", "vp_w.", "the device is a parameter"), (".await?", "?", "waiting for a future stands for its result")]
S = [("task.initial_txg..", "vp_since(task.initial_txg)", "a range without end"), ("Result<bool>", "Result<bool, Error>", "types::Result"), ("Result<()>", "Result<(), Error>", "types::Result"), ("BTreeSet::new()", "BTreeSet::<(ZoneT, TxgT)>::vp_new()", "a set of pairs"), ("repaired.contains(", "repaired.vp_contains(", "a set of pairs"), ("repaired.insert(", "repaired.vp_insert(", "a set of pairs")]
def cl(name, fsm="&", w=None, **k):
    ps = ["vp_fsm: %sFreeSpaceMap" % fsm] + (["vp_w: %sWorld" % w] if w else [])
    fn(name, "Cluster", lockparam=("self.fsm", "vp_fsm"), ghost_calls=[(("order_zones_for_repair",), "vp_fsm")], pre=W + k.pop("pre", []), subst=S + CS + k.pop("subst", []), ghost_param=", ".join(ps), **k)
fn("checked_add", "TxgT", file=TYPESRS, pre=[(".map(Self)", ".map(|x| TxgT(x))", "a constructor as a function")], subst=[("Option<Self>", "Option<TxgT>", "")], ensures=["ret is Some <==> self.0 + rhs.0 <= u32::MAX", "ret matches Some(t) ==> t.0 == self.0 + rhs.0"])
cl("order_zones_for_repair", pre=[("zones.sort_by_key(|zid| ( vp_fsm.zones[*zid as usize].txgs.start, vp_fsm.zones[*zid as usize].txgs.end, *zid ) );", "vp_sort(&mut zones);", "Vec::sort_by_key leaves the same zones in some order"), ("zones: zones.into()", "zones: zones", "into a queue")],
   pipes=dict(calls={"contains": "vec", "open_zone_ids": "refs"}, types=["Vec<ZoneT>", "TxgT", "TxgT"]),
   requires=["vp_fsm.wf()"], ensures=["forall|z: ZoneT| ret.zones@.contains(z) <==> (#[trigger] wanted(vp_fsm.zv(z), txgs.start) && (repair_open_zones || !(vp_fsm.zv(z) is Open)))",
      "ret.max_end_txg is None <==> ret.zones@.len() == 0", "ret.max_end_txg matches Some(t) ==> (exists|z: ZoneT| #[trigger] ret.zones@.contains(z) && end_of(vp_fsm.zv(z)) == t) && forall|z: ZoneT| #[trigger] ret.zones@.contains(z) ==> end_of(vp_fsm.zv(z)).0 <= t.0",
      "ret.min_open_txg matches Some(t) ==> forall|z: ZoneT| #[trigger] vp_fsm.zv(z) is Open ==> t.0 <= start_of(vp_fsm.zv(z)).0", "ret.min_open_txg is None ==> forall|z: ZoneT| !(#[trigger] vp_fsm.zv(z) is Open)"])
FNS[-1]["loops"] = [
    dict(kind="while", invariant=["vp_fsm.wf()", "vp_i <= vp_s@.len()", "ascending(vp_s@)", "forall|z: ZoneT| vp_s@.contains(z) <==> #[trigger] wanted(vp_fsm.zv(z), txgs.start)", "forall|z: ZoneT| vp_acc@.contains(z) <==> (#[trigger] done(vp_s@, vp_i as int, z) && (repair_open_zones || !(vp_fsm.zv(z) is Open)))"],
         decreases="vp_s@.len() - vp_i", ghost_start="let ghost vp_o = vp_acc@; let ghost vp_j = vp_i as int;", start="assert(vp_s@.contains(vp_s@[vp_i as int]));", end="lemma_grown(vp_o, vp_acc@, vp_s@[vp_j]); assert forall|z: ZoneT| vp_acc@.contains(z) <==> (#[trigger] done(vp_s@, vp_i as int, z) && (repair_open_zones || !(vp_fsm.zv(z) is Open))) by { lemma_done(vp_s@, vp_j, z); let vp_d = done(vp_s@, vp_j, z); }",
         after="assert(vp_s@.take(vp_s@.len() as int) =~= vp_s@); assert forall|z: ZoneT| vp_acc@.contains(z) <==> (#[trigger] wanted(vp_fsm.zv(z), txgs.start) && (repair_open_zones || !(vp_fsm.zv(z) is Open))) by { let vp_d = done(vp_s@, vp_s@.len() as int, z); }"),
    dict(kind="while", invariant=["vp_fsm.wf()", "vp_i1 <= zones@.len()", "forall|z: ZoneT| zones@.contains(z) ==> #[trigger] wanted(vp_fsm.zv(z), txgs.start)", "vp_acc1 is None <==> vp_i1 == 0",
         "vp_acc1 matches Some(t) ==> (exists|j: int| 0 <= j < vp_i1 && end_of(vp_fsm.zv(#[trigger] zones@[j])) == t) && forall|j: int| 0 <= j < vp_i1 ==> end_of(vp_fsm.zv(#[trigger] zones@[j])).0 <= t.0"], decreases="zones@.len() - vp_i1",
         start="let vp_z = zones@[vp_i1 as int]; assert(zones@.contains(vp_z)); assert(wanted(vp_fsm.zv(vp_z), txgs.start)); lemma_zvopen(*vp_fsm, vp_z); assert(vp_fsm.zone_ok(vp_z));",
         after="assert forall|z: ZoneT| #[trigger] zones@.contains(z) implies vp_acc1 is Some && end_of(vp_fsm.zv(z)).0 <= (vp_acc1->0).0 by { let j = zones@.index_of(z); assert(zones@[j] == z); } if vp_acc1 is Some { let j = choose|j: int| 0 <= j < zones@.len() && end_of(vp_fsm.zv(#[trigger] zones@[j])) == vp_acc1->0; assert(zones@.contains(zones@[j])); }"),
    dict(kind="while", invariant=["vp_fsm.wf()", "vp_i2 <= vp_s2@.len()", "forall|z: ZoneT| vp_s2@.contains(z) <==> #[trigger] vp_fsm.isopen(z)", "vp_acc2 is None <==> vp_i2 == 0",
         "vp_acc2 matches Some(t) ==> forall|j: int| 0 <= j < vp_i2 ==> t.0 <= start_of(vp_fsm.zv(#[trigger] vp_s2@[j])).0"], decreases="vp_s2@.len() - vp_i2",
         start="let vp_z = vp_s2@[vp_i2 as int]; assert(vp_s2@.contains(vp_z)); assert(vp_fsm.isopen(vp_z)); lemma_zvopen(*vp_fsm, vp_z); assert(vp_fsm.zone_ok(vp_z));",
         after="assert forall|z: ZoneT| #[trigger] vp_fsm.zv(z) is Open implies vp_acc2 is Some && (vp_acc2->0).0 <= start_of(vp_fsm.zv(z)).0 by { assert(vp_fsm.isopen(z)); let j = vp_s2@.index_of(z); assert(vp_s2@.contains(z)); assert(vp_s2@[j] == z); }")]
FNS[-1]["after_stmt"] = [("vp_sort(&mut zones);", "lemma_permuted(vp_u, zones@);")]
FNS[-1]["ghost_start"] = "let ghost mut vp_u: Seq<ZoneT> = Seq::empty();"
FNS[-1]["before_stmt"] = [("vp_sort(&mut zones);", "vp_u = zones@;")]
cl("repair_mirror", requires=["vp_fsm.wf()", "ends_ok(*vp_fsm)"], ensures=["ret.initial_txg == txgs.start", "ret.mirror_idx == mirror_idx", "ret.repaired.pairs() == Set::<(ZoneT, TxgT)>::empty()"],
   after_let={"zs": "if zs.max_end_txg is Some { let vp_z = choose|z: ZoneT| #[trigger] zs.zones@.contains(z) && end_of(vp_fsm.zv(z)) == zs.max_end_txg->0; assert(wanted(vp_fsm.zv(vp_z), txgs.start)); }"})
STEPPED = ["final(task).initial_txg == old(task).initial_txg", "final(task).mirror_idx == old(task).mirror_idx", "final(vp_w).dev() == old(vp_w).dev()", "extends(old(vp_w)@.log, final(vp_w)@.log)",
   "repaired(*vp_fsm, old(task).repaired.pairs(), final(task).repaired.pairs(), old(vp_w)@.log, final(vp_w)@.log, old(task).mirror_idx, repair_open_zones)",
   "forall|k: int| old(vp_w)@.log.len() <= k < final(vp_w)@.log.len() ==> allowed(*vp_fsm, final(task).repaired.pairs(), old(task).initial_txg, old(task).mirror_idx, #[trigger] final(vp_w)@.log[k])",
   "ret is Ok && final(vp_w)@.log.len() > old(vp_w)@.log.len() ==> !(final(vp_w)@.log.last() is Label)",
   "ret == Ok::<bool, Error>(false) ==> finished(*vp_fsm, final(task).repaired.pairs(), old(task).initial_txg, repair_open_zones)",
   "ret == Ok::<bool, Error>(true) && old(task).zones@.len() > 0 ==> final(task).zones@ == old(task).zones@.skip(1)",
   "ret == Ok::<bool, Error>(true) && old(task).zones@.len() == 0 ==> final(task).zones@.len() > 0 && forall|z: ZoneT| #[trigger] final(task).zones@.contains(z) ==> wanted(vp_fsm.zv(z), old(task).initial_txg) && start_of(vp_fsm.zv(z)).0 < final(task).next_txg.0"]
STEPREQ = ["vp_fsm.wf()", "ends_ok(*vp_fsm)"]
cl("repair_mirror_step", w="&mut ", pipes=dict(calls={"contains": "vec"}, kinds={"zs.zones": "vec"}, types=["TxgT", "Vec<ZoneT>"]), requires=STEPREQ, ensures=STEPPED,
   ghost_start="broadcast use lemma_more; let ghost vp_l = vp_w@.log; let ghost vp_r = task.repaired.pairs(); let ghost vp_t = task.initial_txg; let ghost vp_m = task.mirror_idx; let ghost mut vp_z: ZoneT = 0;",
   after_stmt=[("task.repaired.vp_insert((zid, start_txg));", "assert(copied(*vp_fsm, vp_l, vp_w@.log, vp_m, zid, vp_l.len() as int)); assert(repaired(*vp_fsm, vp_r, task.repaired.pairs(), vp_l, vp_w@.log, vp_m, repair_open_zones));")],
   loops=[dict(kind="while", invariant=["vp_fsm.wf()", "vp_i <= vp_s@.len()", "forall|z: ZoneT| vp_s@.contains(z) <==> #[trigger] wanted(vp_fsm.zv(z), task.initial_txg)", "task.repaired.pairs() == vp_r", "task.initial_txg == vp_t",
               "vp_acc matches Some(t) ==> t.0 <= TXG_MAX.0", "vp_acc is None ==> forall|j: int| 0 <= j < vp_i ==> !left(*vp_fsm, vp_r, zid, #[trigger] vp_s@[j])", "vp_acc matches Some(t) ==> forall|j: int| 0 <= j < vp_i && left(*vp_fsm, vp_r, zid, #[trigger] vp_s@[j]) ==> t.0 <= start_of(vp_fsm.zv(vp_s@[j])).0"], decreases="vp_s@.len() - vp_i",
               start="let vp_y = vp_s@[vp_i as int]; assert(vp_s@.contains(vp_y)); assert(wanted(vp_fsm.zv(vp_y), task.initial_txg)); lemma_zvopen(*vp_fsm, vp_y); assert(vp_fsm.zone_ok(vp_y));",
               after="lemma_zvopen(*vp_fsm, zid); assert(vp_fsm.zone_ok(zid)); let vp_x = vp_fsm.zv(zid); assert forall|z: ZoneT| #[trigger] wanted(vp_fsm.zv(z), vp_t) && left(*vp_fsm, vp_r, zid, z) implies vp_acc is Some && (vp_acc->0).0 <= start_of(vp_fsm.zv(z)).0 by { assert(vp_s@.contains(z)); let j = vp_s@.index_of(z); assert(vp_s@[j] == z); }"),
          dict(kind="while", invariant=["vp_fsm.wf()", "vp_i1 <= vp_s1@.len()", "vp_s1@ == zs.zones@", "task.repaired.pairs() == vp_r", "forall|z: ZoneT| #[trigger] zs.zones@.contains(z) ==> wanted(vp_fsm.zv(z), vp_t)", "forall|z: ZoneT| #[trigger] vp_acc1@.contains(z) ==> zs.zones@.contains(z)",
               "vp_acc1@.len() == 0 ==> forall|j: int| 0 <= j < vp_i1 ==> vp_r.contains((#[trigger] vp_s1@[j], start_of(vp_fsm.zv(vp_s1@[j]))))"], decreases="vp_s1@.len() - vp_i1",
               ghost_start="let ghost vp_o = vp_acc1@; let ghost vp_y = vp_s1@[vp_i1 as int];", start="assert(zs.zones@.contains(vp_y)); assert(wanted(vp_fsm.zv(vp_y), vp_t)); lemma_zvopen(*vp_fsm, vp_y); assert(vp_fsm.zone_ok(vp_y));",
               end="lemma_grown(vp_o, vp_acc1@, vp_y);",
               after="if vp_acc1@.len() == 0 { assert forall|z: ZoneT| #[trigger] zs.zones@.contains(z) implies vp_r.contains((z, start_of(vp_fsm.zv(z)))) by { let j = vp_s1@.index_of(z); assert(vp_s1@[j] == z); } }")])
cl("restore", fsm="&mut ", w="&mut ", requires=["old(vp_fsm).wf()"], ensures=["final(vp_fsm).wf()", "forall|y: ZoneT| #[trigger] final(vp_fsm).zv(y) == old(vp_fsm).zv(y)", "final(vp_fsm).total_zones == old(vp_fsm).total_zones",
   "ret is Err ==> *final(vp_fsm) == *old(vp_fsm) && final(vp_w)@.log == old(vp_w)@.log", "ret is Ok ==> final(vp_w)@.log == old(vp_w)@.log.push(Req::Restore(mirror_idx)) && forall|b: int| 0 <= b < blocks(final(vp_fsm).total_zones as int) ==> final(vp_fsm).dirty@.contains(b)", "final(vp_w).dev() == old(vp_w).dev()"])
# ---- the task that drives it
PRELUDE += r"""
/// the pool: whoever locks it finds its map as others left it; while it is locked for writing nobody else changes it
pub struct VpWeak { x: u8 }
pub struct VpPool { x: u8 }
pub struct VpGuard { x: u8 }
pub struct Uuid { x: u8 }
impl VpWeak { #[verifier::external_body] pub fn upgrade(&self) -> (r: Option<VpPool>) { unimplemented!() } }
impl VpPool { #[verifier::external_body] pub fn write(&self, vp_fsm: &mut FreeSpaceMap, vp_w: &mut World) -> (r: VpGuard)
    ensures final(vp_fsm).wf(), ends_ok(*final(vp_fsm)), *final(vp_w) == *old(vp_w) { unimplemented!() } }
pub struct PoolTask { pub task: RepairMirrorTask }
"""
PRELUDE2 = r"""
impl VpGuard {
    fn repair_mirror_step(&mut self, task: &mut PoolTask, repair_open_zones: bool, vp_fsm: &FreeSpaceMap, vp_w: &mut World) -> (ret: Result<bool, Error>) requires REQ, ensures ENS
    { let c = Cluster { x: 0 }; c.repair_mirror_step(&mut task.task, repair_open_zones, vp_fsm, vp_w) }
    fn restore(&mut self, cl_idx: usize, m_idx: usize, vp_fsm: &mut FreeSpaceMap, vp_w: &mut World) -> (ret: Result<(), Error>) requires old(vp_fsm).wf()
        ensures final(vp_fsm).wf(), forall|y: ZoneT| #[trigger] final(vp_fsm).zv(y) == old(vp_fsm).zv(y), final(vp_w)@.log == old(vp_w)@.log || ret is Ok && final(vp_w)@.log == old(vp_w)@.log.push(Req::Restore(m_idx)),
            ret is Ok ==> forall|b: int| 0 <= b < blocks(final(vp_fsm).total_zones as int) ==> final(vp_fsm).dirty@.contains(b)
    { let mut c = Cluster { x: 0 }; c.restore(m_idx, vp_fsm, vp_w) }
}
""".replace("REQ", ", ".join(STEPREQ)).replace("ENS", ", ".join(STEPPED).replace("old(task).", "old(task).task.").replace("final(task).", "final(task).task."))
POSTLUDE = PRELUDE2
TYPES += [("struct", "MirrorRepairTask", dict(file=DDML, pub_fields=True, subst=[("Weak<RwLock<Pool>>", "VpWeak"), ("pool::RepairMirrorTask", "PoolTask")]))]
NOREST = "forall|k: int| old(vp_w)@.log.len() <= k < %s ==> !(#[trigger] final(vp_w)@.log[k] is Restore)"
fn("finalize", "MirrorRepairTask", file=DDML, ghost_param="vp_fsm: &mut FreeSpaceMap, vp_w: &mut World", ghost_calls=[(("write", "repair_mirror_step", "restore"), "vp_fsm, vp_w")],
   pre=[(".await", "", "waiting for a future stands for its result")], subst=[("Result<()>", "Result<(), Error>", "types::Result")],
   requires=["old(self).pool_task.task.mirror_idx == old(self).m_idx"],
   ensures=["extends(old(vp_w)@.log, final(vp_w)@.log)", "forall|k: int| old(vp_w)@.log.len() <= k < final(vp_w)@.log.len() && #[trigger] final(vp_w)@.log[k] is Restore ==> k == final(vp_w)@.log.len() - 1 && final(vp_w)@.log[k] == Req::Restore(old(self).m_idx) && finished(*final(vp_fsm), final(self).pool_task.task.repaired.pairs(), old(self).pool_task.task.initial_txg, true) && forall|b: int| 0 <= b < blocks(final(vp_fsm).total_zones as int) ==> final(vp_fsm).dirty@.contains(b)"],
   ghost_start="let ghost vp_l = vp_w@.log; let ghost vp_t = self.pool_task.task.initial_txg; let ghost vp_m = self.m_idx;",
   loops=[dict(kind="loop", invariant=["vp_l == old(vp_w)@.log", "vp_t == old(self).pool_task.task.initial_txg", "vp_m == old(self).m_idx", "vp_fsm.wf()", "ends_ok(*vp_fsm)", "self.m_idx == vp_m", "self.pool_task.task.mirror_idx == vp_m", "self.pool_task.task.initial_txg == vp_t", "extends(vp_l, vp_w@.log)", "forall|k: int| vp_l.len() <= k < vp_w@.log.len() ==> !(#[trigger] vp_w@.log[k] is Restore)"], ensures=["finished(*vp_fsm, self.pool_task.task.repaired.pairs(), vp_t, true)"])],
   attrs=["#[verifier::exec_allows_no_decreases_clause]"])
