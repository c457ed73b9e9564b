"""A mirror that is found again: whose label counts, which leaves are up to date, and what labels its leaves are given."""
SOURCE = "bfffs-core/src/mirror.rs"
TYPESRS = "bfffs-core/src/types.rs"
HEADER = """#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, unused_braces)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering as VpOrd;
use core::mem;
verus! {
global size_of usize == 8;
"""
PRELUDE = r"""
fn vp_panic() requires false {}
#[verifier::external_body] fn vp_never() -> (r: Child) requires false { unimplemented!() }
pub type LbaT = u64;
pub fn vp_id<T>(x: T) -> (r: T) ensures r == x { x }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct Uuid { pub n: u128 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum Error { EINVAL, ENOENT, EIO }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct TxgT(pub u32);
/// #[derive(PartialOrd, Ord)] on TxgT
impl PartialOrdSpecImpl for TxgT { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &TxgT) -> Option<VpOrd> { Some(if self.0 < o.0 { VpOrd::Less } else if self.0 == o.0 { VpOrd::Equal } else { VpOrd::Greater }) } }
impl PartialOrd for TxgT { #[verifier::external_body] fn partial_cmp(&self, o: &TxgT) -> (r: Option<VpOrd>) { unimplemented!() } }
pub fn vp_min(a: TxgT, b: TxgT) -> (r: TxgT) ensures r == (if a.0 <= b.0 { a } else { b }) { if b < a { b } else { a } }
pub fn vp_u32(t: TxgT) -> (r: u32) ensures r == t.0 { t.0 }
impl TxgT { pub fn vp_from(n: u32) -> (r: TxgT) ensures r.0 == n { TxgT(n) } pub fn vp_u32(self) -> (r: u32) ensures r == self.0 { self.0 } }
#[verifier::external] impl core::fmt::Debug for Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
pub trait VpOr<T>: Sized { spec fn o(&self) -> Option<T>; fn vp_or(self, e: Option<T>) -> (r: Option<T>) ensures r == (if self.o() is Some { self.o() } else { e }); }
impl<T> VpOr<T> for Option<T> { open spec fn o(&self) -> Option<T> { *self } fn vp_or(self, e: Option<T>) -> (r: Option<T>) { match self { Some(x) => Some(x), None => e } } }
/// a leaf: the transaction of its label, and who it is
#[verifier::external_body] pub struct VdevBlock { x: u8 }
impl VdevBlock {
    pub uninterp spec fn t(&self) -> TxgT;
    pub uninterp spec fn id(&self) -> Uuid;
    pub uninterp spec fn sz(&self) -> u64;
    pub uninterp spec fn zsz(&self) -> u64;
    pub uninterp spec fn depth(&self) -> u32;
    #[verifier::external_body] pub fn txg(&self) -> (r: TxgT) ensures r == self.t() { unimplemented!() }
    #[verifier::external_body] pub fn uuid(&self) -> (r: Uuid) ensures r == self.id() { unimplemented!() }
    #[verifier::external_body] pub fn size(&self) -> (r: LbaT) ensures r == self.sz() { unimplemented!() }
    #[verifier::external_body] pub fn lbas_per_zone(&self) -> (r: LbaT) ensures r == self.zsz() { unimplemented!() }
    #[verifier::external_body] pub fn optimum_queue_depth(&self) -> (r: u32) ensures r == self.depth() { unimplemented!() }
    #[verifier::external_body] pub fn write_label(&self, l: LabelWriter, txg: TxgT, vp_w: &mut World) -> (r: VpFut)
        ensures final(vp_w).log() == old(vp_w).log().push((self.id(), txg, l.label())), final(vp_w).txg() == old(vp_w).txg(), final(vp_w).syncs() == old(vp_w).syncs() { unimplemented!() }
    #[verifier::external_body] pub fn sync_all(&self, vp_w: &mut World) -> (r: VpFut)
        ensures final(vp_w).syncs() == old(vp_w).syncs().push(self.id()), final(vp_w).txg() == old(vp_w).txg(), final(vp_w).log() == old(vp_w).log() { unimplemented!() }
}
/// the label read from a leaf: the mirror's part is next
#[verifier::external_body] pub struct LabelReader { x: u8 }
impl LabelReader { pub uninterp spec fn next(&self) -> Label; pub uninterp spec fn src(&self) -> int;
    #[verifier::external_body] pub fn deserialize(&mut self) -> (r: Result<Label, Error>) ensures r == Ok::<Label, Error>(old(self).next()), final(self).src() == old(self).src() { unimplemented!() } }
#[verifier::external_body] pub struct LabelWriter { x: u8 }
impl LabelWriter { pub uninterp spec fn label(&self) -> Label;
    #[verifier::external_body] pub fn serialize(&mut self, l: &Label) -> (r: Result<(), Error>) ensures r is Ok, final(self).label() == *l { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: LabelWriter) ensures r.label() == self.label() { unimplemented!() } }
/// Arc<T>, T seen through it
pub struct VpArc<T> { pub i: T }
impl<T> VpArc<T> { pub fn new(i: T) -> (r: Self) ensures r.i == i { VpArc { i } } }
/// BTreeMap<Uuid, T>
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VpMap<T> { x: std::marker::PhantomData<T> }
impl<T> VpMap<T> {
    pub uninterp spec fn view(&self) -> Map<Uuid, T>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Uuid, T>::empty() { unimplemented!() }
    /// collect: a later entry replaces an earlier one of the same key
    #[verifier::external_body] pub fn push(&mut self, p: (Uuid, T)) ensures final(self)@ == old(self)@.insert(p.0, p.1) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Uuid, v: T) -> (r: Option<T>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &Uuid) -> (r: Option<T>) ensures final(self)@ == old(self)@.remove(*k), r is Some <==> old(self)@.dom().contains(*k), r is Some ==> r->0 == old(self)@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &Uuid) -> (r: Option<&mut T>) ensures r is Some <==> old(self)@.dom().contains(*k), r is Some ==> *r->0 == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->0)), r is None ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() == Set::<Uuid>::empty()) { unimplemented!() }
}
/// slice::contains
#[verifier::external_body] pub fn vp_has(v: &Vec<Uuid>, u: &Uuid) -> (r: bool) ensures r == v@.contains(*u) { unimplemented!() }
#[verifier::external_body] pub fn vp_take<T>(v: &mut Vec<T>, i: usize) -> (r: T) requires i < old(v)@.len() ensures r == old(v)@[i as int], final(v)@ == old(v)@ { unimplemented!() }
#[verifier::external_body] pub struct VpInner { x: u8 }
impl VpInner { #[verifier::external_body] pub fn new(n: u32) -> (r: VpInner) { unimplemented!() } #[verifier::external_body] pub fn clone(&self) -> (r: VpInner) { unimplemented!() } }
pub assume_specification<T> [core::mem::replace::<T>] (a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
/// the labels that were given to leaves, the leaves asked to sync, and the mirror's counter, which its futures share
#[verifier::external_body] pub struct World { x: u8 }
impl World { pub uninterp spec fn log(&self) -> Seq<(Uuid, TxgT, Label)>; pub uninterp spec fn syncs(&self) -> Seq<Uuid>; pub uninterp spec fn txg(&self) -> TxgT;
    #[verifier::external_body] pub fn load(&self) -> (r: TxgT) ensures r == self.txg() { unimplemented!() }
    #[verifier::external_body] pub fn store(&mut self, t: TxgT) ensures final(self).txg() == t, final(self).log() == old(self).log(), final(self).syncs() == old(self).syncs() { unimplemented!() } }
/// a future that has been waited for
#[verifier::external_body] pub struct VpFut { x: u8 }
impl VpFut { pub uninterp spec fn ok(&self) -> bool; #[verifier::external_body] pub fn is_ok(&self) -> (r: bool) ensures r == self.ok() { unimplemented!() } }
/// FuturesUnordered: run all of them; the first error is the result
#[verifier::external_body] pub struct VpFuts { x: u8 }
impl VpFuts { #[verifier::external_body] pub fn new() -> Self { unimplemented!() } #[verifier::external_body] pub fn push(&mut self, f: VpFut) { unimplemented!() } #[verifier::external_body] pub fn vp_all(self) -> VpFut { unimplemented!() } }
pub type Pair = (VdevBlock, LabelReader);
/// FuturesUnordered of what was found: the results, in some order
#[verifier::external_body] pub fn vp_any_order(v: Vec<Result<Pair, Error>>) -> (r: Vec<Result<Pair, Error>>) ensures forall|x: Result<Pair, Error>| #[trigger] r@.contains(x) <==> v@.contains(x), r@.len() == v@.len(), ids_differ(v@) ==> ids_differ(r@) { unimplemented!() }
/// what the layer below has found on devices
#[verifier::external_body] pub struct VpBlockManager { x: u8 }
#[verifier::external_body] pub struct VpPath { x: u8 }
impl VpBlockManager {
    pub uninterp spec fn devs(&self) -> Map<Uuid, Pair>;
    #[verifier::external_body] pub fn taste(&mut self, p: VpPath) -> (r: Result<LabelReader, Error>) ensures r matches Ok(x) ==> x.next() == label_of(x.src()) { unimplemented!() }
    /// a device leaves the manager when it is imported
    #[verifier::external_body] pub fn import(&mut self, u: Uuid) -> (r: Result<Pair, Error>)
        ensures final(self).devs() == old(self).devs().remove(u), r is Ok <==> old(self).devs().dom().contains(u) && reachable(u), r is Ok ==> r == Ok::<Pair, Error>(old(self).devs()[u]) { unimplemented!() } }
"""
TYPES = [("struct", "Label", dict(pub_fields=True)), ("enum", "Child", dict(subst=[("enum Child", "pub enum Child"), ("Arc<VdevBlock>", "VpArc<VdevBlock>")])),
    ("struct", "Mirror", dict(pub_fields=True, subst=[("Arc<AtomicU32>", "VpInner"), ("AtomicU32", "VpInner")])),
    ("struct", "Manager", dict(pub_fields=True, subst=[("crate::vdev_block::Manager", "VpBlockManager"), ("BTreeMap<Uuid, Label>", "VpMap<Label>")]))]
LEMMAS = ["reopen.lemmas.rs"]
FNS = []
S = [("Arc<VdevBlock>", "VpArc<VdevBlock>", "Arc"), ("Arc::new(", "VpArc::new(", "Arc"), ("VdevBlockFut", "VpFut", "a future"), ("BoxVdevFut", "VpFut", "a future")] + [("%s.%s(" % (v, m), "%s.i.%s(" % (v, m), "seen through the Arc") for v in ("vb", "first") for m in ("write_label", "uuid", "size", "lbas_per_zone", "optimum_queue_depth", "sync_all")]
def fn(impl, name, **k):
    FNS.append(dict(impl=impl, name=name, subst=S + k.pop("subst", []), optmap=k.pop("optmap", True), **k))
fn("Child", "present", ensures=["ret == Child::Present(VpArc { i: vdev })"])
fn("Child", "rebuilding", ensures=["ret == Child::Rebuilding(VpArc { i: vdev })"])
fn("Child", "missing", ensures=["ret == Child::Missing(uuid)"])
fn("Child", "as_present", ret_type="Option<&VpArc<VdevBlock>>", ensures=["ret is Some <==> self is Present", "ret matches Some(v) ==> *v == self->Present_0"])
fn("Child", "as_rebuilding", ret_type="Option<&VpArc<VdevBlock>>", ensures=["ret is Some <==> self is Rebuilding", "ret matches Some(v) ==> *v == self->Rebuilding_0"])
fn("Child", "as_vdev", ret_type="Option<&VpArc<VdevBlock>>", ensures=["ret is None <==> self is Missing", "ret matches Some(v) ==> v.i == vdev_of(*self)"])
fn("Child", "is_present", ensures=["ret <==> self is Present"])
fn("Child", "is_rebuilding", ensures=["ret <==> self is Rebuilding"])
fn("Child", "uuid", ensures=["ret == uuid_of(*self)"])
fn("Child", "size", ensures=["ret is None <==> self is Missing", "ret matches Some(n) ==> n == vdev_of(*self).sz()"])
fn("Child", "optimum_queue_depth", ensures=["ret is Some <==> self is Present", "ret matches Some(n) ==> n == vdev_of(*self).depth()"])
fn("Child", "restore", pre=[("Uuid::default()", "Uuid { n: 0 }", "the nil uuid")], subst=[("=> vp_panic()", "=> vp_never()", "a panic in an expression")], requires=["!(*old(self) is Faulted)"], ensures=["*final(self) == restored(*old(self))"])
L = "vp_w: &mut World"
KEPT = ["final(vp_w).txg() == old(vp_w).txg()", "final(vp_w).syncs() == old(vp_w).syncs()"]
for nm, k in (("write_label", "Present"), ("repair_label", "Rebuilding")):
    fn("Child", nm, ghost_param=L, ghost_calls=[(("write_label",), "vp_w")], ensures=KEPT + ["ret is Some <==> self is %s" % k, "final(vp_w).log() == (if self is %s { old(vp_w).log().push((uuid_of(*self), txg, labeller.label())) } else { old(vp_w).log() })" % k])
fn("Child", "sync_all", ghost_param=L, ghost_calls=[(("sync_all",), "vp_w")], pre=[(".or_else(|| self.as_rebuilding())", ".vp_or(self.as_rebuilding())", "a closure without effect")],
   ensures=["final(vp_w).txg() == old(vp_w).txg()", "final(vp_w).log() == old(vp_w).log()", "final(vp_w).syncs() == (if self is Present || self is Rebuilding { old(vp_w).syncs().push(uuid_of(*self)) } else { old(vp_w).syncs() })"])
fn("Mirror", "new", ret_type="Result<Mirror, Error>", pre=[("in vdevs {", "in vdevs.into_iter() {", "the rest of an iterator"), ("vdevs.next()", "vp_next(&mut vdevs)", "an iterator, as what is left of it"), ("Ok(Self {", "Ok(Mirror {", ""), ("Arc::new(AtomicU32::new(0))", "VpInner::new(0)", "the counter"), ("AtomicU32::new(0)", "VpInner::new(0)", "not used here")],
   pipes=dict(fors=True, lazy=True, kinds={"vdevs": "vec"}, types=["Vec<&VpArc<VdevBlock>>", None, "u32", "LbaT"]),
   requires=["exists|j: int| 0 <= j < children@.len() && #[trigger] children@[j] is Present"],
   ensures=["ret matches Ok(m) ==> m.uuid == uuid && m.children == children && alike(children@) && (forall|j: int| #![trigger m.children@[j]] 0 <= j < m.children@.len() && !(m.children@[j] is Missing) ==> m.size == vdev_of(m.children@[j]).sz())",
            "ret is Err ==> !alike(children@)"])
FNS[-1]["loops"] = [dict(kind="while", invariant=["vp_i <= children@.len()", "is_list(vp_acc@, listed(children@, vp_i as int))"], decreases="children@.len() - vp_i", after="lemma_listed(children@, children@.len() as int); vp_v = vp_acc@;"),
    dict(kind="while", invariant=["vp_i1 <= vp_s1@.len()", "is_list(vp_v, listed(children@, children@.len() as int))", "vp_v.len() > 0", "vp_s1@ == vp_v.skip(1)", "*first == *vp_v[0]", "child_size == first.i.sz()", "lbas_per_zone == first.i.zsz()", "forall|k: int| #![trigger vp_v[k]] 0 <= k <= vp_i1 ==> vp_v[k].i.sz() == child_size && vp_v[k].i.zsz() == lbas_per_zone"], decreases="vp_s1@.len() - vp_i1",
         start="assert(vp_s1@[vp_i1 as int] == vp_v[vp_i1 + 1]); lemma_listed(children@, children@.len() as int); lemma_alike(children@, 0, vp_i1 + 1);", after="lemma_same(children@, child_size, lbas_per_zone);"),
    dict(kind="while", invariant=["vp_i2 <= children@.len()", "(exists|j: int| 0 <= j < vp_i2 && #[trigger] children@[j] is Present) ==> vp_acc2 is Some"], decreases="children@.len() - vp_i2"),
    dict(kind="while", invariant=["vp_i3 <= children@.len()", "vp_acc3 is None ==> forall|j: int| 0 <= j < vp_i3 ==> #[trigger] children@[j] is Missing", "vp_acc3 matches Some(n) ==> exists|j: int| 0 <= j < children@.len() && !(#[trigger] children@[j] is Missing) && vdev_of(children@[j]).sz() == n"], ensures=["vp_acc3 is Some || vp_i3 == children@.len()"], decreases="children@.len() - vp_i3")]
FNS[-1]["ghost_start"] = "let ghost mut vp_v: Seq<&VpArc<VdevBlock>> = Seq::empty(); proof { lemma_listed(children@, children@.len() as int); }"
FNS[-1]["before_tail"] = "assert(alike(children@)) by { if listed(children@, children@.len() as int).len() == 0 { lemma_none(children@); } }"
OPENREQ = ["pairs_ok(uuid, combined@)"]
fn("Mirror", "open", ghost_param=L, pre=[("let mut label_pair = None", "let mut label_pair: Option<(Label, LabelReader)> = None", "its type"), ("let mut leaves = combined.into_iter()", "let vp_own = combined; let mut leaves = vp_own.into_iter()", "by value"), ("collect::<BTreeMap<Uuid, VdevBlock>>()", "collect::<VpMap<VdevBlock>>()", "BTreeMap"), ("mirror.txg.store(highest_txg.into(), Ordering::Relaxed)", "vp_w.store(highest_txg)", "the counter is a parameter")],
   subst=[("Result<(Self, LabelReader)>", "Result<(Mirror, LabelReader), Error>", "types::Result")], pipes=dict(fors=True, kinds={"vp_own": "vec"}, types=["TxgT", "VpMap<VdevBlock>"]),
   requires=["pairs_ok(uuid, combined@)"], ensures=["final(vp_w).log() == old(vp_w).log()", "final(vp_w).syncs() == old(vp_w).syncs()", "ret matches Ok(p) ==> opened(combined@, p.0, p.1, final(vp_w).txg())"],
   ghost_start="let ghost vp_c = combined@;", after_let={"leaves": "lemma_found(vp_c, vp_c.len() as int); assert(leaves@.dom().contains(vp_c[0].0.id()));"},
   loops=[dict(kind="while", invariant=["vp_i <= combined@.len()", "vp_acc is None <==> vp_i == 0", "vp_acc matches Some(t) ==> exists|j: int| 0 <= j < vp_i && (#[trigger] combined@[j]).0.t() == t", "vp_acc matches Some(t) ==> forall|j: int| 0 <= j < vp_i ==> (#[trigger] combined@[j]).0.t().0 <= t.0"], decreases="combined@.len() - vp_i"),
          dict(kind="while", invariant=["vp_i1 <= vp_s1@.len()", "vp_s1@ == vp_c", "pairs_ok(uuid, vp_c)", "vp_acc1@ =~= found(vp_c, vp_i1 as int)", "label_pair is Some <==> (exists|j: int| 0 <= j < vp_i1 && (#[trigger] vp_c[j]).0.t() == highest_txg)",
               "label_pair matches Some(p) ==> exists|j: int| 0 <= j < vp_i1 && (#[trigger] vp_c[j]).0.t() == highest_txg && vp_c[j].1.src() == p.1.src() && p.0 == vp_c[j].1.next()"], decreases="vp_s1@.len() - vp_i1"),
          dict(kind="while", invariant=["vp_i2 <= label.children@.len()", "children@.len() == vp_i2", "pairs_ok(uuid, vp_c)", "label.children@.no_duplicates()",
              "forall|u: Uuid| #[trigger] leaves@.dom().contains(u) <==> (known(vp_c, u) && !label.children@.take(vp_i2 as int).contains(u))", "forall|u: Uuid| #[trigger] leaves@.dom().contains(u) ==> leaves@[u].id() == u && isin(vp_c, leaves@[u])", "forall|j: int| 0 <= j < vp_i2 ==> child_ok(vp_c, #[trigger] children@[j], label.children@[j], highest_txg)",
              "forall|j: int| 0 <= j < vp_c.len() ==> (#[trigger] vp_c[j]).0.t().0 <= highest_txg.0"], decreases="label.children@.len() - vp_i2",
              start="lemma_step(label.children@, vp_i2 as int);", after="lemma_up_to_date(vp_c, children@, label.children@, highest_txg);")])
fn("Mirror", "txg", ghost_param="vp_w: &World", pre=[("self.txg.load(Ordering::Relaxed).into()", "vp_w.load()", "the counter is a parameter")], ensures=["ret == vp_w.txg()"])
fn("Mirror", "restore", pre=[("child.restore();", "child.restore();", "")], pipes=dict(fors=True), requires=["true"],
   ensures=["final(self).children@.len() == old(self).children@.len()", "forall|j: int| 0 <= j < old(self).children@.len() ==> #[trigger] final(self).children@[j] == restored(old(self).children@[j])", "final(self).uuid == old(self).uuid"],
   ghost_start="let ghost vp_o = *self;",
   loops=[dict(kind="while", invariant=["vp_i <= self.children@.len()", "self.children@.len() == vp_o.children@.len()", "self.uuid == vp_o.uuid", "forall|j: int| 0 <= j < vp_o.children@.len() ==> #[trigger] self.children@[j] == (if j < vp_i { restored(vp_o.children@[j]) } else { vp_o.children@[j] })"], decreases="self.children@.len() - vp_i")])
AL = [("Box::pin(fut)", "fut", "boxing"), ("-> BoxVdevFut", "-> VpFut", "a future")]
FU = [(".try_collect::<Vec<_>>() .map_ok(drop)", ".vp_all()", "futures stand for their results")]
fn("Mirror", "sync_all", ghost_param=L, ghost_calls=[(("sync_all",), "vp_w")], pre=AL + FU + [(".filter_map(Child::sync_all)", ".filter_map(|c| c.sync_all())", "a method as a function")], pipes=dict(types=["VpFuts"]),
   ensures=["final(vp_w).txg() == old(vp_w).txg()", "final(vp_w).log() == old(vp_w).log()", "final(vp_w).syncs() == old(vp_w).syncs() + synced(self.children@, self.children@.len() as int)"],
   loops=[dict(kind="while", invariant=["vp_i <= self.children@.len()", "vp_w.txg() == old(vp_w).txg()", "vp_w.log() == old(vp_w).log()", "vp_w.syncs() =~= old(vp_w).syncs() + synced(self.children@, vp_i as int)"], decreases="self.children@.len() - vp_i")])
T1 = "given(repairing, txg, old(vp_w).txg())"
fn("Mirror", "write_label", ghost_param=L, ghost_calls=[(("repair_label", "write_label"), "vp_w"), (("txg",), "vp_w")],
   pre=AL + [(".try_collect::<Vec<_>>() .map_ok(move |_| {", ".vp_all(); if fut.is_ok() {", "futures stand for their results"), ("}); fut", "} fut", ""), ("mirror_txg.store(txg.into(), Ordering::Relaxed)", "vp_w.store(txg)", "the counter is a parameter"),
       ("TxgT::from(", "TxgT::vp_from(", "into"), ("u32::from(", "vp_u32(", "into"), ("txg.min(", "vp_min(txg, ", "Ord::min"), (".map(Child::uuid)", ".map(|c| c.uuid())", "a method as a function")],
   pipes=dict(types=["Vec<Uuid>", "VpFuts"]),
   ensures=["final(vp_w).syncs() == old(vp_w).syncs()", "exists|l: Label| l.uuid == self.uuid && l.children@ == uuids(self.children@) && final(vp_w).log() == old(vp_w).log() + #[trigger] labelled(self.children@, self.children@.len() as int, repairing, %s, l)" % T1,
       "final(vp_w).txg() == old(vp_w).txg() || !repairing && ret.ok() && final(vp_w).txg() == txg", "!repairing && ret.ok() ==> final(vp_w).txg() == txg"],
   ghost_start="let ghost vp_t = txg;", before_tail="assert(given(repairing, vp_t, old(vp_w).txg()) == txg); assert(vp_w.log() =~= old(vp_w).log() + labelled(self.children@, self.children@.len() as int, repairing, given(repairing, vp_t, old(vp_w).txg()), label));",
   loops=[dict(kind="while", invariant=["vp_i <= self.children@.len()", "vp_acc@ =~= uuids(self.children@).take(vp_i as int)"], decreases="self.children@.len() - vp_i", after="assert(uuids(self.children@).take(self.children@.len() as int) =~= uuids(self.children@));"),
          dict(kind="while", invariant=["vp_i1 <= self.children@.len()", "vp_w.txg() == old(vp_w).txg()", "vp_w.syncs() == old(vp_w).syncs()", "labeller.label() == label", "vp_w.log() =~= old(vp_w).log() + labelled(self.children@, vp_i1 as int, repairing, txg, label)"], decreases="self.children@.len() - vp_i1")])
# ---- leaves of mirrors that are not open yet
MP = [("collect::<FuturesUnordered<_>>() .collect::<Vec<_>>() .map(move |v| {", "collect(); { let v = vp_any_order(v);", "futures stand for their results, in any order"), ("ml.children.into_iter()", "let vp_own = ml.children; let v = vp_own.into_iter()", "by value"), ("Err(error) } })", "Err(error) } }", ""), ("futures::future::err(", "Err(", "a future that is ready"),
      ("in v.into_iter()", "in vp_own2.into_iter()", ""), ("let mut pairs = Vec::with_capacity(v.len());", "let mut pairs: Vec<Pair> = Vec::with_capacity(v.len()); let vp_own2 = v;", "its type")]
fn("Manager", "import", ghost_param=L, ghost_calls=[(("Mirror::open",), "vp_w"), (("open",), "vp_w")], pre=MP, ret_type="Result<(Mirror, LabelReader), Error>", pipes=dict(fors=True, kinds={"vp_own": "vec", "vp_own2": "vec"}, types=["Vec<Result<Pair, Error>>"]),
   requires=["importable(*old(self), uuid)"], ensures=["ret matches Ok(p) ==> exists|c: Seq<Pair>| #[trigger] opened(c, p.0, p.1, final(vp_w).txg()) && all_of(old(self).vbm.devs(), old(self).mirrors@[uuid].children@, c)", "old(self).mirrors@.dom().contains(uuid) || ret is Err"],
   ghost_start="let ghost vp_d = self.vbm.devs(); let ghost vp_m = *self; let ghost vp_k = self.mirrors@[uuid].children@; let ghost mut vp_e: Seq<Result<Pair, Error>> = Seq::empty();",
   loops=[dict(kind="while", invariant=["vp_i <= vp_s@.len()", "vp_s@ == vp_k", "vp_k.no_duplicates()", "listed_ok(vp_d, vp_k, uuid)", "vp_acc@.len() == vp_i", "forall|j: int| vp_i <= j < vp_k.len() ==> (self.vbm.devs().dom().contains(#[trigger] vp_k[j]) <==> vp_d.dom().contains(vp_k[j]))", "forall|u: Uuid| #[trigger] self.vbm.devs().dom().contains(u) ==> self.vbm.devs()[u] == vp_d[u]",
               "forall|j: int| #![trigger vp_acc@[j]] 0 <= j < vp_i ==> (vp_acc@[j] is Ok <==> vp_d.dom().contains(vp_k[j]) && reachable(vp_k[j])) && (vp_acc@[j] is Ok ==> vp_acc@[j]->Ok_0 == vp_d[vp_k[j]])"], decreases="vp_s@.len() - vp_i",
               after="vp_e = vp_acc@; assert(ids_differ(vp_e)) by { assert forall|i: int, j: int| #![trigger vp_e[i], vp_e[j]] 0 <= i < j < vp_e.len() && vp_e[i] is Ok && vp_e[j] is Ok implies (vp_e[i]->Ok_0).0.id() != (vp_e[j]->Ok_0).0.id() by { assert(vp_k[i] != vp_k[j]); } }"),
          dict(kind="while", invariant=["vp_i1 <= vp_s1@.len()", "ids_differ(vp_s1@)", "forall|x: Result<Pair, Error>| #![trigger vp_s1@.contains(x)] #![trigger vp_e.contains(x)] vp_s1@.contains(x) <==> vp_e.contains(x)", "forall|a: int| 0 <= a < pairs@.len() ==> exists|j: int| 0 <= j < vp_i1 && #[trigger] vp_s1@[j] == Ok::<Pair, Error>(#[trigger] pairs@[a])", "forall|j: int| 0 <= j < vp_i1 && #[trigger] vp_s1@[j] is Ok ==> pairs@.contains(vp_s1@[j]->Ok_0)", "forall|a: int, b: int| #![trigger pairs@[a], pairs@[b]] 0 <= a < b < pairs@.len() ==> pairs@[a].0.id() != pairs@[b].0.id()"], decreases="vp_s1@.len() - vp_i1",
               ghost_start="let ghost vp_o = pairs@; let ghost vp_x0 = vp_s1@[vp_i1 as int];",
               end="""assert forall|a: int| 0 <= a < pairs@.len() implies exists|j: int| 0 <= j < vp_i1 && #[trigger] vp_s1@[j] == Ok::<Pair, Error>(#[trigger] pairs@[a]) by { if a < vp_o.len() { assert(pairs@[a] == vp_o[a]); } else { assert(vp_s1@[vp_i1 - 1] == Ok::<Pair, Error>(pairs@[a])); } }
                      assert forall|j: int| 0 <= j < vp_i1 && #[trigger] vp_s1@[j] is Ok implies pairs@.contains(vp_s1@[j]->Ok_0) by { if j < vp_i1 - 1 { let k = vp_o.index_of(vp_s1@[j]->Ok_0); assert(pairs@[k] == vp_s1@[j]->Ok_0); } else { assert(pairs@[vp_o.len() as int] == vp_s1@[j]->Ok_0); } }
                      assert forall|a: int, b: int| #![trigger pairs@[a], pairs@[b]] 0 <= a < b < pairs@.len() implies pairs@[a].0.id() != pairs@[b].0.id() by { if b == vp_o.len() { let j = choose|j: int| 0 <= j < vp_i1 - 1 && #[trigger] vp_s1@[j] == Ok::<Pair, Error>(vp_o[a]); assert(vp_s1@[vp_i1 - 1] is Ok); assert(pairs@[a] == vp_o[a]); } else { assert(pairs@[a] == vp_o[a] && pairs@[b] == vp_o[b]); } }""",
               after="""let vp_p = pairs@; assert forall|a: int| 0 <= a < vp_p.len() implies from(vp_d, vp_k, #[trigger] vp_p[a]) by { let j = choose|j: int| 0 <= j < vp_s1@.len() && #[trigger] vp_s1@[j] == Ok::<Pair, Error>(vp_p[a]); assert(vp_s1@.contains(vp_s1@[j])); let i = vp_e.index_of(vp_s1@[j]); assert(vp_e[i] == vp_s1@[j]); assert(vp_e[i] is Ok); assert(vp_d.dom().contains(vp_k[i])); }
                      assert forall|j: int| 0 <= j < vp_k.len() && vp_d.dom().contains(#[trigger] vp_k[j]) && reachable(vp_k[j]) implies vp_p.contains(vp_d[vp_k[j]]) by { assert(vp_e[j] is Ok); assert(vp_e.contains(vp_e[j])); let i = vp_s1@.index_of(vp_e[j]); assert(vp_s1@[i] == vp_e[j]); assert(vp_p.contains(vp_s1@[i]->Ok_0)); }
                      assert(all_of(vp_d, vp_k, vp_p)); assert(pairs@.len() > 0 ==> pairs_ok(Some(uuid), pairs@)) by { assert forall|i: int| #![trigger pairs@[i]] 0 <= i < pairs@.len() implies pairs@[i].1.next().uuid == uuid && pairs@[i].1.next().children@.contains(pairs@[i].0.id()) && pairs@[i].1.next().children@.no_duplicates() by { assert(from(vp_d, vp_k, vp_p[i])); } }""")])
fn("Manager", "taste", pre=[(".await?", "?", "waiting for a future stands for its result"), ("match self.mirrors.entry(ml.uuid)", "match self.mirrors.get_mut(&ml.uuid)", "Entry, as the lookup and the insertion it stands for"), ("Entry::Vacant(ve) => { ve.insert(ml); }", "None => { self.mirrors.insert(ml.uuid, ml); }", "Entry"), ("Entry::Occupied(mut oe)", "Some(oe)", "Entry"), ("&mut oe.get_mut().children", "&mut oe.children", "Entry"),
      ("!children.contains(&uuid)", "!vp_has(children, &uuid)", "slice::contains"), ("in ml.children", "in vp_own.into_iter()", "by value"), ("let children =", "let vp_own = ml.children; let children =", "by value")],
   subst=[("<P: AsRef<Path>>", "", "a path"), ("p: P", "p: VpPath", "a path"), ("Result<LabelReader>", "Result<LabelReader, Error>", "types::Result")], pipes=dict(fors=True, kinds={"vp_own": "vec"}),
   requires=["forall|u: Uuid| #[trigger] old(self).mirrors@.dom().contains(u) ==> old(self).mirrors@[u].children@.no_duplicates()"],
   ensures=["ret is Err ==> final(self).mirrors@ == old(self).mirrors@", "ret matches Ok(r) ==> merged(old(self).mirrors@, final(self).mirrors@, label_of(r.src()))"], ghost_start="let ghost vp_a = self.mirrors@; let ghost mut vp_l: Label = arbitrary();", after_let={"ml": "vp_l = ml;"},
   loops=[dict(kind="while", invariant=["vp_i <= vp_s@.len()", "vp_s@ == vp_l.children@", "vp_a.dom().contains(vp_l.uuid)", "vp_a[vp_l.uuid].children@.no_duplicates()", "children@.no_duplicates()", "extends(vp_a[vp_l.uuid].children@, children@)", "forall|j: int| 0 <= j < vp_i ==> children@.contains(#[trigger] vp_s@[j])", "forall|u: Uuid| #[trigger] children@.contains(u) ==> vp_a[vp_l.uuid].children@.contains(u) || vp_s@.contains(u)"], decreases="vp_s@.len() - vp_i",
        ghost_start="let ghost vp_o = children@; let ghost vp_u = vp_s@[vp_i as int];", end="lemma_added(vp_a[vp_l.uuid].children@, vp_s@, vp_o, children@, vp_u, vp_i as int);", after="lemma_extends(vp_a[vp_l.uuid].children@, children@);")])
