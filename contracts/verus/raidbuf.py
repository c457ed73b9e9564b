"""VdevRaid's stripe buffers: what is written is held, in order, until a whole stripe can go to the disks."""
SOURCE = "bfffs-core/src/raid/vdev_raid.rs"
UTIL = "bfffs-core/src/util.rs"
HEADER = """#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, unused_braces)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
"""
PRELUDE = r"""
fn vp_panic() requires false {}
pub type LbaT = u64; pub type ZoneT = u32;
// ---- assumed contract on divbuf
#[verifier::external_body] pub struct IoVec { x: Vec<u8> }
impl IoVec {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn slice_to(self, end: usize) -> (r: IoVec)
        requires end <= self@.len() ensures r@ == self@.subrange(0, end as int) { unimplemented!() }
    #[verifier::external_body] pub fn split_to(&mut self, at: usize) -> (r: IoVec)
        requires at <= old(self)@.len() ensures r@ == old(self)@.subrange(0, at as int), final(self)@ == old(self)@.subrange(at as int, old(self)@.len() as int) { unimplemented!() }
}
/// the static ZERO_REGION (its initialiser: contract sgpad)
#[verifier::external_body] pub struct DivBufShared { x: Vec<u8> }
impl DivBufShared {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn try_const(&self) -> (r: Result<IoVec, u8>) ensures r is Ok, r->Ok_0@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
#[verifier::external_body] pub fn vp_zeros() -> (r: DivBufShared) ensures r@ == zeros(ZERO_REGION_LEN as int) { unimplemented!() }
pub type SGList = Vec<IoVec>;
/// a mutable piece of a caller's buffer: where in that buffer it begins, and its length
#[verifier::external_body] pub struct IoVecMut { x: u8 }
impl IoVecMut {
    pub uninterp spec fn pos(&self) -> int;
    pub uninterp spec fn n(&self) -> int;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.n() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.n() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn split_off(&mut self, at: usize) -> (r: IoVecMut) requires at <= old(self).n()
        ensures r.pos() == old(self).pos() + at, r.n() == old(self).n() - at, final(self).pos() == old(self).pos(), final(self).n() == at { unimplemented!() }
    #[verifier::external_body] pub fn split_to(&mut self, at: usize) -> (r: IoVecMut) requires at <= old(self).n()
        ensures r.pos() == old(self).pos(), r.n() == at, final(self).pos() == old(self).pos() + at, final(self).n() == old(self).n() - at { unimplemented!() }
}
/// slice::copy_from_slice through a piece of the buffer, which must have the same length
#[verifier::external_body] pub fn vp_copy_from(vp_m: &mut Mem, d: IoVecMut, s: &IoVec) requires d.n() == s@.len()
    ensures final(vp_m).got() == fill_at(old(vp_m).got(), d.pos(), s@) { unimplemented!() }
pub fn vp_touch(m: &mut Mem) ensures *final(m) == *old(m) {}
/// contract sgcursor (S01): the bytes that are left, handed out in order
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct SGCursor<T> { x: std::marker::PhantomData<T> }
impl SGCursor<u8> {
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn from(l: &SGList) -> (r: SGCursor<u8>) requires nonempty(l@) ensures r.rest() == flat(l@) { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self, max: usize) -> (r: Option<IoVec>) requires max > 0
        ensures r is None <==> old(self).rest().len() == 0, r is None ==> final(self).rest() == old(self).rest(), r is Some ==> 0 < r->0@.len() <= max && r->0@ + final(self).rest() == old(self).rest() { unimplemented!() }
}
/// contract codec: the code's parameters
pub struct Codec { pub k: i16, pub f: i16 }
impl Codec { pub fn protection(&self) -> (r: i16) ensures r == self.f { self.f } pub fn stripesize(&self) -> (r: i16) ensures r == self.k { self.k } }
pub struct VpLocator { pub x: u8 }
#[verifier::external_body] pub struct VpInner { x: u8 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct Uuid { pub n: u128 }
pub struct VpArc<T> { pub i: T }
pub assume_specification<T> [core::mem::replace::<T>] (a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == (a + b - 1) / (b as int);
pub assume_specification [u64::div_ceil] (a: u64, b: u64) -> (r: u64) requires b > 0 ensures r == (a + b - 1) / (b as int);
pub fn vp_min(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
// ---- what a future does when it is run
pub ghost enum Op { Stripes(int, Seq<u8>), Read(int, int, int), Finish(int, int, int), Erase(int, int, int), Open(int, int), Child(int, int, Seq<u8>) }
#[verifier::external_body] pub struct BoxVdevFut { x: u8 }
impl BoxVdevFut { pub uninterp spec fn ops(&self) -> Seq<Op>; }
pub fn vp_id<T>(x: T) -> (r: T) ensures r == x { x }
#[verifier::external_body] pub fn vp_ready() -> (r: BoxVdevFut) ensures r.ops() == Seq::<Op>::empty() { unimplemented!() }
/// futures::stream::FuturesUnordered, all of which are run by try_collect
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct FuturesUnordered<T> { x: std::marker::PhantomData<T> }
impl FuturesUnordered<BoxVdevFut> {
    pub uninterp spec fn view(&self) -> Seq<Op>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<Op>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, f: BoxVdevFut) ensures final(self)@ == old(self)@ + f.ops() { unimplemented!() }
    #[verifier::external_body] pub fn vp_extend(&mut self, l: Vec<BoxVdevFut>) ensures final(self)@ == old(self)@ + all_ops(l@) { unimplemented!() }
    #[verifier::external_body] pub fn vp_all(self) -> (r: BoxVdevFut) ensures r.ops() == self@ { unimplemented!() }
}
/// a mirror (contract vblock and H01): which one, and its zones
#[verifier::external_body] pub struct Mirror { x: u8 }
impl Mirror {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn zl(&self, z: ZoneT) -> (LbaT, LbaT);
    #[verifier::external_body] pub fn zone_limits(&self, z: ZoneT) -> (r: (LbaT, LbaT)) ensures r == self.zl(z) { unimplemented!() }
    #[verifier::external_body] pub fn finish_zone(&self, a: LbaT, b: LbaT) -> (r: BoxVdevFut) ensures r.ops() == seq![Op::Finish(self.id(), a as int, b as int)] { unimplemented!() }
    #[verifier::external_body] pub fn erase_zone(&self, a: LbaT, b: LbaT) -> (r: BoxVdevFut) ensures r.ops() == seq![Op::Erase(self.id(), a as int, b as int)] { unimplemented!() }
}
#[verifier::external_body] fn vp_never<'a>() -> &'a Mirror requires false { unimplemented!() }
impl VdevRaid {
    /// contract raidcol: one stripe, column by column, and its parity
    #[verifier::external_body] pub fn write_at_one(&self, b: IoVec, lba: LbaT) -> (r: BoxVdevFut) requires self.wf(), lba as int % (self.stripe_bytes() / 4096) == 0, b@.len() == self.stripe_bytes() ensures r.ops() == seq![Op::Stripes(lba as int, b@)] { unimplemented!() }
    #[verifier::external_body] pub fn write_at_multi(&self, b: IoVec, lba: LbaT) -> (r: BoxVdevFut) requires self.wf(), lba as int % (self.stripe_bytes() / 4096) == 0, b@.len() as int % self.stripe_bytes() == 0 ensures r.ops() == seq![Op::Stripes(lba as int, b@)] { unimplemented!() }
    #[verifier::external_body] pub fn writev_at_one(&self, b: &SGList, lba: LbaT) -> (r: BoxVdevFut) requires self.wf(), lba as int % (self.stripe_bytes() / 4096) == 0, nonempty(b@), flat(b@).len() == self.stripe_bytes() ensures r.ops() == seq![Op::Stripes(lba as int, flat(b@))] { unimplemented!() }
    /// the disks are asked for these blocks
    #[verifier::external_body] pub fn read_at_one(&self, b: IoVecMut, lba: LbaT) -> (r: BoxVdevFut) requires self.wf(), b.n() > 0, b.n() % 4096 == 0, lba as int / self.stripe_lbas() == (lba + b.n() / 4096 - 1) / self.stripe_lbas() ensures r.ops() == seq![Op::Read(lba as int, b.pos(), b.n())] { unimplemented!() }
    #[verifier::external_body] pub fn read_at_multi(&self, b: IoVecMut, lba: LbaT) -> (r: BoxVdevFut) requires self.wf(), b.n() > 0, b.n() % 4096 == 0 ensures r.ops() == seq![Op::Read(lba as int, b.pos(), b.n())] { unimplemented!() }
    pub uninterp spec fn zone_of(&self, lba: int) -> Option<ZoneT>;
    #[verifier::external_body] pub fn lba2zone(&self, lba: LbaT) -> (r: Option<ZoneT>) ensures r == self.zone_of(lba as int) { unimplemented!() }
}
"""
from contracts.verus import fsm as _fsm
i = _fsm.PRELUDE.index("#[verifier::external_body] #[verifier::reject_recursive_types(K)]"); j = _fsm.PRELUDE.index("// ---- fixedbitset")
PRELUDE += _fsm.PRELUDE[i:j]
TYPES = [("const", "BYTES_PER_LBA", dict(file=UTIL)), ("const", "ZERO_REGION_LEN", dict(file=UTIL)),
    ("struct", "StripeBuffer", dict(pub_fields=True)), ("enum", "Child", dict(subst=[("enum Child", "pub enum Child")])),
    ("struct", "Inner", dict(pub_fields=True, subst=[("LocatorImpl", "VpLocator"), ("Box<[Child]>", "Vec<Child>")])),
    ("struct", "VdevRaid", dict(pub_fields=True, subst=[("RwLock<BTreeMap<ZoneT, StripeBuffer>>", "VpInner"), ("Arc<Inner>", "VpArc<Inner>"), ("LayoutAlgorithm", "VpInner")])),
]
LEMMAS = ["raidbuf.lemmas.rs"]
FNS = []
B = "lemma_bpl(); "
def sb(name, **k):
    k["start"] = B + k.get("start", "")
    FNS.append(dict(impl="StripeBuffer", name=name, local=True, probe_ty="StripeBuffer", pre=k.pop("pre", []) + [(".map(DivBuf::len)", ".map(|vp_b| vp_b.len())", "a method passed to map, as a closure"), ("ZERO_REGION.", "vp_zeros().", "a static"), ("cmp::min(", "vp_min(", "std::cmp::min"), ("mem::replace(", "core::mem::replace(", "std::mem::replace"), ("SGList::new()", "Vec::new()", "the alias")], **k))
sb("len", requires=["flat(self.buf@).len() <= usize::MAX"], ensures=["ret == self.bytes().len()"], pipes=dict(types=["usize"]),
   loops=[dict(kind="while", invariant=["vp_i <= self.buf@.len()", "vp_acc == flat(self.buf@.take(vp_i as int)).len()", "flat(self.buf@).len() <= usize::MAX"], decreases="self.buf@.len() - vp_i",
      start="lemma_take(self.buf@, vp_i as int);", after="assert(self.buf@.take(self.buf@.len() as int) =~= self.buf@);", before="assert(self.buf@.take(0) =~= Seq::<IoVec>::empty());")])
sb("is_full", requires=["self.wf()"], ensures=["ret == (self.bytes().len() == self.stripesize)"])
sb("is_empty", requires=["self.wf()"], ensures=["ret == (self.bytes().len() == 0)"], start="lemma_nonempty(self.buf@);")
sb("lba", ensures=["ret == self.lba"])
sb("new", requires=["stripe_lbas > 0", "lba % stripe_lbas == 0", "stripe_lbas * 4096 <= usize::MAX", "lba + stripe_lbas <= u64::MAX"], ensures=["ret.wf()", "ret.lba == lba", "ret.bytes() == Seq::<u8>::empty()", "ret.stripesize == stripe_lbas * 4096"])
sb("next_lba", requires=["self.wf()"], ensures=["ret == self.next()"])
sb("peek", ensures=["ret@ == self.buf@"])
sb("fill", requires=["old(self).wf()"],
   ensures=["final(self).wf()", "final(self).lba == old(self).lba && final(self).stripesize == old(self).stripesize", "ret@ == iovec@.subrange(taken(*old(self), iovec@), iovec@.len() as int)",
            "final(self).bytes() == old(self).bytes() + padded(iovec@.subrange(0, taken(*old(self), iovec@)))"],
   start="lemma_push_all(self.buf@); assert forall|b: IoVec| flat(#[trigger] self.buf@.push(b)) == flat(self.buf@) + b@ by { } assert forall|a: IoVec, b: IoVec| flat(#[trigger] self.buf@.push(a).push(b)) == flat(self.buf@) + a@ + b@ by { lemma_push_all(self.buf@.push(a)); }")
sb("pad", requires=["old(self).wf()", "old(self).bytes().len() < old(self).stripesize", "old(self).stripesize + ZERO_REGION_LEN <= usize::MAX"],
   ensures=["final(self).wf()", "final(self).lba == old(self).lba && final(self).stripesize == old(self).stripesize", "final(self).bytes() == old(self).bytes() + zeros(old(self).stripesize - old(self).bytes().len())",
            "ret * 4096 == old(self).stripesize - old(self).bytes().len()"],
   after_let={"zero_bufs": "lemma_zero_bufs(padlen as int, ZERO_REGION_LEN as int);"},
   loops=[dict(kind="for", iter="it", invariant=["self.wf()", "self.lba == old(self).lba && self.stripesize == old(self).stripesize", "zero_region_len == ZERO_REGION_LEN", "padlen == old(self).stripesize - old(self).bytes().len()", "(zero_bufs - 1) * ZERO_REGION_LEN < padlen", "self.bytes() == old(self).bytes() + zeros(it.index@ * ZERO_REGION_LEN)", "0 <= it.index@ <= zero_bufs - 1"],
      before="assert(zeros(0) =~= Seq::<u8>::empty()); assert(self.bytes() =~= old(self).bytes() + zeros(0));", start="lemma_pad_step(old(self).bytes(), it.index@, zero_bufs - 1, padlen as int);", after="lemma_pad_end(old(self).bytes(), zero_bufs - 1, padlen as int);")])
sb("pop", requires=["old(self).wf()", "old(self).next() + old(self).stripesize / 4096 <= u64::MAX"], ensures=["final(self).wf()", "final(self).lba == old(self).next()", "final(self).stripesize == old(self).stripesize", "final(self).bytes() == Seq::<u8>::empty()", "ret@ == old(self).buf@"])
sb("reset", requires=["old(self).wf()", "old(self).bytes().len() == 0", "lba + old(self).stripesize / 4096 <= u64::MAX"], ensures=["final(self).wf()", "final(self).lba == lba", "final(self).stripesize == old(self).stripesize", "final(self).bytes() == Seq::<u8>::empty()"])

# ---- the device
PRE = [("Box::pin(", "vp_id(", "boxing"), ("as BoxVdevFut", "", "boxing"), ("future::ok::<(), Error>(())", "vp_ready()", "a future that is done"), ("future::ok(())", "vp_ready()", "a future that is done"),
    ("futs.try_collect::<Vec<_>>().map_ok(drop)", "futs.vp_all()", "running them all"), (".collect::<FuturesUnordered<_>>().try_collect::<Vec<_>>().map_ok(drop)", ".collect::<FuturesUnordered<_>>().vp_all()", "running them all"), ("futs.extend(", "futs.vp_extend(", "pushing each in turn"),
    ("future::ok (())", "vp_ready()", "a future that is done")]
SUB = [("self.inner.", "self.inner.i.", "seen through the Arc"), ("let futs = FuturesUnordered::<BoxVdevFut>::new()", "let mut futs = FuturesUnordered::new()", "FuturesUnordered::push takes &self")]
def ch(name, **k): FNS.append(dict(impl="Child", name=name, local=True, optmap=True, strs=True, probe_ty="Child", **k))
ch("as_present", ensures=["ret is Some <==> self is Present", "ret is Some ==> *ret->0 == self->Present_0"])
ch("finish_zone", ensures=["ret is Some <==> self is Present", "ret is Some ==> ret->0.ops() == seq![Op::Finish(self->Present_0.id(), start as int, end as int)]"])
ch("erase_zone", ensures=["ret is Some <==> self is Present", "ret is Some ==> ret->0.ops() == seq![Op::Erase(self->Present_0.id(), start as int, end as int)]"])
def rd(name, impl="VdevRaidApi for VdevRaid", write=True, lock=True, **k):
    if lock: k["ghost_param"] = "vp_sbs: &mut BTreeMap<ZoneT, StripeBuffer>" if write else "vp_sbs: &BTreeMap<ZoneT, StripeBuffer>"
    if lock: k["lockparam"] = ("self.stripe_buffers", "vp_sbs")
    k["start"] = B + k.get("start", "")
    FNS.append(dict(impl=impl, name=name, local=True, as_impl="VdevRaid", probe_ty="VdevRaid", optmap=True, pre=k.pop("pre", []) + PRE, subst=k.pop("subst", []) + SUB, **k))
FIRST = "forall|j: int| 0 <= j < self.inner.i.children@.len() ==> self.inner.i.children@[j] is Present ==> ret == (self.inner.i.children@[j]->Present_0)"
rd("first_healthy_child", impl="VdevRaid", lock=False, requires=["some_present(self.inner.i.children@)"], ensures=["first_present(self.inner.i.children@, *ret)"], pipes=dict(fors=True),
   subst=[("vp_panic();", "return vp_never();", "a panicking tail")],
   loops=[dict(kind="while", invariant=["vp_i <= self.inner.i.children@.len()", "forall|j: int| 0 <= j < vp_i ==> !((#[trigger] self.inner.i.children@[j]) is Present)"], decreases="self.inner.i.children@.len() - vp_i")])
WR = ["self.wf()", "bufs_ok(*self, old(vp_sbs)@)"]
rd("flush_zone", start="lemma_stripe(*self);", requires=WR + ["roomy(*self, old(vp_sbs)@)"],
   ensures=["flushed(*self, old(vp_sbs)@, final(vp_sbs)@, zone, ret.0 as int, ret.1.ops())"], end="lemma_flushed(*self, old(vp_sbs)@, vp_sbs@, zone, vp_ret.0 as int, vp_ret.1.ops());", end_type="(LbaT, BoxVdevFut)")
rd("finish_zone", requires=WR + ["roomy(*self, old(vp_sbs)@)", "old(vp_sbs)@.dom().contains(zone)", "some_present(self.inner.i.children@)", "forall|m: Mirror| first_present(self.inner.i.children@, m) ==> #[trigger] m.zl(zone).1 > 0"],
   ensures=["final(vp_sbs)@ == old(vp_sbs)@.remove(zone)", "finished(*self, old(vp_sbs)@, zone, ret.ops())"],
   pipes=dict(lazy=True, types=["Vec<BoxVdevFut>"]),
   loops=[dict(kind="while", invariant=["vp_i <= self.inner.i.children@.len()", "end > 0", "all_ops(vp_acc@) == finishes(self.inner.i.children@.take(vp_i as int), start as int, end - 1)"], decreases="self.inner.i.children@.len() - vp_i",
      start="lemma_push_ops(vp_acc@);", end="lemma_finishes(self.inner.i.children@, vp_i - 1, start as int, end - 1);", after="assert(self.inner.i.children@.take(self.inner.i.children@.len() as int) =~= self.inner.i.children@);",
      before="assert(self.inner.i.children@.take(0) =~= Seq::<Child>::empty());")],
   end="lemma_finished(*self, old(vp_sbs)@, zone, vp_ret.ops());", end_type="BoxVdevFut")
rd("erase_zone", write=False, requires=["self.wf()", "!vp_sbs@.dom().contains(zone)", "some_present(self.inner.i.children@)", "forall|m: Mirror| first_present(self.inner.i.children@, m) ==> #[trigger] m.zl(zone).1 > 0"],
   ensures=["exists|m: Mirror| first_present(self.inner.i.children@, m) && ret.ops() == #[trigger] erases(self.inner.i.children@, m.zl(zone).0 as int, m.zl(zone).1 - 1)"],
   pipes=dict(types=["FuturesUnordered<BoxVdevFut>"]),
   loops=[dict(kind="while", invariant=["vp_i <= self.inner.i.children@.len()", "end > 0", "vp_acc@ == erases(self.inner.i.children@.take(vp_i as int), start as int, end - 1)"], decreases="self.inner.i.children@.len() - vp_i",
      end="lemma_erases(self.inner.i.children@, vp_i - 1, start as int, end - 1);", after="assert(self.inner.i.children@.take(self.inner.i.children@.len() as int) =~= self.inner.i.children@);",
      before="assert(self.inner.i.children@.take(0) =~= Seq::<Child>::empty());")])
rd("write_at", requires=WR + ["old(vp_sbs)@.dom().contains(zone)", "old(vp_sbs)@[zone].next() == lba", "buf@.len() > 0", "buf@.len() + self.stripe_bytes() <= usize::MAX", "lba + buf@.len() / 4096 + 3 * (self.stripe_bytes() / 4096) <= u64::MAX",
     "self.zone_of(lba as int) == Some(zone)", "self.zone_of(lba + (buf@.len() - 1) / 4096) == Some(zone)"],
   ensures=["written(*self, old(vp_sbs)@, final(vp_sbs)@, zone, buf@, ret.ops())"],
   ghost_start="let ghost vp_b = buf@; let ghost vp_s0 = vp_sbs@[zone];",
   start="lemma_stripe(*self); lemma_first(*self, vp_sbs@[zone], buf@);",
   after_let={"buf3": "assert(buf3@ =~= rest1(*self, vp_s0, vp_b));", "nstripes": "lemma_whole(*self, buf3@.len() as int, nstripes as int, lba as int);", "writable_buf": "assert(writable_buf@ =~= seg_w(*self, vp_s0, vp_b)); assert(buf3@ =~= rest2(*self, vp_s0, vp_b)); lemma_padded(buf3@); assert(buf3@.len() == 0 ==> padded(buf3@) =~= Seq::<u8>::empty());", "buf4": "assert(stripe_buffer.bytes() =~= padded(rest2(*self, vp_s0, vp_b)));"},
   end="assert(rest1(*self, vp_s0, vp_b).len() == 0 ==> vp_ret.ops() =~= the_ops(*self, vp_s0, vp_b)); assert(pa(*self, vp_s0, vp_b) && rest1(*self, vp_s0, vp_b).len() > 0 ==> vp_ret.ops() =~= the_ops(*self, vp_s0, vp_b)); assert(!pa(*self, vp_s0, vp_b) && rest1(*self, vp_s0, vp_b).len() > 0 ==> vp_ret.ops() =~= the_ops(*self, vp_s0, vp_b)); lemma_written(*self, old(vp_sbs)@, vp_sbs@, zone, vp_b, vp_ret.ops());", end_type="BoxVdevFut")
HIT = "forall|z: ZoneT| #[trigger] vp_sbs@.dom().contains(z) ==> buf_ok(*self, vp_sbs@[z])"
rd("read_at", write=False, lock=False,
   requires=["self.wf()", "bufs_ok(*self, vp_sbs@)", "buf.n() > 0 && buf.n() % 4096 == 0 && buf.pos() >= 0 && buf.pos() + buf.n() <= old(vp_m).got().len()", "lba + buf.n() / 4096 <= u64::MAX", "fits(vp_sbs@, lba as int, lba + buf.n() / 4096 - 1)"],
   ensures=["fetched(vp_sbs@, lba as int, buf.pos(), buf.n(), old(vp_m).got(), final(vp_m).got(), ret.ops())"], end="assert(fetched(vp_sbs@, lba as int, vp_b0.pos(), vp_b0.n(), vp_g0, vp_m.got(), vp_ret.ops())); } vp_touch(vp_m); proof {", end_type="BoxVdevFut",
   lockparam=("self.stripe_buffers", "vp_sbs"), ghost_param="vp_sbs: &BTreeMap<ZoneT, StripeBuffer>, vp_m: &mut Mem", pipes=dict(kinds={"vp_sbs": "map"}, types=["&StripeBuffer"]), guards=True,
   pre=[("sb_buf.split_to(iovec.len())[..].copy_from_slice(&iovec[..])", "vp_copy_from(vp_m, sb_buf.split_to(iovec.len()), &iovec)", "slice::copy_from_slice")],
   loops=[dict(kind="while", invariant=["vp_i <= vp_s@.len()", "forall|z: ZoneT| vp_s@.contains(z) <==> #[trigger] vp_sbs@.dom().contains(z)", "bufs_ok(*self, vp_sbs@)"],
     invariant_except_break=["vp_acc is None", "forall|j: int| 0 <= j < vp_i ==> !hits(#[trigger] vp_sbs@[vp_s@[j]], lba as int, end_lba as int)"],
     ensures=["vp_acc is None ==> forall|j: int| 0 <= j < vp_s@.len() ==> !hits(#[trigger] vp_sbs@[vp_s@[j]], lba as int, end_lba as int)", "vp_acc is Some ==> exists|z: ZoneT| #[trigger] vp_sbs@.dom().contains(z) && *vp_acc->0 == vp_sbs@[z] && hits(vp_sbs@[z], lba as int, end_lba as int)"], decreases="vp_s@.len() - vp_i", start="assert(vp_s@.contains(vp_s@[vp_i as int])); assert(vp_sbs@.dom().contains(vp_s@[vp_i as int]));", after="assert forall|z: ZoneT| vp_acc is None && #[trigger] vp_sbs@.dom().contains(z) implies !hits(vp_sbs@[z], lba as int, end_lba as int) by { let j = choose|j: int| 0 <= j < vp_s@.len() && vp_s@[j] == z; assert(!hits(vp_sbs@[vp_s@[j]], lba as int, end_lba as int)); }"),
     dict(kind="while", invariant=["skipped <= to_skip", "to_skip <= sb.bytes().len()", "cursor.rest() == sb.bytes().subrange(skipped as int, sb.bytes().len() as int)"], decreases="to_skip - skipped", ghost_start="let ghost vp_r = cursor.rest();", end="assert(cursor.rest() =~= vp_r.subrange(vp_r.len() - cursor.rest().len(), vp_r.len() as int));"),
     dict(kind="while", ghost_before="let ghost vp_from: int = if sb.lba > lba { 0 } else { (lba - sb.lba) * 4096 }; let ghost vp_n: int = vp_b0.n() - direct_len; proof { assert(fill_at(vp_g0, vp_b0.pos() + direct_len, sb.bytes().subrange(vp_from, vp_from)) =~= vp_g0); }",
      invariant=["0 <= sb_buf.n() <= vp_n", "0 <= vp_from && vp_from + vp_n <= sb.bytes().len()", "sb_buf.pos() == vp_b0.pos() + vp_b0.n() - sb_buf.n()", "cursor.rest() == sb.bytes().subrange(vp_from + vp_n - sb_buf.n(), sb.bytes().len() as int)",
        "vp_m.got() =~= fill_at(vp_g0, vp_b0.pos() + direct_len, sb.bytes().subrange(vp_from, vp_from + vp_n - sb_buf.n()))", "vp_n == vp_b0.n() - direct_len"], decreases="sb_buf.n()",
      ghost_start="let ghost vp_r = cursor.rest();", end="assert(cursor.rest() =~= vp_r.subrange(vp_r.len() - cursor.rest().len(), vp_r.len() as int)); assert(iovec@ =~= vp_r.subrange(0, vp_r.len() - cursor.rest().len()));")],
   ghost_start="let ghost vp_g0 = vp_m.got(); let ghost vp_b0 = buf; let mut buf = buf;", subst=[("mut buf: IoVecMut", "buf: IoVecMut", "a mut parameter, bound by let")],
   start="lemma_stripe(*self);")
POSTLUDE = ""
