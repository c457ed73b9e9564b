import re
from vp.rustsrc import *
SOURCE = "bfffs-core/src/vdev_block.rs"
UTIL = "bfffs-core/src/util.rs"
TYPESRS = "bfffs-core/src/types.rs"
LABELRS = "bfffs-core/src/label.rs"
HEADER = """#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, unused_braces)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::multiset::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
"""
PRELUDE = r"""
fn vp_panic() requires false {}
#[verifier::external_body] fn vp_never<T>() -> T requires false { unimplemented!() }
// ---- assumed contracts: divbuf buffers and label images as byte sequences --------------------------------------
pub trait Deref: Sized { spec fn bytes(&self) -> Seq<u8>; fn len(&self) -> (r: usize) ensures r == self.bytes().len(); }
#[verifier::external_body] pub struct IoVec { x: u8 }
impl IoVec { pub uninterp spec fn view(&self) -> Seq<u8>; #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() } }
impl Deref for IoVec { open spec fn bytes(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn len(&self) -> (r: usize) { unimplemented!() } }
/// where a read puts its bytes
#[verifier::external_body] pub struct IoVecMut { x: u8 }
impl IoVecMut { pub uninterp spec fn view(&self) -> Seq<u8>; #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() } }
impl Deref for IoVecMut { open spec fn bytes(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn len(&self) -> (r: usize) { unimplemented!() } }
pub type SGList = Vec<IoVec>;
pub type SGListMut = Vec<IoVecMut>;
#[verifier::external_body] pub struct LabelWriter { x: u8 }
/// the label now holds what it held, and then the value
pub uninterp spec fn wrote(a: LabelWriter, b: LabelWriter, l: Label) -> bool;
impl LabelWriter { #[verifier::external_body] pub fn vp_serialize(&mut self, l: &Label) ensures wrote(*old(self), *final(self), *l) { unimplemented!() } }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum Error { EAGAIN, ENXIO, EIO, EPIPE }
pub type VpResult = Result<(), Error>;
/// the sending half of a one-shot channel
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Sender<T> { x: std::marker::PhantomData<T> }
impl<T> Sender<T> { pub uninterp spec fn chan(&self) -> int; }
pub trait VpVec<T>: Sized { spec fn s(&self) -> Seq<T>; fn vp_extend(&mut self, v: Vec<T>) ensures final(self).s() == old(self).s() + v@; }
impl<T> VpVec<T> for Vec<T> { open spec fn s(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_extend(&mut self, v: Vec<T>) { unimplemented!() } }
/// std::collections::BinaryHeap: a multiset, whose top is a greatest element by Ord
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct BinaryHeap<T> { x: std::marker::PhantomData<T> }
impl BinaryHeap<BlockOp> {
    pub uninterp spec fn view(&self) -> Multiset<BlockOp>;
    pub uninterp spec fn top(&self) -> BlockOp;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Multiset::<BlockOp>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn peek(&self) -> (r: Option<&BlockOp>) ensures r is None <==> self@.len() == 0, r is Some ==> *r->0 == self.top() && is_top(self@, self.top()) { unimplemented!() }
    #[verifier::external_body] pub fn pop(&mut self) -> (r: Option<BlockOp>) ensures r is None <==> old(self)@.len() == 0, r is None ==> *final(self) == *old(self),
        r is Some ==> r->0 == old(self).top() && is_top(old(self)@, r->0) && final(self)@ == old(self)@.remove(r->0) { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, x: BlockOp) ensures final(self)@ == old(self)@.insert(x) { unimplemented!() }
}
pub open spec fn is_top(m: Multiset<BlockOp>, t: BlockOp) -> bool { m.contains(t) && forall|x: BlockOp| #[trigger] m.contains(x) ==> op_cmp(x, t) != Ordering::Greater }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VecDeque<T> { x: std::marker::PhantomData<T> }
impl<T> VecDeque<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn front(&self) -> (r: Option<&T>) ensures r is None <==> self@.len() == 0, r is Some ==> *r->0 == self@[0] { unimplemented!() }
    #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<T>) ensures r is None <==> old(self)@.len() == 0, r is None ==> final(self)@ == old(self)@, r is Some ==> r->0 == old(self)@[0] && final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body] pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
}
/// the operating system's limit on the buffers of one operation
#[verifier::external_body] pub struct VpNonZero { x: u8 }
impl VpNonZero { pub uninterp spec fn view(&self) -> usize; }
pub uninterp spec fn iov_limit() -> Option<usize>;
#[verifier::external_body] fn vp_iov_max() -> (r: Option<VpNonZero>) ensures r is Some <==> iov_limit() is Some, r is Some ==> (r->0)@ == iov_limit()->0 && (r->0)@ > 0 { unimplemented!() }
#[verifier::external_body] fn vp_usize(n: VpNonZero) -> (r: usize) ensures r == n@ { unimplemented!() }
// ---- what the scheduler's state holds besides its queues
#[verifier::external_body] pub struct VpFile { x: u8 }
#[verifier::external_body] pub struct AtomicU32 { x: u8 }
#[verifier::external_body] pub struct Context { x: u8 }
#[verifier::external_body] pub struct VpTime { x: u8 }
#[verifier::external_body] pub struct VpArc { x: u8 }
impl VpArc { #[verifier::external_body] pub fn clone(&self) -> (r: VpArc) { unimplemented!() } }
#[verifier::external_body] pub struct VpPath { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct VpUuid { x: u8 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct TxgT(pub u32);
impl AtomicU32 { #[verifier::external_body] pub fn vp_store(&self, t: TxgT, vp_w: &mut World) ensures final(vp_w)@ == (WS { stored: old(vp_w)@.stored.push(t), ..old(vp_w)@ }) { unimplemented!() } }
/// the receiving half of a one-shot channel yields what was sent, or that the sender is gone
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Receiver<T> { x: std::marker::PhantomData<T> }
impl<T> Receiver<T> { pub uninterp spec fn chan(&self) -> int; }
pub struct Canceled;
impl Receiver<VpResult> { #[verifier::external_body] pub fn vp_poll(&mut self, vp_w: &World) -> (r: Poll<Result<VpResult, Canceled>>)
    ensures final(self).chan() == old(self).chan(), r matches Poll::Ready(Ok(x)) ==> heard(vp_w@, old(self).chan(), x) { unimplemented!() } }
/// the sender of a removal's notice is kept until it is used
impl Receiver<()> { #[verifier::external_body] pub fn vp_poll(&mut self) -> (r: Poll<Result<(), Canceled>>) ensures r is Ready ==> r->Ready_0 is Ok { unimplemented!() } }
#[verifier::external_body] pub fn vp_channel() -> (r: (Sender<VpResult>, Receiver<VpResult>)) ensures r.0.chan() == r.1.chan() { unimplemented!() }
#[verifier::external_body] pub fn vp_cx() -> (r: Context) { unimplemented!() }
/// contract sgpad: the data, padded with zeros to whole blocks
pub uninterp spec fn padded(s: Seq<IoVec>, r: Seq<IoVec>) -> bool;
pub axiom fn lemma_padded(s: Seq<IoVec>, r: Seq<IoVec>) requires padded(s, r) ensures total(r) % 4096 == 0, total(s) <= total(r) < total(s) + 4096;
#[verifier::external_body] fn copy_and_pad_sglist(s: SGList) -> (r: SGList) ensures padded(s@, r@) { unimplemented!() }
/// Weak<RwLock<Inner>>
#[verifier::external_body] pub struct VpWeak { x: u8 }
#[verifier::external] impl Clone for VpWeak { fn clone(&self) -> Self { unimplemented!() } }
impl VpWeak {
    /// called by someone who holds the lock, so the lock exists
    #[verifier::external_body] pub fn vp_upgrade(&self) -> (r: VpArc) { unimplemented!() }
    /// whether anyone still holds the scheduler
    pub uninterp spec fn alive(&self) -> bool;
    #[verifier::external_body] pub fn upgrade(&self) -> (r: Option<VpArc>) ensures r is Some <==> self.alive() { unimplemented!() }
    #[verifier::external_body] pub fn vp_clone(&self) -> (r: VpWeak) { unimplemented!() }
}
/// the leaf device: each method makes the future of one device operation (VdevFile)
#[verifier::external_body] pub struct VpLeaf { x: u8 }
#[verifier::external_body] pub struct VpFut { x: u8 }
pub enum Dev { Open(LbaT), Read(Seq<IoVecMut>, LbaT), ReadMap(IoVecMut, LbaT), Write(Seq<IoVec>, LbaT), Erase(LbaT, LbaT), Finish(LbaT), Label(LabelWriter), WriteMap(Seq<IoVec>, LbaT), Sync }
pub enum Poll<T> { Ready(T), Pending }
impl VpFut {
    pub uninterp spec fn dev(&self) -> Dev;
    /// what the device answers, once it has
    pub uninterp spec fn answer(&self) -> VpResult;
    /// polling a device operation for the first time, or again after EAGAIN, submits it or is refused with EAGAIN
    #[verifier::external_body] pub fn vp_poll(&mut self, vp_w: &mut World) -> (r: Poll<VpResult>)
        requires old(vp_w)@.disp.len() < old(vp_w)@.made.len(), old(self).dev() == old(vp_w)@.made[old(vp_w)@.disp.len() as int].dev
        ensures final(self).dev() == old(self).dev(), final(self).answer() == old(self).answer(), r == Poll::Ready(VpResult::Err(Error::EAGAIN)) ==> final(vp_w)@ == old(vp_w)@,
            r != Poll::Ready(VpResult::Err(Error::EAGAIN)) ==> final(vp_w)@ == (WS { disp: old(vp_w)@.disp.push(Disp::Accepted), ..old(vp_w)@ }), r is Ready && r->Ready_0 != VpResult::Err(Error::EAGAIN) ==> r->Ready_0 == final(self).answer() { unimplemented!() }
    #[verifier::external_body] pub fn vp_await(self) -> (r: VpResult) ensures r == self.answer() { unimplemented!() }
}
impl VpLeaf {
    #[verifier::external_body] pub fn open_zone(&self, lba: LbaT) -> (r: VpFut) ensures r.dev() == Dev::Open(lba) { unimplemented!() }
    #[verifier::external_body] pub fn read_at(&self, b: IoVecMut, lba: LbaT) -> (r: VpFut) ensures r.dev() == Dev::Read(seq![b], lba) { unimplemented!() }
    #[verifier::external_body] pub fn readv_at(&self, b: SGListMut, lba: LbaT) -> (r: VpFut) ensures r.dev() == Dev::Read(b@, lba) { unimplemented!() }
    #[verifier::external_body] pub fn read_spacemap(&self, b: IoVecMut, lba: LbaT) -> (r: VpFut) ensures r.dev() == Dev::ReadMap(b, lba) { unimplemented!() }
    #[verifier::external_body] pub fn write_at(&self, b: IoVec, lba: LbaT) -> (r: VpFut) ensures r.dev() == Dev::Write(seq![b], lba) { unimplemented!() }
    #[verifier::external_body] pub fn writev_at(&self, b: SGList, lba: LbaT) -> (r: VpFut) ensures r.dev() == Dev::Write(b@, lba) { unimplemented!() }
    #[verifier::external_body] pub fn erase_zone(&self, start: LbaT, end: LbaT) -> (r: VpFut) ensures r.dev() == Dev::Erase(start, end) { unimplemented!() }
    #[verifier::external_body] pub fn finish_zone(&self, start: LbaT) -> (r: VpFut) ensures r.dev() == Dev::Finish(start) { unimplemented!() }
    #[verifier::external_body] pub fn write_label(&self, l: LabelWriter) -> (r: VpFut) ensures r.dev() == Dev::Label(l) { unimplemented!() }
    #[verifier::external_body] pub fn write_spacemap(&self, b: SGList, lba: LbaT) -> (r: VpFut) ensures r.dev() == Dev::WriteMap(b@, lba) { unimplemented!() }
    pub uninterp spec fn zone_of(&self, lba: LbaT) -> Option<ZoneT>;
    pub uninterp spec fn limits_of(&self, z: ZoneT) -> (LbaT, LbaT);
    #[verifier::external_body] pub fn lba2zone(&self, lba: LbaT) -> (r: Option<ZoneT>) ensures r == self.zone_of(lba) { unimplemented!() }
    #[verifier::external_body] pub fn zone_limits(&self, z: ZoneT) -> (r: (LbaT, LbaT)) ensures r == self.limits_of(z) { unimplemented!() }
    #[verifier::external_body] pub fn sync_all(&self) -> (r: VpFut) ensures r.dev() == Dev::Sync { unimplemented!() }
}
/// the history of one device's scheduler
pub enum Disp { Accepted, Aborted }
pub struct Made { pub from: int, pub to: int, pub op: BlockOp, pub dev: Dev }
pub struct WS {
    /// requests in the order they were given to the scheduler
    pub sub: Seq<BlockOp>,
    /// how many of them are not waiting behind a sync
    pub c: int,
    /// requests in the order in which they were taken
    pub taken: Seq<BlockOp>,
    /// device operations made of them, each from a run of taken requests
    pub made: Seq<Made>,
    /// what became of each, in order: given to the device, or aborted because the device is being removed
    pub disp: Seq<Disp>,
    /// operations the device is at work on
    pub live: int,
    /// retry timers started
    pub timers: int,
    /// answers sent to the waiters
    pub answers: Seq<(int, VpResult)>,
    /// transaction groups recorded as written
    pub stored: Seq<TxgT>,
}
pub struct World { pub g: Ghost<WS> }
impl World {
    pub open spec fn view(&self) -> WS { self.g@ }
    /// starts the task that waits for the device (vp_task)
    #[verifier::external_body] pub fn vp_spawn(&mut self, fut: VpFut, senders: Vec<Sender<VpResult>>, schfut: ReschedFut, inner: VpArc)
        ensures final(self)@ == (WS { live: old(self)@.live + 1, ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn vp_spawn_timer(&mut self, t: VpTimer) ensures final(self)@ == (WS { timers: old(self)@.timers + 1, ..old(self)@ }) { unimplemented!() }
}
impl Sender<VpResult> { #[verifier::external_body] pub fn send(self, r: VpResult, vp_w: &mut World) -> (x: Result<(), VpResult>) ensures final(vp_w)@ == (WS { answers: old(vp_w)@.answers.push((self.chan(), r)), ..old(vp_w)@ }) { unimplemented!() } }
/// RemoveFut owns the receiver and is awaited until it is ready
impl Sender<()> { #[verifier::external_body] pub fn vp_notify(self) -> (x: Result<(), u8>) ensures x is Ok { unimplemented!() } }
#[verifier::external_body] pub struct VpTimer { x: u8 }
#[verifier::external_body] pub fn vp_millis(n: u64) -> (r: VpTime) { unimplemented!() }
#[verifier::external_body] pub fn vp_after(t: VpTime, f: ReschedFut) -> (r: VpTimer) { unimplemented!() }
#[verifier::external_body] pub fn vp_take<T>(v: &mut Vec<T>, i: usize) -> (r: T) requires i < old(v)@.len() ensures r == old(v)@[i as int], final(v)@ == old(v)@ { unimplemented!() }
/// no allocation exceeds isize::MAX bytes and a buffer handle takes at least eight
pub axiom fn lemma_small(o: BlockOp) ensures nbufs(o) < 0x1000_0000_0000_0000;
pub trait VpOrd { spec fn o(&self) -> Ordering; fn vp_is_equal(&self) -> (r: bool) ensures r == (self.o() == Ordering::Equal); }
impl VpOrd for Ordering { open spec fn o(&self) -> Ordering { *self } fn vp_is_equal(&self) -> (r: bool) { match self { Ordering::Equal => true, _ => false } } }
pub assume_specification<T> [core::option::Option::<T>::replace] (o: &mut Option<T>, x: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(x);
// ---- Cmd and BlockOp are compared by kind and by place and kind
impl Eq for Cmd {}
impl Eq for BlockOp {}
impl PartialEqSpecImpl for Cmd { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Cmd) -> bool { rank(*self) == rank(*o) } }
impl PartialEqSpecImpl for BlockOp { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &BlockOp) -> bool { self.lba == o.lba && rank(self.cmd) == rank(o.cmd) } }
impl PartialOrdSpecImpl for Cmd { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Cmd) -> Option<Ordering> { Some(int_cmp(rank(*self), rank(*o))) } }
impl PartialOrdSpecImpl for BlockOp { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &BlockOp) -> Option<Ordering> { Some(op_cmp(*self, *o)) } }
impl OrdSpecImpl for Cmd { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Cmd) -> Ordering { int_cmp(rank(*self), rank(*o)) } }
impl OrdSpecImpl for BlockOp { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &BlockOp) -> Ordering { op_cmp(*self, *o) } }
"""
CHAN = ("oneshot::Sender<Result<()>>", "Sender<VpResult>")
TYPES = [
    ("type", "LbaT", dict(file=TYPESRS)), ("const", "BYTES_PER_LBA", dict(file=UTIL)),
    ("enum", "Cmd", dict(pub_fields=True)),
    ("struct", "BlockOp", dict(pub_fields=True, subst=[CHAN])),
    ("struct", "Inner", dict(pub_fields=True, subst=[("Option<(Vec<oneshot::Sender<Result<()>>>, Pin<Box<VdevFut>>)>", "Option<(Vec<Sender<VpResult>>, VpFut)>"), ("oneshot::Sender<()>", "Sender<()>"),
        ("Weak<RwLock<Inner>>", "VpWeak"), ("VdevLeaf<'static>", "VpLeaf"), ("fs::File", "VpFile")])),
    ("type", "ZoneT", dict(file=TYPESRS)), ("const", "LABEL_COUNT", dict(file=LABELRS)), ("const", "LABEL_LBAS", dict(file=LABELRS)),
    ("struct", "VdevBlockFut", dict(pub_fields=True, subst=[("Arc<RwLock<Inner>>", "VpArc"), ("oneshot::Receiver<Result<()>>", "Receiver<VpResult>")])),
    ("struct", "VdevBlock", dict(pub_fields=True, subst=[("Arc<RwLock<Inner>>", "VpArc"), ("PathBuf", "VpPath"), ("Uuid", "VpUuid")])),
    ("struct", "Label", dict(pub_fields=True, subst=[("Uuid", "VpUuid")])),
    ("struct", "RemoveFut", dict(pub_fields=True, subst=[("oneshot::Sender<()>", "Sender<()>"), ("oneshot::Receiver<()>", "Receiver<()>")])),
    ("struct", "ReschedFut", dict(pub_fields=True, subst=[("Weak<RwLock<Inner>>", "VpWeak")])),
]
LEMMAS = ["vblock.lemmas.rs"]
SUB = [("oneshot::Sender<Result<()>>", "Sender<VpResult>", "one-shot channels"),
       ("match * IOV_MAX", "match vp_iov_max()", "the lazily computed limit"), ("usize::from(iov_max)", "vp_usize(iov_max)", "NonZeroUsize as usize"),
       (".extend(", ".vp_extend(", "Vec::extend by another vector"), ("mem::swap(", "core::mem::swap(", "std::mem::swap"),
       ("_ => vp_panic()", "_ => vp_never()", "a panicking arm, which must not be reached"), ("== Ordering::Equal", ".vp_is_equal()", "== on Ordering"), ("== Cmd::SyncAll", ".eq(&Cmd::SyncAll)", "== on Cmd is its PartialEq::eq"), ]
FNS = []
def fn(impl, name, **k): FNS.append(dict(impl=impl, name=name, subst=SUB + k.pop("subst", []), local=True, **k))
fn(None, "sglist_len", file=UTIL, requires=["total(sglist@) <= usize::MAX"], ensures=["ret == total(sglist@)"],
   subst=[("where T: std::ops::Deref<Target=[u8]>", "where T: Deref", "Deref<Target=[u8]> as a contract trait")], no_probe=True,
   loops=[dict(kind="for", iter="it", invariant=["it.seq().len() == sglist@.len()", "forall|i: int| 0 <= i < sglist@.len() ==> *(#[trigger] it.seq()[i]) == sglist@[i]", "accumulator == total(sglist@.take(it.index@))", "total(sglist@) <= usize::MAX"],
               start="lemma_total_take(sglist@, it.index@);", after="assert(sglist@.take(sglist@.len() as int) =~= sglist@);")])
fn("Cmd", "discriminant", ensures=["ret == rank(*self)"])
fn("Ord for Cmd", "cmp")
fn("PartialEq for Cmd", "eq")
fn("PartialOrd for Cmd", "partial_cmp")
fn("Ord for BlockOp", "cmp")
fn("PartialEq for BlockOp", "eq", subst=[("self.cmd == other.cmd", "self.cmd.eq(&other.cmd)", "== on Cmd is its PartialEq::eq")])
fn("PartialOrd for BlockOp", "partial_cmp")
fn("BlockOp", "can_accumulate", requires=["sane(*self)", "sane(*other)"], ensures=["ret == joinable(*self, *other)"], ghost_start="broadcast use b_total_one;", start="lemma_small(*self); lemma_small(*other);")
fn("BlockOp", "accumulate", requires=["joinable(self, other)", "sane(self)", "sane(other)", "other.senders@.len() == 1"], ensures=["joined(self, other, ret)"],
   ghost_start="let ghost vp_o = other;", start="lemma_small(self); lemma_small(other);", end="assert(joined(self, vp_o, vp_ret));")
def new(name, args, cmd, lba):
    fn("BlockOp", name, ensures=["ret.lba == " + lba, "ret.cmd == " + cmd, "ret.senders@ == seq![sender]"])
new("erase_zone", "", "Cmd::EraseZone(start)", "end"); new("finish_zone", "", "Cmd::FinishZone(start)", "end"); new("open_zone", "", "Cmd::OpenZone", "lba")
new("read_at", "", "Cmd::ReadAt(buf)", "lba"); new("read_spacemap", "", "Cmd::ReadSpacemap(buf)", "lba"); new("readv_at", "", "Cmd::ReadvAt(bufs)", "lba"); new("sync_all", "", "Cmd::SyncAll", "0")
new("write_at", "", "Cmd::WriteAt(buf)", "lba"); new("write_label", "", "Cmd::WriteLabel(labeller)", "0"); new("write_spacemap", "", "Cmd::WriteSpacemap(sglist)", "lba"); new("writev_at", "", "Cmd::WritevAt(bufs)", "lba")

# ---- the scheduler
ISUB = [("Pin<Box<VdevFut>>", "VpFut", "a boxed device future"), ("Pin<Box<dyn Future<Output=Result<()>> + Send + Sync + 'a>>", "VpFut", "a boxed device future"), ("<'a>", "", "a named lifetime"), ("& 'a mut", "&mut", "a named lifetime"),
    ("VdevFileFut", "VpFut", "a boxed device future"), ("self.weakself.upgrade().expect(\"VdevBlock dropped with outstanding I/O\")", "self.weakself.vp_upgrade()", "whoever holds the lock keeps the scheduler alive"),
    ("self.weakself.clone()", "self.weakself.vp_clone()", "Weak::clone"), ("fut.as_mut().poll(cx)", "fut.vp_poll(vp_w)", "polling a device future"),
    ("tokio::time::sleep(duration).then(move |_| schfut)", "vp_after(duration, schfut)", "a timer"), ("tokio::spawn(delay_fut)", "vp_w.vp_spawn_timer(delay_fut)", "a timer"), ("time::Duration::from_millis(", "vp_millis(", "a timer")]
IPRE = [("let fut = unsafe { mem::transmute::<VdevFileFut, Pin<Box<VdevFut>>>(fut) };", "", "the transmute of the device future's lifetime dropped"), ("remover.send(())", "remover.vp_notify()", "telling the remover"),
    ("in senders", "in senders.into_iter()", "for over a vector by value"), ("&'a mut self", "&mut self", "a named lifetime")]
GC = (["peek_op", "pop_op", "make_fut", "issue_fut", "issue_all", "send"], "vp_w")
def ifn(name, **k):
    if k.pop("world", True): k["ghost_param"] = "vp_w: &mut World"
    FNS.append(dict(impl="Inner", name=name, subst=ISUB + SUB, pre=IPRE, local=True, optmap=True, ghost_calls=GC, pipes=dict(kinds={"senders": "vec"}, fors=True),
        task="vp_w.vp_spawn(fut, senders, schfut, inner)", ret_type=k.pop("rt", None), **k))
FNS.append(dict(impl="Inner", name="peek_op", ghost_param="vp_w: &World", requires=["queues(*self, vp_w@)"], ensures=["ret is None <==> next(*self) is None", "ret is Some ==> *ret->0 == next(*self)->0 && okop(*ret->0)", "next_ok(*self)"],
   end="if vp_ret is Some && !is_sync(*vp_ret->0) { lemma_known(*self, vp_w@, *vp_ret->0); }"))
ifn("reschedule", world=False)
ifn("sched", world=False, ensures=["scheded(*old(self), block_op, *final(self))"])

W, W0 = "final(vp_w)@", "old(vp_w)@"
ifn("pop_op", requires=["queues(*old(self), %s)" % W0],
   ensures=["queues(*final(self), %s)" % W, "rest(*old(self), *final(self))", "ret == next(*old(self))", "next_ok(*old(self))", "ret is None ==> %s == %s && old(self).after_sync@.len() == 0 && next(*final(self)) is None" % (W, W0),
            "ret is Some ==> %s == (WS { taken: %s.taken.push(ret->0), c: %s.c, ..%s })" % (W, W0, W, W0)],
   after_stmt=[("let op = self.after_sync.pop_front().unwrap();", "lemma_took_sync(*old(self), *self, vp_w@, op); vp_w.g@ = WS { taken: vp_w@.taken.push(op), c: vp_w@.c + 1, ..vp_w@ };")],
   loops=[dict(kind="loop", invariant_except_break=["!self.syncing"],
       invariant=["hist(*self, vp_w@)", "rest(*old(self), *self)", "vp_w@ == (WS { taken: %s.taken.push(op), c: vp_w@.c, ..%s })" % (W0, W0)],
       ensures=["queues(*self, vp_w@)"], decreases="self.after_sync@.len()", ghost_start="let ghost vp_a = *self;", end="lemma_sorted(vp_a, *self, vp_w@, vp_a.after_sync@[0]); vp_w.g@ = WS { c: vp_w@.c + 1, ..vp_w@ };")],
   end="if vp_ret is Some && !is_sync(vp_ret->0) { lemma_took(*old(self), *self, vp_w@, vp_ret->0); vp_w.g@ = WS { taken: vp_w@.taken.push(vp_ret->0), ..vp_w@ }; }")

RT = "(Vec<Sender<VpResult>>, VpFut)"
ifn("make_fut", requires=["old(self).queue_depth < u32::MAX", "books(%s)" % W0, "%s.made.len() == %s.disp.len()" % (W0, W0), "covered(%s) < %s.taken.len()" % (W0, W0), "run(%s.taken.subrange(covered(%s), %s.taken.len() as int), block_op)" % (W0, W0, W0)],
   ensures=["same(*old(self), *final(self))", "final(self).delayed == old(self).delayed", "final(self).queue_depth == old(self).queue_depth + 1", "ret.0@ == block_op.senders@", "ret.1.dev() == dev_of(block_op)",
            "%s == (WS { made: %s.made.push(Made { from: covered(%s), to: %s.taken.len() as int, op: block_op, dev: dev_of(block_op) }), ..%s })" % (W, W0, W0, W0, W0), "books(%s)" % W],
   rt=RT, ghost_start="let ghost vp_op = block_op;", end="lemma_made(vp_w@, vp_op); vp_w.g@ = WS { made: vp_w@.made.push(Made { from: covered(vp_w@), to: vp_w@.taken.len() as int, op: vp_op, dev: dev_of(vp_op) }), ..vp_w@ };")
def sends(r, k=""): return {a: (re.sub(r"\bvp_(i|s)\b", r"vp_\g<1>" + k, b) if isinstance(b, str) else [re.sub(r"\bvp_(i|s)\b", r"vp_\g<1>" + k, x) for x in b]) for a, b in sends_(r).items()}
def sends_(r): return dict(invariant=["vp_s@ == vp_snd", "0 <= vp_i <= vp_snd.len()", "vp_w@ == (WS { answers: vp_ans + sent(vp_snd.take(vp_i as int), %s), ..vp_b })" % r], decreases="vp_snd.len() - vp_i",
    end="assert(vp_snd.take(vp_i as int).drop_last() =~= vp_snd.take(vp_i - 1)); assert(sent(vp_snd.take(vp_i as int), %s) =~= sent(vp_snd.take(vp_i - 1), %s).push((vp_snd[vp_i - 1].chan(), %s)));" % (r, r, r),
    ghost_before="let ghost vp_ans = vp_w@.answers; let ghost vp_b = vp_w@; let ghost vp_snd = senders@;", after="assert(vp_snd.take(vp_snd.len() as int) =~= vp_snd);")
ifn("issue_fut", requires=["books(%s)" % W0, "%s.made.len() == %s.disp.len() + 1" % (W0, W0), "senders@ == %s.made.last().op.senders@" % W0, "fut.dev() == %s.made.last().dev" % W0, "depth(*old(self), %s)" % W0],
   rt="Option<%s>" % RT,
   ensures=["same(*old(self), *final(self))", "final(self).delayed == old(self).delayed", "depth(*final(self), %s)" % W, "books(%s)" % W,
     "ret matches Some(d) ==> d.0@ == senders@ && d.1.dev() == fut.dev() && d.1.answer() == fut.answer() && %s == %s && old(self).remover is None" % (W, W0),
     "ret is None && old(self).remover is Some ==> %s == (WS { disp: %s.disp.push(Disp::Aborted), answers: %s.answers + sent(senders@, Err(Error::ENXIO)), ..%s })" % (W, W0, W0, W0),
     "ret is None && old(self).remover is None ==> given(%s, %s, senders@, fut.answer())" % (W0, W)],
   ghost_start="let ghost vp_w0 = vp_w@; let ghost vp_s0 = senders@;",
   loops=[sends("Err(Error::ENXIO)"), sends("r", "1")],
   start="if self.remover is Some { vp_w.g@ = WS { disp: vp_w@.disp.push(Disp::Aborted), ..vp_w@ }; }",
   end="lemma_given(vp_w0, vp_w@);")
INV, INV0 = "inv(*final(self), %s)" % W, "inv(*old(self), %s)" % W0
KEEP = "final(self).optimum_queue_depth == old(self).optimum_queue_depth"
ifn("issue_all", requires=[INV0], ensures=[INV, KEEP, "%s.sub == %s.sub" % (W, W0), "lively(*final(self), %s, %s.timers)" % (W, W0), "final(self).queue_depth == 0 ==> final(self).remover is None", "kept(%s, %s)" % (W0, W)],
   attrs=["#[verifier::rlimit(60)]"],
   loops=[dict(kind="while", invariant=["inv(*self, vp_w@)", "self.optimum_queue_depth == old(self).optimum_queue_depth", "vp_w@.sub == %s.sub" % W0, "kept(%s, vp_w@)" % W0, "vp_w@.timers >= %s.timers" % W0],
       ensures=["lively(*self, vp_w@, %s.timers)" % W0], decreases="vp_w@.sub.len() - vp_w@.taken.len() + (if self.delayed is Some { 1int } else { 0 })", start="lemma_count(*self, vp_w@);",
       ghost_start="let ghost vp_w1 = vp_w@;", end="lemma_count(*self, vp_w@);"),
     dict(kind="while", invariant=["queues(*self, vp_w@)", "books(vp_w@)", "0 <= covered(vp_w@) == covered(vp_w1) < vp_w@.taken.len()", "run(vp_w@.taken.subrange(covered(vp_w@), vp_w@.taken.len() as int), op)", "sane(op)", "vp_w@.taken.len() > vp_w1.taken.len()",
         "vp_w@ == (WS { taken: vp_w@.taken, c: vp_w@.c, ..vp_w1 })", "self.delayed is None", "prefix(vp_w1.taken, vp_w@.taken)", "vp_w1.made.len() == vp_w1.disp.len()", "self.optimum_queue_depth == old(self).optimum_queue_depth", "depth(*self, vp_w@)", "self.queue_depth < self.optimum_queue_depth"],
         decreases="vp_w@.sub.len() - vp_w@.taken.len()", before="lemma_first(*self, vp_w1, vp_w@, op);", start="lemma_count(*self, vp_w@);", ghost_start="let ghost vp_w2 = vp_w@; let ghost vp_o2 = op;", end="lemma_merged(vp_w2, vp_w@, vp_o2, vp_w@.taken.last(), op); lemma_count(*self, vp_w@);")])

ifn("sched_and_issue", requires=[INV0, "okop(block_op)"], ensures=[INV, KEEP, "%s.sub == %s.sub.push(block_op)" % (W, W0), "kept(%s, %s)" % (W0, W), "lively(*final(self), %s, %s.timers)" % (W, W0)],
   after_stmt=[("self.sched(block_op);", "lemma_submitted(*old(self), *self, vp_w@, block_op); lemma_sub(vp_w@, block_op, if self.syncing { vp_w@.c } else { vp_w@.c + 1 }); vp_w.g@ = WS { sub: vp_w@.sub.push(block_op), c: if self.syncing { vp_w@.c } else { vp_w@.c + 1 }, ..vp_w@ };")])
# the task that waits for the device
IN, IN0 = "inv(*final(vp_inner), %s)" % W, "inv(*old(vp_inner), %s)" % W0
FNS.append(dict(impl="Inner", name="issue_fut", **{"as": "vp_task"}, as_impl="Inner", no_probe=True, spawned="fut: VpFut, senders: Vec<Sender<VpResult>>, schfut: ReschedFut, vp_inner: &mut Inner", ghost_param="vp_w: &mut World",
   lockparam=("inner", "vp_inner"), pre=[("fut.await", "fut.vp_await()", "awaiting a device future"), ("schfut.await", "schfut.vp_await_resched(vp_inner)", "awaiting the rescheduling future")] + IPRE, subst=ISUB + SUB,
   ghost_calls=(["send", "vp_await_resched"], "vp_w"), pipes=dict(kinds={"senders": "vec"}, fors=True),
   requires=[IN0, "%s.live >= 1" % W0, "schfut.0.alive()"],
   ensures=[IN, "%s.sub == %s.sub" % (W, W0), "kept(%s, %s)" % (W0, W), "%s.answers.len() >= %s.answers.len() + senders@.len()" % (W, W0), "%s.answers.take((%s.answers.len() + senders@.len()) as int) =~= %s.answers + sent(senders@, fut.answer())" % (W, W0, W0), "lively(*final(vp_inner), %s, %s.timers)" % (W, W0)],
   loops=[sends("r")], after_stmt=[("vp_inner.queue_depth -= 1;", "vp_w.g@ = WS { live: vp_w@.live - 1, ..vp_w@ }; lemma_given(%s, vp_w@);" % W0)]))
POLL = [("mut self: Pin<&mut Self>", "&mut self", "a pinned receiver"), ("self: Pin<&mut Self>", "&mut self", "a pinned receiver")]
def poll(ty, out, **k):
    FNS.append(dict(impl="Future for " + ty, name="poll", as_impl=ty, subst=[("Self::Output", out, "the future's output type")] + POLL + k.pop("subst", []) + SUB, no_probe=True,
        ghost_param="vp_inner: &mut Inner, vp_w: &mut World", ghost_calls=(["issue_all", "sched_and_issue", "vp_store", "vp_poll_rx"], "vp_w"), **k))
NOTHING = "*final(vp_inner) == *old(vp_inner) && %s == %s" % (W, W0)
poll("ReschedFut", "()", lockparam=("inner", "vp_inner"), requires=[IN0], ensures=["ret is Ready", "final(self).0 == old(self).0", IN, "%s.sub == %s.sub" % (W, W0), "kept(%s, %s)" % (W0, W),
    "if old(self).0.alive() { lively(*final(vp_inner), %s, %s.timers) && (final(vp_inner).queue_depth == 0 ==> final(vp_inner).remover is None) } else { %s }" % (W, W0, NOTHING)])
poll("RemoveFut", "()", lockparam=("self.vdev.inner", "vp_inner"), pre=[("self.project().receiver.poll(cx)", "self.receiver.vp_poll()", "polling a one-shot channel's receiver"), ], subst=[("Err(_)) => vp_panic()", "Err(_)) => vp_never()", "a panicking arm, which must not be reached")],
    requires=[IN0, "old(self).sender is Some ==> old(vp_inner).remover is None"],
    ensures=["final(self).sender is None", IN, "%s.sub == %s.sub" % (W, W0), "kept(%s, %s)" % (W0, W),
    "if old(self).sender is Some { lively(*final(vp_inner), %s, %s.timers) && (final(vp_inner).queue_depth == 0 ==> final(vp_inner).remover is None) } else { %s }" % (W, W0, NOTHING)])
poll("VdevBlockFut", "VpResult", lockparam=[("self.inner", "vp_inner"), ("projection.inner", "vp_inner")],
    pre=[("let projection = self.project();", "", "pin projection"), ("projection.receiver.poll(cx)", "self.receiver.vp_poll_rx()", "polling a one-shot channel's receiver"), ("projection.txg", "self.txg", "pin projection"),
         ("projection.inner.read().unwrap()", "vp_inner", "lock"), (".store(txg.into(), atomic::Ordering::Relaxed)", ".vp_store(txg)", "storing the transaction group")],
    requires=[IN0, "old(self).block_op matches Some(o) ==> okop(o)"],
    ensures=["final(self).block_op is None", "final(self).receiver.chan() == old(self).receiver.chan()", "grown(%s, %s)" % (W0, W), IN,
     "%s.sub == (if old(self).block_op is Some { %s.sub.push(old(self).block_op->0) } else { %s.sub })" % (W, W0, W0),
     "if old(self).block_op is Some { lively(*final(vp_inner), %s, %s.timers) } else { *final(vp_inner) == *old(vp_inner) && %s == (WS { stored: %s.stored, ..%s }) }" % (W, W0, W, W, W0),
     "ret matches Poll::Ready(r) ==> r == VpResult::Err(Error::EPIPE) || heard(%s, old(self).receiver.chan(), r)" % W,
     "%s.stored == (if ret == Poll::Ready(VpResult::Ok(())) && old(self).txg is Some { %s.stored.push(old(self).txg->0) } else { %s.stored })" % (W, W0, W0)])

def vb(name, zone=False, sub=(), **k):
    if zone: k["ghost_param"] = "vp_inner: &Inner"
    FNS.append(dict(impl="VdevBlock", name=name, lockparam=("self.inner", "vp_inner"), pre=[("#[cfg(debug_assertions)]", "", "debug assertions are obligations"), ("oneshot::channel::<Result<()>>()", "vp_channel()", "one-shot channels")],
        subst=[("oneshot::Receiver<Result<()>>", "Receiver<VpResult>", "one-shot channels"), ("buf: &[u8]", "buf: &impl Deref", "Deref<Target=[u8]> as a contract trait"), ("where T: ops::Deref<Target=[u8]>", "where T: Deref", "Deref<Target=[u8]> as a contract trait"),
               ("ops::Deref<Target=[u8]>", "Deref", "Deref<Target=[u8]> as a contract trait"), ("buflen", "vp_len", "a local renamed")] + list(sub), local=False, no_probe=k.pop("no_probe", False), **k))
def fits(n): return "lba + (%s) / (BYTES_PER_LBA as int) <= self.size" % n
vb("check_iovec_bounds", requires=[fits("buf.bytes().len() as int")], no_probe=True)
vb("check_sglist_bounds", requires=["total(bufs@) <= usize::MAX", fits("total(bufs@) as int")], no_probe=True)
vb("new_fut", ensures=["ret.block_op == Some(block_op)", "ret.receiver == receiver", "ret.txg == txg"])
def made(cmd, lba): return ["asks(ret, %s, (%s) as int)" % (cmd, lba), "ret.txg is None"]
Z = ["vp_inner.leaf.zone_of(start) is Some"]
ZE = Z + ["vp_inner.leaf.limits_of(vp_inner.leaf.zone_of(start)->0) == (start, (end + 1) as u64)", "end < u64::MAX"]
vb("erase_zone", zone=True, requires=ZE, ensures=made("Cmd::EraseZone(start)", "end") + ["okop(ret.block_op->0)"])
vb("finish_zone", zone=True, requires=ZE, ensures=made("Cmd::FinishZone(start)", "end") + ["okop(ret.block_op->0)"])
vb("open_zone", zone=True, requires=Z + ["vp_inner.leaf.limits_of(vp_inner.leaf.zone_of(start)->0).0 == start"], ensures=made("Cmd::OpenZone", "start") + ["okop(ret.block_op->0)"])
SMALL = "self.size < 0x3_ffff_ffff_ffff"
WH = "%s %% (BYTES_PER_LBA as int) == 0 ==> okop(ret.block_op->0)"
DIV = "assert(4096 == BYTES_PER_LBA); broadcast use b_total_one;"
vb("read_at", requires=[SMALL, fits("buf@.len() as int")], ensures=made("Cmd::ReadAt(buf)", "lba") + [WH % "(buf@.len() as int)"], start=DIV)
vb("write_at", requires=[SMALL, fits("buf@.len() as int")], ensures=made("Cmd::WriteAt(buf)", "lba") + [WH % "(buf@.len() as int)"], start=DIV)
vb("readv_at", requires=[SMALL, "total(bufs@) <= usize::MAX", fits("total(bufs@) as int")], ensures=made("Cmd::ReadvAt(bufs)", "lba") + [WH % "(total(bufs@) as int)"], start=DIV)
vb("writev_at", requires=[SMALL, "total(bufs@) <= usize::MAX", fits("total(bufs@) as int")],
   ensures=["ret.block_op is Some && (ret.block_op->0).cmd is WritevAt && padded(bufs@, (ret.block_op->0).cmd->WritevAt_0@)", "asks(ret, (ret.block_op->0).cmd, lba as int)", "okop(ret.block_op->0)", "ret.txg is None"], start=DIV, ghost_start="let ghost vp_b = bufs@;",
   end="let w = (vp_ret.block_op->0).cmd->WritevAt_0@; lemma_padded(vp_b, w); lemma_pad_end(total(vp_b) as int, total(w) as int);")
vb("sync_all", ensures=made("Cmd::SyncAll", "0") + ["okop(ret.block_op->0)"])
vb("read_spacemap", requires=["idx < LABEL_COUNT", "self.spacemap_space < 0x1_0000_0000"], ensures=made("Cmd::ReadSpacemap(buf)", "(idx * self.spacemap_space + 2 * LABEL_LBAS)") + ["okop(ret.block_op->0)"], start="lemma_map(idx, self.spacemap_space);")
vb("write_spacemap", requires=["idx < LABEL_COUNT", "self.spacemap_space < 0x1_0000_0000", "block < 0x1_0000_0000"], start="lemma_map(idx, self.spacemap_space);",
   ensures=["ret.block_op is Some && (ret.block_op->0).cmd is WriteSpacemap && padded(sglist@, (ret.block_op->0).cmd->WriteSpacemap_0@)", "asks(ret, (ret.block_op->0).cmd, (block + idx * self.spacemap_space + 2 * LABEL_LBAS))", "okop(ret.block_op->0)", "ret.txg is None"])
vb("write_label", sub=[("labeller.serialize(&label).unwrap()", "labeller.vp_serialize(&label)", "serialization of the label")], ensures=["asks(ret, (ret.block_op->0).cmd, 0)", "(ret.block_op->0).cmd matches Cmd::WriteLabel(l) && wrote(labeller, l, Label { uuid: self.uuid, spacemap_space: self.spacemap_space, lbas_per_zone: self.lbas_per_zone, lbas: self.size, txg: txg })", "okop(ret.block_op->0)", "ret.txg == Some(txg)"])

GLUE = r"""
impl ReschedFut { fn vp_await_resched(self, vp_inner: &mut Inner, vp_w: &mut World) requires inv(*old(vp_inner), old(vp_w)@), self.0.alive()
    ensures inv(*final(vp_inner), final(vp_w)@), final(vp_w)@.sub == old(vp_w)@.sub, kept(old(vp_w)@, final(vp_w)@), lively(*final(vp_inner), final(vp_w)@, old(vp_w)@.timers)
  { let mut s = self; let mut cx = vp_cx(); match s.poll(&mut cx, vp_inner, vp_w) { Poll::Ready(x) => (), Poll::Pending => { vp_panic(); } } } }
impl Receiver<VpResult> { fn vp_poll_rx(&mut self, vp_w: &World) -> (r: Poll<Result<VpResult, Canceled>>) ensures final(self).chan() == old(self).chan(), r matches Poll::Ready(Ok(x)) ==> heard(vp_w@, old(self).chan(), x) { self.vp_poll(vp_w) } }
"""
THM = r"""
/// every request is in exactly one place: waiting in one queue, or part of exactly one device operation
proof fn prop_b02_once(s: Inner, w: WS) requires inv(s, w)
    ensures ms(w.sub) == ms(w.taken).add(s.ahead@).add(s.behind@).add(ms(s.after_sync@)),
        forall|k: int| 0 <= k < w.taken.len() ==> #[trigger] somewhere(w, k),
        forall|k: int, i: int, j: int| part(w, k, i) && part(w, k, j) ==> i == j,
        w.made.len() - 1 <= w.disp.len() <= w.made.len(), w.made.len() == w.disp.len() <==> s.delayed is None
{
    lemma_ms_cat(w.sub.take(w.c), w.sub.skip(w.c)); assert(w.sub.take(w.c) + w.sub.skip(w.c) =~= w.sub);
    assert forall|k: int| 0 <= k < w.taken.len() implies #[trigger] somewhere(w, k) by { lemma_part(w, w.made.len() as int, k); }
    assert forall|k: int, i: int, j: int| part(w, k, i) && part(w, k, j) implies i == j by { if i < j { lemma_apart(w, i, j); } else if j < i { lemma_apart(w, j, i); } }
}
pub open spec fn somewhere(w: WS, k: int) -> bool { exists|i: int| part(w, k, i) }
pub open spec fn part(w: WS, k: int, i: int) -> bool { 0 <= i < w.made.len() && w.made[i].from <= k < w.made[i].to }
proof fn lemma_part(w: WS, n: int, k: int) requires books(w), 0 <= n <= w.made.len(), 0 <= k < (if n == 0 { 0 } else { w.made[n - 1].to }) ensures exists|i: int| part(w, k, i) decreases n
{ hide(run); if n > 0 { assert(made_ok(w.made, w.taken, n - 1)); if k >= w.made[n - 1].from { assert(part(w, k, n - 1)); } else { lemma_part(w, n - 1, k); } } }
proof fn lemma_apart(w: WS, i: int, j: int) requires books(w), 0 <= i < j < w.made.len() ensures w.made[i].to <= w.made[j].from decreases j
{ hide(run); assert(made_ok(w.made, w.taken, j)); if i < j - 1 { assert(made_ok(w.made, w.taken, j - 1)); lemma_apart(w, i, j - 1); } }
proof fn lemma_ms_cat(a: Seq<BlockOp>, b: Seq<BlockOp>) ensures ms(a + b) == ms(a).add(ms(b)) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); assert(ms(a).add(ms(b)) =~= ms(a)); } else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); lemma_ms_cat(a, b.drop_last()); assert(ms(a).add(ms(b)) =~= ms(a).add(ms(b.drop_last())).insert(b.last())); } }
/// when the device is idle and no timer runs, everything submitted has been given to the device or answered that it is gone
proof fn prop_b02_done(s: Inner, w: WS) requires inv(s, w), lively(s, w, w.timers), w.live == 0 ensures ms(w.taken) == ms(w.sub), w.disp.len() == w.made.len(), covered(w) == w.taken.len()
{ prop_b02_once(s, w); assert(s.ahead@ =~= Multiset::empty()); assert(s.behind@ =~= Multiset::empty()); assert(s.after_sync@ =~= Seq::empty()); assert(ms(w.taken).add(s.ahead@).add(s.behind@).add(ms(s.after_sync@)) =~= ms(w.taken)); }
/// a sync divides: exactly what was submitted before it is taken before it
proof fn prop_b02_barrier(s: Inner, w: WS, p: int) requires inv(s, w), 0 <= p < w.taken.len(), is_sync(w.taken[p]) ensures exists|q: int| barrier(w.sub, w.taken, p, q) {}
/// one sweep: the lowest request at or after the position, or else the lowest of all
proof fn prop_b02_sweep(s: Inner, w: WS, x: BlockOp) requires inv(s, w), next_ok(s), s.ahead@.contains(x) || s.behind@.contains(x)
    ensures next(s) matches Some(o) && !is_sync(o) && !(before(x, o) && (x.lba >= s.last_lba || o.lba < s.last_lba)) && (x.lba >= s.last_lba ==> o.lba >= s.last_lba)
{ if s.ahead@.len() > 0 { let t = s.ahead.top(); assert(s.ahead@.contains(t)); if s.ahead@.contains(x) { assert(op_cmp(x, t) != Ordering::Greater); } } else { let t = s.behind.top(); assert(s.ahead@ =~= Multiset::empty()); assert(s.behind@.contains(x)); assert(s.behind@.len() > 0) by { if s.behind@.len() == 0 { assert(s.behind@ =~= Multiset::empty()); } } assert(s.behind@.contains(t)); assert(op_cmp(x, t) != Ordering::Greater); } }
/// at one place a zone is opened before it is used, and used before it is finished or erased
proof fn prop_b02_zones(a: BlockOp, b: BlockOp) requires a.lba == b.lba
    ensures a.cmd is OpenZone && (is_read(b) || is_write(b) || b.cmd is FinishZone || b.cmd is EraseZone) ==> before(a, b), (is_read(a) || is_write(a)) && (b.cmd is FinishZone || b.cmd is EraseZone) ==> before(a, b) {}
/// one operation for several requests: one kind of access, to adjacent blocks, their data in order, and an answer to each
proof fn prop_b02_merge(s: Seq<BlockOp>, o: BlockOp) requires run(s, o), forall|i: int| 0 <= i < s.len() ==> okop(#[trigger] s[i])
    ensures merged(s, o), sane(o) decreases s.len()
{
    if s.len() > 1 {
        let m = choose|m: BlockOp| run(s.drop_last(), m) && joinable(m, s.last()) && #[trigger] joined(m, s.last(), o); let d = s.drop_last();
        assert(okop(s[s.len() - 1])); assert forall|i: int| 0 <= i < d.len() implies okop(#[trigger] d[i]) by { assert(d[i] == s[i]); }
        prop_b02_merge(d, m); lemma_run(d, m, s.last(), o); assert(d.push(s.last()) =~= s);
        assert forall|i: int| 0 <= i < s.len() - 1 implies follows(#[trigger] s[i], s[i + 1]) by { if i < d.len() - 1 { assert(follows(d[i], d[i + 1])); } }
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] kind(s[i]) == kind(o) by { if i < d.len() { assert(kind(d[i]) == kind(m)); } else { assert(s[i] == s.last()); } }
        assert(d[0] == s[0]);
    } else { assert(s.drop_last() =~= Seq::empty()); assert(s[0] == s.last()); assert(okop(s[0])); assert(allr(s.drop_last()) =~= Seq::empty()); assert(allw(s.drop_last()) =~= Seq::empty()); assert(alls(s.drop_last()) =~= Seq::empty()); }
}
pub open spec fn kind(o: BlockOp) -> int { if is_read(o) { 1 } else if is_write(o) { 2 } else if is_sync(o) { 3 } else { 10 + rank(o.cmd) } }
pub open spec fn follows(a: BlockOp, b: BlockOp) -> bool { is_sync(a) && is_sync(b) || b.lba == end(a) }
pub open spec fn allr(s: Seq<BlockOp>) -> Seq<IoVecMut> decreases s.len() { if s.len() == 0 { Seq::empty() } else { allr(s.drop_last()) + rbufs(s.last()) } }
pub open spec fn allw(s: Seq<BlockOp>) -> Seq<IoVec> decreases s.len() { if s.len() == 0 { Seq::empty() } else { allw(s.drop_last()) + wbufs(s.last()) } }
pub open spec fn alls(s: Seq<BlockOp>) -> Seq<Sender<VpResult>> decreases s.len() { if s.len() == 0 { Seq::empty() } else { alls(s.drop_last()) + s.last().senders@ } }
pub open spec fn merged(s: Seq<BlockOp>, o: BlockOp) -> bool {
    &&& s.len() >= 1 && o.lba == s[0].lba && rbufs(o) =~= allr(s) && wbufs(o) =~= allw(s) && o.senders@ =~= alls(s)
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] kind(s[i]) == kind(o)
    &&& forall|i: int| 0 <= i < s.len() - 1 ==> follows(#[trigger] s[i], s[i + 1])
    &&& end(o) == end(s.last()) || !(is_read(o) || is_write(o))
}
"""
POSTLUDE = GLUE + THM
