"""Mirror: what every leaf is asked to do, and which leaves a read asks, one after the other."""
from vp.rustsrc import *
SOURCE = "bfffs-core/src/mirror.rs"
HEADER = """#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, unused_braces)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
"""
PRELUDE = r"""
fn vp_panic() requires false {}
#[verifier::external_body] fn vp_never<T>() -> T requires false { unimplemented!() }
pub enum Poll<T> { Ready(T), Pending }
#[verifier::external_body] pub struct Context { x: u8 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum Error { EAGAIN, EINVAL, EIO, ENOENT, ENXIO, EINTEGRITY, Other(i32) }
pub type Result<T> = core::result::Result<T, Error>;
pub type LbaT = u64; pub type ZoneT = u32;
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct Uuid { pub n: u128 }
pub assume_specification<T> [core::mem::replace::<T>] (a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
pub assume_specification<T> [core::option::Option::<T>::replace] (a: &mut Option<T>, b: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(b);
// ---- buffers: what is written, and the identity of what is read into
#[verifier::external_body] pub struct IoVec { x: u8 }
impl IoVec { #[verifier::external_body] pub fn clone(&self) -> (r: IoVec) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct SGList { x: u8 }
impl SGList { #[verifier::external_body] pub fn clone(&self) -> (r: SGList) ensures r == *self { unimplemented!() } }
pub struct DivBufMut { pub id: u64 }
pub type IoVecMut = DivBufMut; pub type SGListMut = Vec<DivBufMut>;
impl DivBufMut { #[verifier::external_body] pub fn clone_inaccessible(&self) -> (r: DivBufInaccessible) ensures r.id == self.id { unimplemented!() } }
pub struct DivBufInaccessible { pub id: u64 }
/// somebody else holds a part of the buffer
pub uninterp spec fn shared(id: u64) -> bool;
impl DivBufInaccessible { #[verifier::external_body] pub fn try_mut(&self) -> (r: core::result::Result<DivBufMut, VpShared>) ensures match r { Ok(b) => b.id == self.id && !shared(self.id), Err(_) => shared(self.id) } { unimplemented!() } }
pub struct VpShared; #[verifier::external] impl core::fmt::Debug for VpShared { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } }
pub open spec fn ids(v: Seq<DivBufMut>) -> Seq<u64> { v.map_values(|b: DivBufMut| b.id) }
pub open spec fn iids(v: Seq<DivBufInaccessible>) -> Seq<u64> { v.map_values(|b: DivBufInaccessible| b.id) }
/// every buffer of a list, or none if one is shared
#[verifier::external_body] pub fn vp_try_all(v: &Vec<DivBufInaccessible>) -> (r: core::result::Result<Vec<DivBufMut>, VpShared>)
    ensures match r { Ok(b) => ids(b@) == iids(v@), Err(_) => exists|i: int| 0 <= i < v@.len() && shared((#[trigger] v@[i]).id) } { unimplemented!() }
// ---- a leaf, as what it is asked to do
pub enum Op { Read(u64, LbaT), Readv(Seq<u64>, LbaT), ReadSm(u64, u32), Write(IoVec, LbaT), Writev(SGList, LbaT), WriteSm(SGList, u32, LbaT), Erase(LbaT, LbaT), Finish(LbaT, LbaT), Open(LbaT), Sync }
#[derive(Clone, Copy)] pub struct VdevBlock { pub id: Uuid }
/// a request to one leaf, from being made to its result
pub struct VdevBlockFut { pub leaf: Ghost<Uuid>, pub op: Ghost<Op> }
/// the results that came back, in order
pub struct World { pub done: Ghost<Seq<(Uuid, Op, Result<()>)>> }
impl VdevBlockFut { pub open spec fn req(&self) -> (Uuid, Op) { (self.leaf@, self.op@) }
    #[verifier::external_body] pub fn poll(&mut self, cx: &mut Context, w: &mut World) -> (r: Poll<Result<()>>)
        ensures final(self).req() == old(self).req(), match r { Poll::Pending => final(w).done@ == old(w).done@, Poll::Ready(x) => final(w).done@ == old(w).done@.push((old(self).leaf@, old(self).op@, x)) } { unimplemented!() } }
impl VdevBlock {
    #[verifier::external_body] pub fn read_at(&self, buf: IoVecMut, lba: LbaT) -> (r: VdevBlockFut) ensures r.req() == (self.id, Op::Read(buf.id, lba)) { unimplemented!() }
    #[verifier::external_body] pub fn readv_at(&self, bufs: SGListMut, lba: LbaT) -> (r: VdevBlockFut) ensures r.req() == (self.id, Op::Readv(ids(bufs@), lba)) { unimplemented!() }
    #[verifier::external_body] pub fn read_spacemap(&self, buf: IoVecMut, i: u32) -> (r: VdevBlockFut) ensures r.req() == (self.id, Op::ReadSm(buf.id, i)) { unimplemented!() }
    #[verifier::external_body] pub fn write_at(&self, buf: IoVec, lba: LbaT) -> (r: VdevBlockFut) ensures r.req() == (self.id, Op::Write(buf, lba)) { unimplemented!() }
    #[verifier::external_body] pub fn writev_at(&self, bufs: SGList, lba: LbaT) -> (r: VdevBlockFut) ensures r.req() == (self.id, Op::Writev(bufs, lba)) { unimplemented!() }
    #[verifier::external_body] pub fn write_spacemap(&self, sglist: SGList, idx: u32, block: LbaT) -> (r: VdevBlockFut) ensures r.req() == (self.id, Op::WriteSm(sglist, idx, block)) { unimplemented!() }
    #[verifier::external_body] pub fn erase_zone(&self, start: LbaT, end: LbaT) -> (r: VdevBlockFut) ensures r.req() == (self.id, Op::Erase(start, end)) { unimplemented!() }
    #[verifier::external_body] pub fn finish_zone(&self, start: LbaT, end: LbaT) -> (r: VdevBlockFut) ensures r.req() == (self.id, Op::Finish(start, end)) { unimplemented!() }
    #[verifier::external_body] pub fn open_zone(&self, start: LbaT) -> (r: VdevBlockFut) ensures r.req() == (self.id, Op::Open(start)) { unimplemented!() }
    #[verifier::external_body] pub fn sync_all(&self) -> (r: VdevBlockFut) ensures r.req() == (self.id, Op::Sync) { unimplemented!() }
}
/// futures::stream::FuturesUnordered and try_collect: all requests are made; the result is an error if one of them fails, and otherwise comes when the last is done
pub struct FuturesUnordered { pub reqs: Ghost<Seq<(Uuid, Op)>> }
impl FuturesUnordered {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.reqs@ == Seq::<(Uuid, Op)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, f: VdevBlockFut) ensures final(self).reqs@ == old(self).reqs@.push(f.req()) { unimplemented!() }
    pub fn vp_all(self) -> (r: BoxVdevFut) ensures r.reqs@ == self.reqs@ { BoxVdevFut { reqs: self.reqs } } }
pub struct BoxVdevFut { pub reqs: Ghost<Seq<(Uuid, Op)>> }
#[verifier::external_body] pub struct AtomicU32 { x: u32 }
pub enum Ordering { Relaxed }
impl AtomicU32 { #[verifier::external_body] pub fn fetch_add(&self, n: u32, o: Ordering) -> (r: u32) { unimplemented!() } }
pub fn vp_or<T>(a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b }) { match a { Some(x) => Some(x), None => b } }
"""
ARC = [("Arc<VdevBlock>", "VdevBlock", "Arc, the device seen through it")]
A2 = [a[:2] for a in ARC]
TYPES = [("enum", "Child", dict(subst=A2 + [("enum Child", "pub enum Child")])),
    ("struct", "Mirror", dict(pub_fields=True, subst=[("Arc<AtomicU32>", "AtomicU32")])),
    *[("struct", n, dict(pub_fields=True, subst=A2)) for n in ("ReadAt", "ReadSpacemap", "ReadvAt")]]
LEMMAS = ["mirrorio.lemmas.rs"]
FNS = []
def fn(impl, name, **k): FNS.append(dict(impl=impl, name=name, subst=k.pop("subst", []) + ARC, local=True, strs=True, optmap=True, **k))
fn("Child", "as_present", ensures=["ret == (match *self { Child::Present(v) => Some(&v), _ => None })"], ret_type="Option<&VdevBlock>")
fn("Child", "as_rebuilding", ensures=["ret == (match *self { Child::Rebuilding(v) => Some(&v), _ => None })"], ret_type="Option<&VdevBlock>")
fn("Child", "is_present", ensures=["ret == (self is Present)"])
fn("Child", "is_rebuilding", ensures=["ret == (self is Rebuilding)"])
fn("Child", "as_vdev", ensures=["ret == (match *self { Child::Present(v) => Some(&v), Child::Rebuilding(v) => Some(&v), Child::Faulted(v) => Some(&v), Child::Missing(_) => None })"], ret_type="Option<&VdevBlock>")
OPS = dict(write_at="Op::Write(buf, lba)", writev_at="Op::Writev(bufs, lba)", write_spacemap="Op::WriteSm(sglist, idx, block)", erase_zone="Op::Erase(start, end)", finish_zone="Op::Finish(start, end)", open_zone="Op::Open(start)", sync_all="Op::Sync")
for n, op in OPS.items():
    fn("Child", n, pre=[("self.as_present().or_else(|| self.as_rebuilding())", "vp_or(self.as_present(), self.as_rebuilding())", "or_else of a pure function")] if n == "sync_all" else [],
       ensures=["match ret { Some(f) => f.op@ == %s && asked(*self, %s) == Some(f.leaf@), None => asked(*self, %s) is None }" % (op, op, op)])
for n, op in OPS.items():
    fn("Mirror", n, pipes=dict(types=["FuturesUnordered"]), ret_type="BoxVdevFut", ensures=["ret.reqs@ == asks(self.children@, %s)" % op],
       subst=[(".try_collect::<Vec<_>>().map_ok(drop)", ".vp_all()", "the results of all requests"), ("Box::pin(fut)", "fut", "boxing a future does not change it")],
       loops=[dict(kind="while", invariant=["vp_i <= self.children@.len()", "vp_acc.reqs@ == asks(self.children@.take(vp_i as int), %s)" % op], decreases="self.children@.len() - vp_i",
                   start="lemma_asks(self.children@, vp_i as int, %s);" % op, after="assert(self.children@.take(self.children@.len() as int) =~= self.children@);")], start="lemma_asks0(self.children@, %s);" % op)
fn("Mirror", "read_idx", requires=["self.children@.len() > 0"], ensures=["ret < self.children@.len()"])
CH = "self.children@"
fn("Mirror", "read_something", ret_type="(Option<R>, Vec<VdevBlock>)", requires=[CH + ".len() > 0", CH + ".len() < 0x7fff_ffff", "forall|c: &VdevBlock| f.requires((c,))"], pipes=dict(types=["usize", "Vec<VdevBlock>"]), no_probe=True,
   ensures=["match ret.0 { Some(r) => exists|i: int| (#[trigger] self.children@[i]) is Present && reads_first(self.children@, i, ret.1@) && f.ensures((&self.children@[i]->Present_0,), r), None => ret.1@.len() == 0 && forall|i: int| 0 <= i < self.children@.len() ==> !(#[trigger] self.children@[i] is Present) }"],
   loops=[dict(kind="while", invariant=["vp_n == idx + nchildren", "idx < nchildren", "nchildren == self.children@.len()", "nchildren < 0x7fff_ffff", "idx <= vp_i <= vp_n", "(forall|j: int| idx <= j < idx + nchildren ==> !(#[trigger] self.children@[j % (nchildren as int)] is Present)) ==> forall|i: int| 0 <= i < nchildren ==> !(#[trigger] self.children@[i] is Present)"], invariant_except_break=["vp_acc is None", "forall|j: int| idx <= j < vp_i ==> !(#[trigger] self.children@[j % (nchildren as int)] is Present)"],
       ensures=["match vp_acc { Some(x) => x < nchildren && self.children@[x as int] is Present, None => forall|j: int| 0 <= j < nchildren ==> !(#[trigger] self.children@[j] is Present) }"],
       ghost_before="proof { lemma_round(self.children@, idx as int); }", decreases="vp_n - vp_i"),
     dict(kind="while", invariant=["vp_n1 == nchildren", "vp_i1 <= vp_n1", "nchildren == self.children@.len()", "vp_acc1@ == rest(self.children@.take(vp_i1 as int), idx as int)"], start="lemma_rest(self.children@, vp_i1 as int, idx as int);", decreases="vp_n1 - vp_i1",
       after="assert(self.children@.take(self.children@.len() as int) =~= self.children@); assert(reads_first(self.children@, idx as int, vp_acc1@)); assert(active_child == self.children@[idx as int]->Present_0); assert(f.ensures((active_child,), fut->0));")])
for n, op, c in (("read_at", "Op::Read(buf.id, lba)", "c.read_at(buf, lba)"), ("readv_at", "Op::Readv(ids(bufs@), lba)", "c.readv_at(bufs, lba)"), ("read_spacemap", "Op::ReadSm(buf.id, smidx)", "c.read_spacemap(buf, smidx)")):
    fn("Mirror", n, requires=[CH + ".len() > 0", CH + ".len() < 0x7fff_ffff"], no_probe=True, pipes=dict(types=["Vec<DivBufInaccessible>"]),
       pre=[("move |c| " + c, "move |c: &VdevBlock| -> (vp_r: VdevBlockFut) ensures vp_r.req() == (c.id, %s) { %s }" % (op, c), "a closure's contract"), ("bufs.iter().map(DivBufMut::clone_inaccessible)", "bufs.iter().map(|vp_b| vp_b.clone_inaccessible())", "a method passed to map, as a closure")],
       loops=[dict(kind="while", invariant=["vp_i <= bufs@.len()", "vp_acc@.len() == vp_i", "forall|j: int| 0 <= j < vp_i ==> (#[trigger] vp_acc@[j]).id == bufs@[j].id"], decreases="bufs@.len() - vp_i", after="assert(iids(vp_acc@) =~= ids(bufs@));")] if n == "readv_at" else [],
       ensures=["ret.ok()", "ret.op() == " + op, "ret.fut is None ==> forall|i: int| 0 <= i < self.children@.len() ==> !(#[trigger] self.children@[i] is Present)", "ret.fut is Some ==> exists|i: int| (#[trigger] self.children@[i]) is Present && reads_first(self.children@, i, ret.children@) && (ret.fut->0).leaf@ == (self.children@[i]->Present_0).id"])
PIN = [("mut self: Pin<&mut Self>", "&mut self", "Pin<&mut Self> of an Unpin future is &mut self"), ("Self::Output", "Result<()>", "")]
PPRE = [("let mut pinned = self.as_mut().project();", "", "pin projection: the fields themselves"), ("pinned.fut.as_mut().as_pin_mut().unwrap().poll(cx)", "self.fut.as_mut().unwrap().poll(cx, vp_w)", "")]
def poll(n, blocked, extra=[], **k):
    fn("Future for " + n, "poll", as_impl=n, ghost_param="vp_w: &mut World", pre=PPRE + extra, subst=PIN + [("*pinned.lba", "self.lba", ""), ("*pinned.smidx", "self.smidx", ""), ("pinned", "self", "")], no_probe=True, attrs=["#[verifier::loop_isolation(false)]"],
       ghost_start="let ghost mut vp_k = 0int; let ghost vp_t = old(self).todo();",
       loops=[dict(kind="loop", invariant=["self.ok()", "self.fut is Some", "self.op() == old(self).op()", "self.same(*old(self))", "0 <= vp_k < vp_t.len()", "self.todo() =~= vp_t.skip(vp_k)", "failed(old(vp_w).done@, vp_w.done@, vp_k, vp_t, old(self).op())"], decreases="vp_t.len() - vp_k",
           ghost_start="let ghost vp_d = vp_w.done@; let ghost vp_c = self.todo(); proof { assert(vp_c.len() == vp_t.len() - vp_k); assert(forall|i: int| 0 <= i < vp_c.len() ==> #[trigger] vp_c[i] == vp_t[vp_k + i]); }",
           end="assert(self.todo() =~= vp_c.skip(1)); assert(vp_t[vp_k] == vp_t.skip(vp_k)[0]); assert(vp_t.skip(vp_k).len() == vp_t.len() - vp_k); vp_k = vp_k + 1; assert(self.todo() =~= vp_t.skip(vp_k));")],
       end="""if old(self).fut is Some { match vp_ret {
    Poll::Pending => { assert(failed(old(vp_w).done@, vp_w.done@, vp_k, vp_t, old(self).op())); assert(self.todo() =~= vp_t.skip(vp_k)); }
    Poll::Ready(Ok(_)) => { assert(vp_t[vp_k] == vp_t.skip(vp_k)[0]); assert(failed(old(vp_w).done@, vp_w.done@.drop_last(), vp_k, vp_t, old(self).op())); }
    Poll::Ready(Err(_)) => { assert(vp_t[vp_k] == vp_t.skip(vp_k)[0]); assert(vp_t.skip(vp_k).len() == vp_t.len() - vp_k); assert(failed(old(vp_w).done@, vp_w.done@, vp_k + 1, vp_t, old(self).op())); assert(vp_w.done@.last().2 == Err::<(), Error>(vp_ret->0->Err_0)); assert(old(vp_w).done@.len() + vp_k + 1 == vp_w.done@.len()); assert(vp_k + 1 == vp_t.len() || %s); } } }""" % blocked,
       requires=["old(self).ok()"] + k.pop("requires", []), ensures=["old(self).fut is None ==> ret == Poll::Ready(Err::<(), Error>(Error::ENXIO)) && final(vp_w).done@ == old(vp_w).done@",
           "old(self).fut is Some ==> final(self).ok() && final(self).same(*old(self)) && polled(old(self).todo(), old(self).op(), old(vp_w).done@, final(vp_w).done@, ret, final(self).todo(), %s)" % blocked], **k)
poll("ReadAt", "shared(old(self).dbi.id)")
poll("ReadSpacemap", "false", requires=["!shared(old(self).dbi.id)"])
poll("ReadvAt", "exists|i: int| 0 <= i < old(self).dbis@.len() && shared((#[trigger] old(self).dbis@[i]).id)", extra=[("pinned.dbis.iter().map(DivBufInaccessible::try_mut).collect::<std::result::Result<Vec<_>, _>>()", "vp_try_all(&self.dbis)", "the buffers of all, or the first error")])
POSTLUDE = ""
