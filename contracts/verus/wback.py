SOURCE = "bfffs-core/src/writeback/writeback.rs"
HEADER = """#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, unused_braces)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
"""
PRELUDE = r"""
pub enum MemOrder { Relaxed, Acquire, Release, AcqRel, SeqCst }
use MemOrder::*;
#[verifier::external_body] pub struct AtomicIsize { v: isize }
impl AtomicIsize {
    pub uninterp spec fn view(&self) -> isize;
    #[verifier::external_body] pub fn new(v: isize) -> (r: AtomicIsize) ensures r@ == v { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self) -> (r: &mut isize) ensures *r == old(self)@, *final(r) == final(self)@ { unimplemented!() }
}
#[verifier::external_body] pub struct SleeperQueue { }
impl SleeperQueue { #[verifier::external_body] pub fn default() -> (r: SleeperQueue) { unimplemented!() } }
// a oneshot channel: tx and rx of one channel share its id
#[verifier::external_body] pub struct Sender { }
#[verifier::external_body] pub struct Receiver { }
impl Sender { pub uninterp spec fn chan(&self) -> int; }
impl Receiver { pub uninterp spec fn chan(&self) -> int; }
#[verifier::external_body] fn vp_channel() -> (r: (Sender, Receiver)) ensures r.0.chan() == r.1.chan() { unimplemented!() }
#[verifier::external_body] fn vp_forget(c: Credit) { unimplemented!() }
/// the future returned by borrow: ready with a credit, or the channel it waits on with the credit it then yields
pub enum VpFut { Ready(Credit), Wait(Receiver, Credit) }
fn vp_panic() requires false {}
pub trait VpInto<T>: Sized { spec fn fits(self) -> bool; spec fn conv(self) -> T; fn vp_try_into(self) -> (r: Result<T, u8>) ensures r is Ok <==> self.fits(), r is Ok ==> r->Ok_0 == self.conv(); }
impl VpInto<isize> for usize { open spec fn fits(self) -> bool { self <= isize::MAX } open spec fn conv(self) -> isize { self as isize } #[verifier::external_body] fn vp_try_into(self) -> (r: Result<isize, u8>) { unimplemented!() } }
impl VpInto<usize> for isize { open spec fn fits(self) -> bool { self >= 0 } open spec fn conv(self) -> usize { self as usize } #[verifier::external_body] fn vp_try_into(self) -> (r: Result<usize, u8>) { unimplemented!() } }
#[verifier::external_body] fn vp_to_isize(x: usize) -> (r: Result<isize, u8>) ensures r is Ok <==> x <= isize::MAX, r is Ok ==> r->Ok_0 == x { unimplemented!() }
"""
TYPES = [("struct", "Credit", dict(pub_fields=True)), ("struct", "Sleeper", dict(pub_fields=True, subst=[("oneshot::Sender::<()>", "Sender")])),
         ("struct", "WriteBack", dict(pub_fields=True, subst=[("Mutex<VecDeque<Sleeper>>", "SleeperQueue")]))]
LEMMAS = ["wback.lemmas.rs"]
OPS = [("self.supply.%s(" % o, "self.vp_supply_%s(" % o, "self.supply operations named vp_supply_*: their contracts speak about the whole shared state")
       for o in ("fetch_sub", "fetch_add", "fetch_or", "fetch_and", "load")]
SUB = OPS + [("isize::try_from(", "vp_to_isize(", "isize::try_from(usize)"), (".try_into()", ".vp_try_into()", "TryInto between isize and usize"), ("mem::forget(", "vp_forget(", "mem::forget"),
       ("tx.send(())", "self.vp_send(tx)", "sending the wake-up: contract on the shared state"), ("oneshot::channel::<()>()", "vp_channel()", "oneshot::channel"),
       ("future::ready(", "VpFut::Ready(", "future::ready(c) is the future that is ready with c"),
       ("rx.map(move |_| Credit(AtomicIsize::new(iwants)))", "VpFut::Wait(rx, Credit(AtomicIsize::new(iwants)))", "rx.map(move |_| c) is the future that yields c once woken"),
       ("&self", "&mut self", "shared access made explicit: the shared state is part of self's ghost view"), ("Default::default()", "SleeperQueue::default()", "Default for the empty sleeper queue")]
FNS = []
def fn(name, **k): FNS.append(dict(impl="WriteBack", name=name, as_impl="WriteBack", subst=SUB + k.pop("subst", []), guards=True, ghost_start='broadcast use { b_insert, b_remove, b_nonneg };', **k))
SAME = "final(self).capacity == old(self).capacity"
IDLE = "idle(final(self).g())"
PRE = ["old(self).ok()"]
fn("awaken", requires=["old(self).ok()", "!mine_trans(old(self).g())", "old(self).g().lock != Some(me())", "old(self).g().popped is None"], start="bits();",
   ensures=["final(self).ok()", SAME, IDLE, "final(self).g().mine == old(self).g().mine", "final(self).g().pushed == old(self).g().pushed"],
   loops=[dict(kind="loop", ghost_start="broadcast use { b_insert, b_remove, b_nonneg };", invariant_except_break=["self.g().tok.contains(me())"], invariant=["self.ok()", "self.capacity == old(self).capacity", "!mine_trans(self.g())", "self.g().lock == Some(me())", "self.g().lt == 0", "!self.g().window", "self.g().popped is None",
        "self.g().mine == old(self).g().mine", "self.g().pushed == old(self).g().pushed"],
        ensures=["!self.g().tok.contains(me())", "self.ok()", "self.capacity == old(self).capacity", "!mine_trans(self.g())", "self.g().lock == Some(me())", "self.g().lt == 0", "!self.g().window", "self.g().popped is None",
        "self.g().mine == old(self).g().mine", "self.g().pushed == old(self).g().pushed"], decreases="self.g().q.len()", start="bits();")])
fn("borrow", ret_type="VpFut", requires=["old(self).ok()", "idle(old(self).g())", "2 * size <= old(self).capacity", "size < 0x0800_0000_0000_0000", "old(self).g().mine == 0"], attrs=["#[verifier::exec_allows_no_decreases_clause]"], start="bits();",
   ensures=["final(self).ok()", SAME, IDLE,
     "ret matches VpFut::Ready(c) ==> c.0@ == 2 * size && final(self).g().mine == 2 * size && final(self).g().pushed == old(self).g().pushed",
     "ret matches VpFut::Wait(rx, c) ==> c.0@ == 2 * size && final(self).g().mine == 0 && final(self).g().pushed == old(self).g().pushed.push((2 * size as int, rx.chan()))"],
   loops=[dict(kind="loop", ghost_start="broadcast use { b_insert, b_remove, b_nonneg };", invariant=["self.ok()", "self.capacity == old(self).capacity", "!mine_trans(self.g())", "self.g().lock != Some(me())", "2 * size <= self.capacity", "size < 0x0800_0000_0000_0000", "iwants == 2 * size",
        "self.g().mine == 0", "self.g().popped is None", "self.g().pushed == old(self).g().pushed"], start="bits();")])
fn("capacity", subst=[("&mut self", "&self", "read only")], requires=["self.ok()"], start="bits();", ensures=["ret * 2 == self.capacity"])
fn("with_capacity", requires=["capacity <= 0x3fff_ffff_ffff_ffff"], start="bits();", ensures=["ret.capacity == 2 * capacity", "ret.supply@ == 2 * capacity"])
fn("limitless", no_probe=True, start="bits();", ensures=["ret.capacity == 0x7fff_ffff_ffff_fffe", "ret.supply@ == ret.capacity"])
fn("repay", requires=["old(self).ok()", "idle(old(self).g())", "credit.0@ % 2 == 0", "0 <= credit.0@ < 0x1000_0000_0000_0000", "old(self).g().mine == credit.0@"], start="bits();",
   ensures=["final(self).ok()", SAME, IDLE, "final(self).g().mine == 0", "final(self).g().pushed == old(self).g().pushed"])
POSTLUDE = ""
