SOURCE = "bfffs-core/src/writeback/writeback.rs"
HEADER = """#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, unused_braces)]
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
"""
PRELUDE = r"""
pub enum MemOrder { Relaxed, Acquire, Release, AcqRel, SeqCst }
use MemOrder::*;
// ---- assumed contract on AtomicIsize.
// view: the value an exclusive owner sees.  log: the atomic changes (from, to) made
// through shared access; what is found there is arbitrary, because others run in between.
#[verifier::external_body] pub struct AtomicIsize { v: isize }
pub open spec fn okval(v: int) -> bool { v % 2 == 0 && -0x1000_0000_0000_0000 < v < 0x1000_0000_0000_0000 }
impl AtomicIsize {
    pub uninterp spec fn view(&self) -> isize;
    pub uninterp spec fn log(&self) -> Seq<(int, int)>;
    #[verifier::external_body] pub fn new(v: isize) -> (r: AtomicIsize) ensures r@ == v, r.log() == Seq::<(int, int)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self) -> (r: &mut isize)
        ensures *r == old(self)@, *final(r) == final(self)@, final(self).log() == old(self).log() { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: MemOrder) -> (r: isize) ensures r == self@ { unimplemented!() }
    #[verifier::external_body] pub fn store(&mut self, v: isize, o: MemOrder)
        ensures final(self).log().len() == old(self).log().len() + 1, final(self).log().drop_last() == old(self).log(), final(self).log().last().1 == v { unimplemented!() }
    #[verifier::external_body] pub fn vp_rmw_begin(&mut self) -> (r: isize) ensures okval(r as int), final(self).log() == old(self).log() { unimplemented!() }
    #[verifier::external_body] pub fn vp_rmw_commit(&mut self, o: isize, n: isize)
        ensures final(self).log() == old(self).log().push((o as int, n as int)) { unimplemented!() }
    #[verifier::external_body] pub fn fetch_sub(&mut self, d: isize, o: MemOrder) -> (r: isize)
        ensures okval(r as int), final(self).log() == old(self).log().push((r as int, r - d)) { unimplemented!() }
    #[verifier::external_body] pub fn fetch_add(&mut self, d: isize, o: MemOrder) -> (r: isize)
        ensures okval(r as int), final(self).log() == old(self).log().push((r as int, r + d)) { unimplemented!() }
}
pub uninterp spec fn panicking() -> bool;
#[verifier::external_body] fn vp_panicking() -> (r: bool) ensures r == panicking() { unimplemented!() }
#[verifier::external_body] fn vp_forget(c: Credit) { unimplemented!() }
#[verifier::external_body] fn vp_to_isize(x: usize) -> (r: Result<isize, u8>) ensures r is Ok <==> x <= isize::MAX, r is Ok ==> r->Ok_0 == x { unimplemented!() }
pub trait VpOrd: Sized { fn vp_max(self, o: Self) -> (r: Self); fn vp_min(self, o: Self) -> (r: Self); }
impl VpOrd for isize {
    fn vp_max(self, o: isize) -> (r: isize) ensures r == if self >= o { self } else { o } { if self >= o { self } else { o } }
    fn vp_min(self, o: isize) -> (r: isize) ensures r == if self <= o { self } else { o } { if self <= o { self } else { o } }
}
fn vp_panic() requires false {}
#[verifier::external_body] fn vp_reject() ensures false { panic!() }
"""
TYPES = [("struct", "Credit", {})]
LEMMAS = ["credit.lemmas.rs"]
FNS = []
SUB = [("isize::try_from(", "vp_to_isize(", "isize::try_from(usize)"), ("mem::forget(", "vp_forget(", "mem::forget"), ("std::thread::panicking()", "vp_panicking()", "std::thread::panicking"),
       (".max(", ".vp_max(", "Ord::max"), (".min(", ".vp_min(", "Ord::min"), ("Self::Output", "isize", "associated type Output written out")]
def fn(impl, name, **k): FNS.append(dict(impl=impl, name=name, as_impl="Credit", subst=SUB + k.pop("subst", []), **k))
OK = "self.ok()"; OKO = "old(self).ok()"; SMALL = "credit < 0x0800_0000_0000_0000"
SH = "lemma_shifts();"
fn("Credit", "atomic_split", subst=[("&self", "&mut self", "shared access to the atomic is made explicit as a log of atomic changes")],
   requires=[SMALL, "old(self).0.log().len() == 0"], start=SH,
   ensures=["final(self).moved() == ret.v()", "ret.v() <= 2 * credit",
            "forall|i: int| 0 <= i < final(self).0.log().len() ==> ((#[trigger] final(self).0.log()[i]).0 >= 0 ==> final(self).0.log()[i].1 >= 0)",
            "final(self).0.log().len() == 1", "ret.v() == if final(self).0.log()[0].0 < 2 * credit { final(self).0.log()[0].0 } else { 2 * credit as int }"],
   before_tail="lemma_moved1(self.0.log());")
fn("Credit", "extend", requires=[OKO, "other.ok()"], ensures=["final(self).v() == old(self).v() + other.v()"])
fn("Credit", "halve", requires=[OKO], start=SH,
   ensures=["final(self).v() + ret.v() == old(self).v()", "-2 <= final(self).v() - ret.v() <= 2", "old(self).v() >= 0 ==> final(self).v() >= 0 && ret.v() >= 0", "final(self).v() % 2 == 0 && ret.v() % 2 == 0"])
fn("Credit", "is_null", requires=[OK], ensures=["ret == (self.v() == 0)"])
fn("Credit", "null", ensures=["ret.v() == 0"], no_probe=True)
fn("Credit", "split", requires=[OKO, SMALL], start=SH,
   ensures=["final(self).v() + ret.v() == old(self).v()", "ret.v() <= 2 * credit", "ret.v() == if old(self).v() < 2 * credit { old(self).v() as int } else { 2 * credit as int }",
            "old(self).v() >= 0 ==> final(self).v() >= 0 && ret.v() >= 0"])
fn("Credit", "isplit", requires=[OKO, "-0x0800_0000_0000_0000 < credit < 0x0800_0000_0000_0000"], start=SH,
   ensures=["final(self).v() + ret.v() == old(self).v()", "ret.v() == 2 * credit"])
fn("Credit", "take", requires=[OKO], start=SH, ensures=["ret.v() == old(self).v()", "final(self).v() == 0"])
SELF = [("self, other: usize", "&mut self, other: usize", "Self = &mut Credit written as &mut self")]
fn("Add<usize> for &mut Credit", "add", subst=SELF, requires=[OKO, "other < 0x1000_0000_0000_0000"], start=SH, ensures=["final(self).v() == old(self).v()", "2 * ret == old(self).v() + 2 * other"])
fn("Sub<usize> for &mut Credit", "sub", subst=SELF, requires=[OKO, "other < 0x1000_0000_0000_0000"], start=SH, ensures=["final(self).v() == old(self).v()", "2 * ret == old(self).v() - 2 * other"])
fn("Drop for Credit", "drop", **{"as": "vp_drop"}, panics="reject", no_probe=True, ensures=["old(self).v() != 0 ==> panicking()"])
fn("PartialEq<usize> for Credit", "eq", requires=[OK, "*other <= isize::MAX"], start=SH, ensures=["ret == (self.v() == 2 * *other)"])
fn("PartialOrd<usize> for Credit", "partial_cmp", requires=[OK, "*other <= isize::MAX"], start=SH,
   ensures=["ret == Some(if self.v() < 2 * *other { Ordering::Less } else if self.v() == 2 * *other { Ordering::Equal } else { Ordering::Greater })"])
