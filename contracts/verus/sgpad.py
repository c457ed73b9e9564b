from vp.rustsrc import *
SOURCE = "bfffs-core/src/util.rs"
HEADER = """#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, unused_braces)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
"""
PRELUDE = r"""
// ---- assumed contract on divbuf
#[verifier::external_body] pub struct IoVec { x: Vec<u8> }
impl IoVec {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn slice_to(&self, end: usize) -> (r: IoVec)
        requires end <= self@.len() ensures r@ == self@.subrange(0, end as int) { unimplemented!() }
    #[verifier::external_body] pub fn split_to(&mut self, at: usize) -> (r: IoVec)
        requires at <= old(self)@.len() ensures r@ == old(self)@.subrange(0, at as int), final(self)@ == old(self)@.subrange(at as int, old(self)@.len() as int) { unimplemented!() }
    /// &buf[..]
    #[verifier::external_body] pub fn vp_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body] pub struct DivBufShared { x: Vec<u8> }
impl DivBufShared {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn from(v: Vec<u8>) -> (r: DivBufShared) ensures r@ == v@ { unimplemented!() }
    /// never fails: no mutable reference to a freshly made or read-only buffer exists
    #[verifier::external_body] pub fn try_const(&self) -> (r: Result<IoVec, u8>) ensures r is Ok, r->Ok_0@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
// ---- assumed contract on Deref<Target=[u8]>: a buffer denotes one byte sequence
pub trait Deref: Sized {
    spec fn bytes(&self) -> Seq<u8>;
    fn len(&self) -> (r: usize) ensures r == self.bytes().len();
}
pub type SGList = Vec<IoVec>;
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == (a + b - 1) / (b as int);
fn vp_panic() requires false {}
#[verifier::external_body] fn vp_extend(v: &mut Vec<u8>, s: &[u8]) ensures final(v)@ == old(v)@ + s@ { unimplemented!() }
#[verifier::external_body] fn vp_resize(v: &mut Vec<u8>, n: usize, x: u8) requires x == 0, n >= old(v)@.len() ensures final(v)@ == old(v)@ + zeros(n - old(v)@.len()) { unimplemented!() }
#[verifier::external_body] fn vp_vec_from(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
"""
TYPES = [("const", "BYTES_PER_LBA", {}), ("const", "ZERO_REGION_LEN", {})]
LEMMAS = ["sgpad.lemmas.rs"]
FNS = []
def fn(impl, name, **k): FNS.append(dict(impl=impl, name=name, **k))
fn(None, "copy_and_pad_sglist", 
   subst=[("accum.extend(&db[..])", "vp_extend(accum, db.vp_slice())", "Vec::extend on a borrowed byte slice appends its bytes; &db[..] is the buffer's bytes"),
          ("accum.resize(l, 0)", "vp_resize(accum, l, 0)", "Vec::resize, specified for bytes"),
          ("Vec::from(&db[..])", "vp_vec_from(db.vp_slice())", "Vec::from(&[u8]) copies the bytes")],
   requires=["flat(bufs@).len() < usize::MAX - 4096"],
   ensures=["padded(bufs@, ret@)"],
   ghost_start="let ghost s = bufs@;",
   start="if allwhole(s) { lemma_padded_self(s); }",
   loops=[dict(kind="for", iter="it", invariant=["bufs@ == s", "it.seq().len() == s.len()", "forall|i:int| 0<=i<s.len() ==> *(#[trigger] it.seq()[i]) == s[i]",
               "vp_any <==> exists|i: int| 0 <= i < it.index@ && (#[trigger] s[i])@.len() % 4096 != 0"],
               end="assert(forall|i: int| 0 <= i < it.index@ ==> #[trigger] s[i] == *it.seq()[i]);"),
          dict(kind="for", iter="it2", invariant=["it2.seq() == s", "flat(s).len() < usize::MAX - 4096",
               "inv(s, it2.index@, outlist@, acc_seq(accumulator))"],
               before="lemma_inv0(s, outlist@);",
               start="lemma_mask_all(); lemma_step(s, it2.index@, outlist@, acc_seq(accumulator));",
               after="lemma_end(s, outlist@, acc_seq(accumulator));"
               )],
   after_let={"l": "lemma_ceil(accum@.len() as int); assert(l == (accum@.len() + 4095) / 4096 * 4096); reveal(padded_with); lemma_padded_with(s, outlist@, accum@, l as int);"})

fn(None, "sglist_len", no_probe=True,
   subst=[("std::ops::Deref<Target=[u8]>", "Deref", "Deref<Target=[u8]> is the contract trait Deref"), ("Deref<Target=[u8]>", "Deref", "Deref<Target=[u8]> is the contract trait Deref")],
   requires=["total(sglist@) <= usize::MAX"], ensures=["ret == total(sglist@)"],
   loops=[dict(kind="for", iter="it", invariant=["total(sglist@) <= usize::MAX", "accumulator == total(sglist@.take(it.index@))", "it.seq().len() == sglist@.len()", "forall|i:int| 0<=i<sglist@.len() ==> *(#[trigger] it.seq()[i]) == sglist@[i]"],
      start="lemma_total(sglist@, it.index@);", after="assert(sglist@.take(sglist@.len() as int) == sglist@);", before="lemma_total0(sglist@);")])
fn(None, "zero_sglist", subst=[("ZERO_REGION.", "vp_zero_region().", "the lazily initialised static ZERO_REGION is its initialiser")],
   requires=["0 < len < usize::MAX - ZERO_REGION_LEN"], ensures=["flat(ret@) == zeros(len as int)"],
   after_let={"zero_bufs": "lemma_zero_bufs(len as int, ZERO_REGION_LEN as int);"},
   loops=[dict(kind="for", iter="it", invariant=["flat(sglist@) == zeros(it.index@ * ZERO_REGION_LEN)", "0 <= it.index@ <= zero_bufs - 1", "zero_region_len == ZERO_REGION_LEN"],
      start="lemma_push_all(sglist@);", end="lemma_zeros_add(it.index@, ZERO_REGION_LEN as int);", before="assert(flat(sglist@) =~= zeros(0));",
      after="lemma_push_all(sglist@); assert(zeros(len as int) =~= zeros((zero_bufs - 1) * ZERO_REGION_LEN) + zeros(len - (zero_bufs - 1) * ZERO_REGION_LEN)); lemma_zeros_sub();")])
def EXTRA(file, log):
    st = file(SOURCE).find("static", "ZERO_REGION").ts
    i = next(k for k in range(len(st)) if st[k].s == "LazyLock" and st[k + 1].s == "::")
    e = match_close(st, i + 3); cl = st[i + 4:e]
    if cl[0].s == "||": cl = cl[1:]
    elif [t.s for t in cl[:2]] == ["|", "|"]: cl = cl[2:]
    else: raise Lost("ZERO_REGION initialiser")
    log.add("the initialiser closure of ZERO_REGION becomes a function")
    return "fn vp_zero_region() -> (r: DivBufShared) ensures r@ == zeros(ZERO_REGION_LEN as int) {\n proof { assert(zeros(ZERO_REGION_LEN as int) =~= Seq::new(ZERO_REGION_LEN as nat, |i: int| 0u8)); }\n let r = " + text(cl) + ";\n proof { assert(r@ =~= zeros(ZERO_REGION_LEN as int)); }\n r }\n"
