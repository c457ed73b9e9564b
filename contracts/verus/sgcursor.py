SOURCE = "bfffs-core/src/raid/sgcursor.rs"

PRELUDE = r"""
// ---- assumed contract on divbuf::DivBuf (crate::types::IoVec): an immutable shared byte sequence
#[verifier::external_body] pub struct IoVec { x: Vec<u8> }
impl IoVec {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn slice(&self, begin: usize, end: usize) -> (r: IoVec)
        requires begin <= end <= self@.len() ensures r@ == self@.subrange(begin as int, end as int) { unimplemented!() }
    #[verifier::external_body] pub fn slice_from(&self, begin: usize) -> (r: IoVec)
        requires begin <= self@.len() ensures r@ == self@.subrange(begin as int, self@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn slice_to(&self, end: usize) -> (r: IoVec)
        requires end <= self@.len() ensures r@ == self@.subrange(0, end as int) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: IoVec) ensures r@ == self@ { unimplemented!() }
}
pub type SGList = Vec<IoVec>;
fn vp_panic() requires false {}
"""
TYPES = [("struct", "SGCursor", {})]
LEMMAS = ["sgcursor.lemmas.rs"]
FNS = []
def fn(impl, name, **k): FNS.append(dict(impl=impl, name=name, **k))

fn("From<&'a T> for SGCursor<'a>", "from", as_impl="<'a> SGCursor<'a>", probe_ty="SGCursor",
   mono=[("T", "SGList")],
   subst=[("-> SGCursor<'_>", "-> SGCursor<'a>", ""), ("src: &SGList", "src: &'a SGList", "the type parameter T: AsRef<[IoVec]> is taken to be SGList, and the elided lifetime is named"),
          ("src.as_ref()", "src.as_slice()", "AsRef on SGList is as_slice"), ("SGCursor<'_>", "SGCursor<'a>", "the elided lifetime is named")],
   requires=["nonempty(src@)"],
   ensures=["ret.wf()", "ret.rest() == flat(src@)"],
   before_tail="assert(src@.subrange(0, src@.len() as int) == src@);")
fn("SGCursor<'_>", "peek_len", as_impl="<'a> SGCursor<'a>", probe_ty="SGCursor",
   requires=["self.wf()"],
   ensures=["ret == self.head().len()", "ret == 0 <==> self.rest().len() == 0", "ret + self.iovec_idx <= usize::MAX"],
   start="self.lemma_rest();")
fn("SGCursor<'_>", "next", as_impl="<'a> SGCursor<'a>", probe_ty="SGCursor",
   requires=["old(self).wf()", "max > 0"],
   ensures=["final(self).wf()",
            "ret is None <==> old(self).rest().len() == 0",
            "ret is None ==> final(self).rest() == old(self).rest()",
            "ret is Some ==> ret->0@.len() == if max < old(self).head().len() { max as int } else { old(self).head().len() as int }",
            "ret is Some ==> ret->0@.len() > 0 && ret->0@.len() <= max",
            "ret is Some ==> ret->0@ + final(self).rest() == old(self).rest()",
            "ret is Some ==> ret->0@ == old(self).head().subrange(0, ret->0@.len() as int)"],
   start="self.lemma_rest(); self.lemma_step();")
POSTLUDE = r"""
/// S01 itself: whatever the sequence of positive limits, the pieces handed out so
/// far followed by what is left are the list's bytes, so the pieces are a prefix,
/// and the walk is over exactly when everything was handed out.
fn prop_s01_walk(list: &SGList, limits: &Vec<usize>) -> (r: Ghost<Seq<Seq<u8>>>)
    requires nonempty(list@), forall|i: int| 0 <= i < limits@.len() ==> limits@[i] > 0
    ensures flat2(r@).len() <= flat(list@).len(), flat2(r@) == flat(list@).subrange(0, flat2(r@).len() as int),
        forall|i: int| 0 <= i < r@.len() ==> 0 < #[trigger] r@[i].len() <= limits@[i],
        r@.len() <= limits@.len(),
        r@.len() < limits@.len() ==> flat2(r@) == flat(list@),
{
    let mut c = SGCursor::from(list);
    let ghost mut out: Seq<Seq<u8>> = seq![];
    let mut i: usize = 0;
    proof { assert(flat2(out) + c.rest() == flat(list@)); }
    while i < limits.len()
        invariant c.wf(), flat2(out) + c.rest() == flat(list@), out.len() == i <= limits@.len(),
            forall|i: int| 0 <= i < limits@.len() ==> limits@[i] > 0,
            forall|i: int| 0 <= i < out.len() ==> 0 < #[trigger] out[i].len() <= limits@[i],
        ensures flat2(out) + c.rest() == flat(list@), out.len() <= limits@.len(),
            forall|i: int| 0 <= i < out.len() ==> 0 < #[trigger] out[i].len() <= limits@[i],
            out.len() < limits@.len() ==> c.rest().len() == 0,
        decreases limits.len() - i
    {
        let p = c.peek_len();
        match c.next(limits[i]) {
            None => { break; }
            Some(b) => {
                proof {
                    assert(b@.len() == if limits@[i as int] < p { limits@[i as int] } else { p });
                    let o2 = out.push(b@);
                    assert(o2.drop_last() == out);
                    assert(flat2(o2) + c.rest() == flat2(out) + (b@ + c.rest()));
                    out = o2;
                }
            }
        }
        i += 1;
    }
    proof {
        let a = flat2(out); let b = c.rest();
        assert((a + b).subrange(0, a.len() as int) == a);
        if b.len() == 0 { assert(a + b == a); }
    }
    Ghost(out)
}
"""
