SOURCE = "bfffs-core/src/util.rs"
HEADER = """#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, unused_braces)]
use vstd::prelude::*;
verus! {
"""
PRELUDE = r"""
// ---- assumed contract on std::hash::Hasher: a hasher is driven by a stream of bytes
pub trait Hasher: Sized {
    spec fn stream(&self) -> Seq<u8>;
    fn write(&mut self, bytes: &[u8]) ensures final(self).stream() == old(self).stream() + bytes@;
}
// ---- assumed contract on core::convert::AsRef<[u8]>: a buffer denotes one byte sequence
pub trait AsRef {
    spec fn bytes(&self) -> Seq<u8>;
    fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bytes();
}
fn vp_panic() requires false {}
"""
SUB = [("AsRef<[u8]>", "AsRef", "AsRef<[u8]> is the contract trait AsRef")]
def subst_where(f): return f
TYPES = []
LEMMAS = ["util.lemmas.rs"]
FNS = []
def fn(impl, name, **k): FNS.append(dict(impl=impl, name=name, **k))
fn(None, "checksum_iovec", subst=SUB, no_probe=True,
   ensures=["final(hasher).stream() == old(hasher).stream() + iovec.bytes()"])
fn(None, "checksum_sglist", subst=SUB, no_probe=True,
   ensures=["final(hasher).stream() == old(hasher).stream() + cat(sglist@)"],
   ghost_start="let ghost h0 = hasher.stream();",
   loops=[dict(kind="for", iter="it",
       invariant=["hasher.stream() == h0 + cat(sglist@.take(it.index@))", "it.seq().len() == sglist@.len()", "forall|i:int| 0<=i<sglist@.len() ==> *(#[trigger] it.seq()[i]) == sglist@[i]"],
       start="assert(sglist@.take(it.index@ + 1).drop_last() == sglist@.take(it.index@));", after="assert(sglist@.take(sglist@.len() as int) == sglist@);")])
POSTLUDE = r"""
/// S02 itself
fn prop_s02_segmentation<T: AsRef, U: AsRef, V: AsRef, H: Hasher>(a: &[T], b: &[U], whole: &V, h1: &mut H, h2: &mut H, h3: &mut H)
    requires cat(a@) == cat(b@), whole.bytes() == cat(a@), old(h1).stream() == old(h2).stream(), old(h1).stream() == old(h3).stream()
    ensures final(h1).stream() == final(h2).stream(), final(h1).stream() == final(h3).stream(),
        final(h1).stream() == old(h1).stream() + whole.bytes()
{
    checksum_sglist(a, h1); checksum_sglist(b, h2); checksum_iovec(whole, h3);
}
"""
