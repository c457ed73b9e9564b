SOURCE = "bfffs-core/src/util.rs"
HEADER = """#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, unused_braces)]
use vstd::prelude::*;
use std::ops::Bound;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
verus! {
"""
PRELUDE = r"""
pub open spec fn bview<T>(b: Bound<&T>) -> Bound<T> { match b { Bound::Included(x) => Bound::Included(*x), Bound::Excluded(x) => Bound::Excluded(*x), Bound::Unbounded => Bound::Unbounded } }
// ---- assumed contract on std::ops::RangeBounds: a range is a pair of bounds
pub trait RangeBounds<T> {
    spec fn sb(&self) -> Bound<T>;
    spec fn eb(&self) -> Bound<T>;
    fn start_bound(&self) -> (r: Bound<&T>) ensures bview(r) == self.sb();
    fn end_bound(&self) -> (r: Bound<&T>) ensures bview(r) == self.eb();
}
/// may some key of a dense order lie between the bounds?
pub open spec fn may_contain<T: PartialOrd>(s: Bound<T>, e: Bound<T>) -> bool {
    match (s, e) {
        (Bound::Unbounded, _) => true,
        (_, Bound::Unbounded) => true,
        (Bound::Included(s), Bound::Included(e)) => s.partial_cmp_spec(&e) == Some(Ordering::Less) || s.partial_cmp_spec(&e) == Some(Ordering::Equal),
        (Bound::Included(s), Bound::Excluded(e)) => s.partial_cmp_spec(&e) == Some(Ordering::Less),
        (Bound::Excluded(s), Bound::Included(e)) => s.partial_cmp_spec(&e) == Some(Ordering::Less),
        (Bound::Excluded(s), Bound::Excluded(e)) => s.partial_cmp_spec(&e) == Some(Ordering::Less),
    }
}
pub open spec fn cmp<T: PartialOrd>(s: T, e: T) -> bool {
    s.partial_cmp_spec(&e) == Some(Ordering::Less) || s.partial_cmp_spec(&e) == Some(Ordering::Equal) || s.partial_cmp_spec(&e) == Some(Ordering::Greater)
}
/// the order is total on the two bound values
pub open spec fn comparable<T: PartialOrd>(s: Bound<T>, e: Bound<T>) -> bool {
    match (s, e) {
        (Bound::Included(s), Bound::Included(e)) => cmp(s, e),
        (Bound::Included(s), Bound::Excluded(e)) => cmp(s, e),
        (Bound::Excluded(s), Bound::Included(e)) => cmp(s, e),
        (Bound::Excluded(s), Bound::Excluded(e)) => cmp(s, e),
        _ => true
    }
}
"""
TYPES = []
LEMMAS = []
FNS = [dict(impl="trait RangeBoundsExt", as_impl="trait RangeBoundsExt<T>: RangeBounds<T> where T: PartialOrd<T>", name="is_empty", no_probe=True,
    requires=["T::obeys_partial_cmp_spec()", "comparable(self.sb(), self.eb())"],
    ensures=["ret == !may_contain(self.sb(), self.eb())"])]
POSTLUDE = r"""
/// the specification is the right one: over the (dense, unbounded) reals a range may contain a key exactly when one lies inside
pub open spec fn inside(s: Bound<real>, e: Bound<real>, k: real) -> bool {
    (match s { Bound::Included(s) => s <= k, Bound::Excluded(s) => s < k, Bound::Unbounded => true })
    && (match e { Bound::Included(e) => k <= e, Bound::Excluded(e) => k < e, Bound::Unbounded => true })
}
pub open spec fn may_contain_real(s: Bound<real>, e: Bound<real>) -> bool {
    match (s, e) {
        (Bound::Unbounded, _) => true,
        (_, Bound::Unbounded) => true,
        (Bound::Included(s), Bound::Included(e)) => s < e || s == e,
        (Bound::Included(s), Bound::Excluded(e)) => s < e,
        (Bound::Excluded(s), Bound::Included(e)) => s < e,
        (Bound::Excluded(s), Bound::Excluded(e)) => s < e,
    }
}
proof fn prop_s04_meaning(s: Bound<real>, e: Bound<real>)
    ensures may_contain_real(s, e) <==> exists|k: real| inside(s, e, k)
{
    if may_contain_real(s, e) {
        let k: real = match (s, e) {
            (Bound::Unbounded, Bound::Unbounded) => 0real,
            (Bound::Unbounded, Bound::Included(e)) => e,
            (Bound::Unbounded, Bound::Excluded(e)) => e - 1real,
            (Bound::Included(s), Bound::Unbounded) => s,
            (Bound::Excluded(s), Bound::Unbounded) => s + 1real,
            (Bound::Included(s), Bound::Included(e)) => s,
            (Bound::Included(s), Bound::Excluded(e)) => s,
            (Bound::Excluded(s), Bound::Included(e)) => e,
            (Bound::Excluded(s), Bound::Excluded(e)) => (s + e) / 2real,
        };
        assert(inside(s, e, k));
    }
}
"""
