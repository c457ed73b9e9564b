"""A node of the B+tree: an ordered map's part, how it is cut in two and joined, and how a key is looked up and deleted in it."""
SOURCE = "bfffs-core/src/tree/node.rs"
TREE = "bfffs-core/src/tree/tree/mod.rs"
HEADER = """#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, unused_braces)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::ops::{Range, RangeFrom, Bound};
use core::cmp::Ordering;
use core::mem;
verus! {
global size_of usize == 8;
"""
PRELUDE = r"""
fn vp_panic() requires false {}
#[verifier::external_body] fn vp_never<T>() -> T requires false { unimplemented!() }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum Error { ENOSPC, EIO, EINTEGRITY }
#[verifier::external] impl core::fmt::Debug for Error { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } }
pub type Result<T> = core::result::Result<T, Error>;
pub assume_specification<T>[core::mem::replace::<T>](dest: &mut T, src: T) -> (r: T) ensures *final(dest) == src, r == *old(dest);
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == (a + b - 1) / (b as int);
pub trait VpOrd: Sized { fn vp_max(self, o: Self) -> (r: Self); }
pub fn vp_max(a: usize, b: usize) -> (r: usize) ensures r == if a < b { b } else { a } { if a < b { b } else { a } }
pub fn vp_max16(a: u16, b: u16) -> (r: u16) ensures r == if a < b { b } else { a } { if a < b { b } else { a } }
#[verifier::external_body] fn vp_to_isize(x: usize) -> (r: core::result::Result<isize, Error>) ensures r is Ok <==> x <= isize::MAX, r is Ok ==> r->Ok_0 == x { unimplemented!() }
// ---- keys: any type of key, by its place in the keys' order
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct K(pub u128);
impl PartialOrdSpecImpl for K { open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &K) -> Option<Ordering> { Some(if self.0 < o.0 { Ordering::Less } else if self.0 == o.0 { Ordering::Equal } else { Ordering::Greater }) } }
impl PartialOrd for K { #[verifier::external_body] fn partial_cmp(&self, o: &K) -> (r: Option<Ordering>) { self.0.partial_cmp(&o.0) } }
impl K { pub fn min_value() -> (r: K) ensures r.0 == 0 { K(0) } }
impl K { pub fn borrow(&self) -> (r: &K) ensures r == self { self } }
/// do keys of this type have their entries' memory accounted for?
pub uninterp spec fn uses_credit() -> bool;
#[verifier::external_body] pub fn vp_uses_credit() -> (r: bool) ensures r == uses_credit() { unimplemented!() }
pub uninterp spec fn needs_flush() -> bool;
#[verifier::external_body] pub fn vp_needs_flush() -> (r: bool) ensures r == needs_flush() { unimplemented!() }
/// mem::size_of::<(K, V)>()
pub uninterp spec fn kvs() -> nat;
pub broadcast axiom fn kvs_small() ensures #[trigger] kvs() < 0x1_0000;
#[verifier::external_body] pub fn vp_kvs() -> (r: usize) ensures r == kvs() { unimplemented!() }
pub uninterp spec fn max_alloc() -> nat;
pub broadcast axiom fn max_alloc_small() ensures #[trigger] max_alloc() < 0x1000_0000;
#[verifier::external_body] pub fn vp_max_alloc() -> (r: usize) ensures r == max_alloc() { unimplemented!() }
// ---- values; those that need flushing are stored elsewhere when a leaf is, and dropped or fetched from there
#[verifier::external_body] pub struct V { x: u8 }
pub uninterp spec fn alloc(v: V) -> nat;
/// what a stored value stands for
pub uninterp spec fn fetched(v: V) -> V;
pub struct World { pub gone: Ghost<Seq<(V, TxgT)>> }
#[verifier::external_body] pub struct D { x: u8 }
impl D { #[verifier::external_body] pub fn as_ref(&self) -> (r: &D) ensures r == self { unimplemented!() } #[verifier::external_body] pub fn clone(&self) -> (r: D) { unimplemented!() } }
impl V {
    #[verifier::external_body] pub fn allocated_space(&self) -> (r: usize) ensures r == alloc(*self), r < 0x1000_0000 { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: V) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn dpop(self, d: &D, t: TxgT, vp_w: &mut World) -> (r: Result<V>) ensures r matches Ok(v) ==> v == fetched(self), final(vp_w).gone@ == old(vp_w).gone@.push((self, t)) { unimplemented!() }
    #[verifier::external_body] pub fn ddrop(&self, d: &D, t: TxgT, vp_w: &mut World) -> (r: VpFut) ensures final(vp_w).gone@ == old(vp_w).gone@.push((*self, t)) { unimplemented!() }
}
#[verifier::external_body] pub struct VpFut { x: u8 }
/// FuturesUnordered, all run; the first error is the result
#[verifier::external_body] pub struct VpFuts { x: u8 }
impl VpFuts { #[verifier::external_body] pub fn new() -> Self { unimplemented!() } #[verifier::external_body] pub fn push(&mut self, f: VpFut) { unimplemented!() }
    #[verifier::external_body] pub fn vp_all(self) -> (r: Result<()>) { unimplemented!() } }
// ---- credit, as its contract (W01) has it: v() counts half bytes
#[verifier::external_body] pub struct Credit { x: u8 }
pub open spec fn some(v: int) -> bool { -0x0800_0000_0000_0000 < v < 0x0800_0000_0000_0000 }
impl Credit {
    pub uninterp spec fn v(&self) -> int;
    #[verifier::external_body] pub fn null() -> (r: Self) ensures r.v() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == (self.v() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn take(&mut self) -> (r: Self) ensures r.v() == old(self).v(), final(self).v() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, other: Credit) requires some(old(self).v()), some(other.v()) ensures final(self).v() == old(self).v() + other.v() { unimplemented!() }
    #[verifier::external_body] pub fn split(&mut self, n: usize) -> (r: Self) requires some(old(self).v()), n < 0x0400_0000_0000_0000
        ensures final(self).v() + r.v() == old(self).v(), r.v() == if old(self).v() < 2 * n { old(self).v() } else { 2 * n as int } { unimplemented!() }
    #[verifier::external_body] pub fn isplit(&mut self, n: isize) -> (r: Self) requires some(old(self).v()), -0x0400_0000_0000_0000 < n < 0x0400_0000_0000_0000
        ensures final(self).v() + r.v() == old(self).v(), r.v() == 2 * n { unimplemented!() }
    #[verifier::external_body] pub fn vp_plus(&mut self, n: usize) -> (r: isize) requires some(old(self).v()), n < 0x0400_0000_0000_0000 ensures final(self).v() == old(self).v(), 2 * r == old(self).v() + 2 * n { unimplemented!() }
    #[verifier::external_body] pub fn vp_is(&self, n: usize) -> (r: bool) ensures r == (self.v() == 2 * n) { unimplemented!() }
    #[verifier::external_body] pub fn vp_less(&self, n: usize) -> (r: bool) ensures r == (self.v() < 2 * n) { unimplemented!() }
}
// ---- transaction numbers
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct TxgT(pub u32);
impl PartialOrdSpecImpl for TxgT { open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &TxgT) -> Option<Ordering> { Some(if self.0 < o.0 { Ordering::Less } else if self.0 == o.0 { Ordering::Equal } else { Ordering::Greater }) } }
impl PartialOrd for TxgT { #[verifier::external_body] fn partial_cmp(&self, o: &TxgT) -> (r: Option<Ordering>) { self.0.partial_cmp(&o.0) } }
impl AddSpecImpl<u32> for TxgT { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, r: u32) -> bool { self.0 + r <= u32::MAX } open spec fn add_spec(self, r: u32) -> TxgT { TxgT((self.0 + r) as u32) } }
impl core::ops::Add<u32> for TxgT { type Output = Self; #[verifier::external_body] fn add(self, rhs: u32) -> Self::Output { TxgT(self.0 + rhs) } }
pub trait VpRange: Sized { fn vp_clone(&self) -> (r: Self) ensures r == *self; }
impl VpRange for Range<TxgT> { #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() } }
// ---- assumed contract on std::ops::RangeBounds: a range is a pair of bounds
pub open spec fn bview(b: Bound<&K>) -> Bound<K> { match b { Bound::Included(x) => Bound::Included(*x), Bound::Excluded(x) => Bound::Excluded(*x), Bound::Unbounded => Bound::Unbounded } }
pub trait RangeBounds { spec fn sb(&self) -> Bound<K>; spec fn eb(&self) -> Bound<K>;
    fn start_bound(&self) -> (r: Bound<&K>) ensures bview(r) == self.sb();
    fn end_bound(&self) -> (r: Bound<&K>) ensures bview(r) == self.eb(); }
pub open spec fn inside<R: RangeBounds>(r: R, k: K) -> bool {
    (match r.sb() { Bound::Included(s) => s.0 <= k.0, Bound::Excluded(s) => s.0 < k.0, Bound::Unbounded => true }) && (match r.eb() { Bound::Included(e) => k.0 <= e.0, Bound::Excluded(e) => k.0 < e.0, Bound::Unbounded => true }) }
/// bounds that BTreeMap's range does not panic at
pub open spec fn proper(s: Bound<K>, e: Bound<K>) -> bool { match (s, e) { (Bound::Excluded(a), Bound::Excluded(b)) => a.0 < b.0, (Bound::Included(a), Bound::Included(b)) => a.0 <= b.0, (Bound::Included(a), Bound::Excluded(b)) => a.0 <= b.0, (Bound::Excluded(a), Bound::Included(b)) => a.0 <= b.0, _ => true } }
// ---- assumed contract on std's ordered map, as a map whose keys come in order
#[verifier::external_body] pub struct BTreeMap { x: u8 }
pub open spec fn ascending(s: Seq<K>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0 }
impl BTreeMap {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r is Some <==> self@.dom().contains(*k), r is Some ==> *r->0 == self@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r is Some <==> old(self)@.dom().contains(k), r is Some ==> r->0 == old(self)@[k] { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k), r is Some <==> old(self)@.dom().contains(*k), r is Some ==> r->0 == old(self)@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn split_off(&mut self, k: &K) -> (r: Self) ensures below(final(self)@, old(self)@, *k), above(r@, old(self)@, *k) { unimplemented!() }
    #[verifier::external_body] pub fn append(&mut self, o: &mut BTreeMap) ensures final(self)@ == joined(old(self)@, old(o)@), final(o)@ == Map::<K, V>::empty() { unimplemented!() }
    /// keys().next_back(), keys().next(), keys().nth(i)
    #[verifier::external_body] pub fn vp_last(&self) -> (r: Option<&K>) ensures r is None <==> self@.dom().len() == 0, r matches Some(k) ==> most(self@, *k) { unimplemented!() }
    #[verifier::external_body] pub fn vp_first(&self) -> (r: Option<&K>) ensures r is None <==> self@.dom().len() == 0, r matches Some(k) ==> least(self@, *k) { unimplemented!() }
    #[verifier::external_body] pub fn vp_nth(&self, i: usize) -> (r: Option<&K>) ensures r is Some <==> i < self@.dom().len(),
        r matches Some(k) ==> self@.dom().contains(*k) && forall|a: Map<K, V>| #[trigger] below(a, self@, *k) ==> a.dom().len() == i { unimplemented!() }
    /// range(): the entries whose keys are inside, in order
    #[verifier::external_body] pub fn range<R: RangeBounds>(&self, r: R) -> (e: Vec<(&K, &V)>) requires proper(r.sb(), r.eb()) ensures listed(e@, self@, r) { unimplemented!() }
    /// extract_if(range, |_, _| true)
    #[verifier::external_body] pub fn vp_extract<R: RangeBounds>(&mut self, r: R) -> (e: Vec<(K, V)>) ensures taken(e@, old(self)@, final(self)@, r) { unimplemented!() }
    #[verifier::external_body] pub fn vp_elems(&self) -> (r: Vec<K>) ensures ascending(r@), forall|z: K| r@.contains(z) <==> #[trigger] self@.dom().contains(z) { unimplemented!() }
    #[verifier::external_body] pub fn vp_key(&self, k: K) -> (r: &K) requires self@.dom().contains(k) ensures *r == k { unimplemented!() }
    #[verifier::external_body] pub fn vp_at(&self, k: &K) -> (r: &V) requires self@.dom().contains(*k) ensures *r == self@[*k] { unimplemented!() }
}
/// the entries of `m` inside the range, in order
pub open spec fn listed<R: RangeBounds>(e: Seq<(&K, &V)>, m: Map<K, V>, r: R) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0.0 < (#[trigger] e[j]).0.0
    &&& forall|i: int| 0 <= i < e.len() ==> m.dom().contains(*(#[trigger] e[i]).0) && inside(r, *e[i].0) && *e[i].1 == m[*e[i].0]
    &&& forall|k: K| #[trigger] m.dom().contains(k) && inside(r, k) ==> exists|i: int| 0 <= i < e.len() && *(#[trigger] e[i]).0 == k
}
pub open spec fn listing<R: RangeBounds>(e: Seq<(K, V)>, m: Map<K, V>, r: R) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0.0 < (#[trigger] e[j]).0.0
    &&& forall|i: int| 0 <= i < e.len() ==> m.dom().contains((#[trigger] e[i]).0) && inside(r, e[i].0) && e[i].1 == m[e[i].0]
    &&& forall|k: K| #[trigger] m.dom().contains(k) && inside(r, k) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k
}
pub open spec fn taken<R: RangeBounds>(e: Seq<(K, V)>, m: Map<K, V>, n: Map<K, V>, r: R) -> bool {
    &&& listing(e, m, r)
    &&& sub(n, m)
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> (n.dom().contains(k) <==> !inside(r, k))
}
#[verifier::external_body] pub fn vp_take<T>(v: &mut Vec<T>, i: usize) -> (r: T) requires i < old(v)@.len() ensures r == old(v)@[i as int], final(v)@ == old(v)@ { unimplemented!() }
// ---- Vec::splice and drain, whose result is used at once
pub trait VpRng { spec fn lo(&self) -> int; spec fn hi(&self, n: int) -> int; }
impl VpRng for Range<usize> { open spec fn lo(&self) -> int { self.start as int } open spec fn hi(&self, n: int) -> int { self.end as int } }
impl VpRng for RangeFrom<usize> { open spec fn lo(&self) -> int { self.start as int } open spec fn hi(&self, n: int) -> int { n } }
pub fn vp_since(a: usize) -> (r: RangeFrom<usize>) ensures r.start == a { RangeFrom { start: a } }
pub trait VpVec<T>: Sized { spec fn q(&self) -> Seq<T>;
    fn vp_splice<R: VpRng>(&mut self, r: R, o: Vec<T>) requires 0 <= r.lo() <= r.hi(old(self).q().len() as int) <= old(self).q().len() ensures final(self).q() == old(self).q().take(r.lo()) + o@ + old(self).q().skip(r.hi(old(self).q().len() as int));
    fn vp_drain<R: VpRng>(&mut self, r: R) -> (e: Vec<T>) requires 0 <= r.lo() <= r.hi(old(self).q().len() as int) <= old(self).q().len() ensures final(self).q() == old(self).q().take(r.lo()) + old(self).q().skip(r.hi(old(self).q().len() as int)), e@ == old(self).q().subrange(r.lo(), r.hi(old(self).q().len() as int)); }
impl<T> VpVec<T> for Vec<T> { open spec fn q(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vp_splice<R: VpRng>(&mut self, r: R, o: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn vp_drain<R: VpRng>(&mut self, r: R) -> (e: Vec<T>) { unimplemented!() } }
/// binary_search_by on the children's keys
#[verifier::external_body] pub fn vp_search(c: &Vec<IntElem>, k: &K) -> (r: core::result::Result<usize, usize>) requires sorted(c@)
    ensures match r { Ok(i) => i < c@.len() && c@[i as int].key == *k, Err(p) => p <= c@.len() && (forall|i: int| 0 <= i < p ==> (#[trigger] c@[i]).key.0 < k.0) && forall|i: int| p <= i < c@.len() ==> (#[trigger] c@[i]).key.0 > k.0 } { unimplemented!() }
// ---- nodes in memory or on disk
#[verifier::external_body] pub struct A { x: u8 }
#[verifier::external_body] pub struct Node { x: u8 }
impl Node { pub uninterp spec fn data(&self) -> NodeData;
    #[verifier::external_body] pub fn new(d: NodeData) -> (r: Self) ensures r.data() == d { unimplemented!() } }
impl Clone for A { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } } impl Copy for A {}
/// what is at an address
pub uninterp spec fn at(a: A) -> NodeData;
/// reading a resident node shows its content; the store shows what is at an address, or an error; a pointer to nothing panics
impl Node { #[verifier::external_body] pub fn read(&self) -> (r: NodeData) ensures r == self.data() { unimplemented!() } }
#[verifier::external_body] pub fn vp_get(d: &D, a: &A) -> (r: Result<Box<Node>>) ensures r matches Ok(n) ==> n.data() == at(*a) { unimplemented!() }
#[verifier::external_body] pub fn vp_nothing<X>() -> (r: X) ensures false { unimplemented!() }
pub struct Tree { pub limits: Limits, pub dml: D }
pub struct TreeRoot { pub elem: IntElem, pub height: u8 }
impl Tree { pub uninterp spec fn root(&self) -> IntElem;
    /// locking the tree brings its root's element
    #[verifier::external_body] pub fn read(&self) -> (r: TreeRoot) ensures r.elem == self.root() { unimplemented!() } }
impl RangeBounds for (Bound<K>, Bound<K>) { open spec fn sb(&self) -> Bound<K> { self.0 } open spec fn eb(&self) -> Bound<K> { self.1 }
    #[verifier::external_body] fn start_bound(&self) -> (r: Bound<&K>) { unimplemented!() } #[verifier::external_body] fn end_bound(&self) -> (r: Bound<&K>) { unimplemented!() } }
// ---- a scan in progress: its pieces come from get_range
pub assume_specification<X, E>[core::result::Result::<Option<X>, E>::transpose](r: core::result::Result<Option<X>, E>) -> (o: Option<core::result::Result<X, E>>) ensures o == (match r { Ok(Some(x)) => Some(Ok::<X, E>(x)), Ok(None) => None, Err(e) => Some(Err(e)) });
pub enum Poll<T> { Ready(T), Pending }
pub struct Context { x: u8 }
#[verifier::external_body] pub struct Queue { x: u8 }
impl Queue { pub uninterp spec fn view(&self) -> Seq<(K, V)>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<(K, V)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<(K, V)>) ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first() { unimplemented!() } }
#[verifier::external_body] pub struct Piece { x: u8 }
impl Piece { pub uninterp spec fn rng(&self) -> (Bound<K>, Bound<K>); pub uninterp spec fn of(&self) -> Map<K, V>;
    /// the boxed future of get_range, polled: what get_range's contract says of its answer
    #[verifier::external_body] pub fn poll(&mut self, cx: &mut Context) -> (r: Poll<Result<(Queue, Option<Bound<K>>)>>)
        ensures final(self).rng() == old(self).rng(), final(self).of() == old(self).of(), r matches Poll::Ready(Ok(p)) ==> scanned(p.0@, p.1, old(self).rng(), old(self).of()) && (p.1 matches Some(c) ==> proper(c, old(self).rng().1)) { unimplemented!() } }
#[verifier::external_body] pub fn vp_piece(t: &Tree, r: (Bound<K>, Bound<K>), Ghost(m): Ghost<Map<K, V>>) -> (p: Piece) requires rooted(*t, m), proper(r.0, r.1) ensures p.rng() == r, p.of() == m { unimplemented!() }
pub struct RangeQuery { pub cursor: Option<Bound<K>>, pub data: Queue, pub end: Bound<K>, pub last_fut: Option<Piece>, pub tree: Tree }
pub fn vp_join<X, Y>(a: Result<X>, b: Result<Y>) -> (r: Result<(X, Y)>) ensures r matches Ok(p) ==> a == Ok::<X, Error>(p.0) && b == Ok::<Y, Error>(p.1) { match a { Ok(x) => match b { Ok(y) => Ok((x, y)), Err(e) => Err(e) }, Err(e) => Err(e) } }
#[verifier::external_body] pub fn vp_same<R: RangeBounds>(r: &R) -> (s: R) ensures s == *r { unimplemented!() }
/// locking a resident node for writing brings its content
impl Node { #[verifier::external_body] pub fn xlock(&self) -> (r: NodeData) ensures r == self.data() { unimplemented!() } }
/// the store hands out what is at an address, or an error
#[verifier::external_body] pub fn vp_pop(d: &D, a: &A, t: TxgT) -> (r: Result<Box<Node>>) ensures r matches Ok(n) ==> n.data() == at(*a) { unimplemented!() }
/// a node nobody else holds, with the content its writer left
#[verifier::external_body] pub fn vp_settled(n: Box<Node>, d: NodeData) -> (r: Node) ensures r.data() == d { unimplemented!() }
/// a child that can be made resident: paid for if it is, without credit if not
pub open spec fn ready(p: TreePtr) -> bool { match p { TreePtr::Mem(n) => paid(n.data()), TreePtr::Addr(a) => match at(a) { NodeData::Leaf(l) => small(l.items@) && l.credit.v() == 0, NodeData::Int(n) => n.children@.len() > 0 }, TreePtr::None => false } }
pub open spec fn in_use(d: NodeData) -> int { match d { NodeData::Leaf(l) => l.credit.v(), NodeData::Int(_) => 0 } }
impl Clone for Limits { fn clone(&self) -> Self { *self } } impl Copy for Limits {}
pub struct CreditRequirements { pub insert: usize, pub range_delete: usize, pub remove: usize }
/// the most a leaf can occupy
pub open spec fn leafful(l: Limits) -> int { l.max_leaf_fanout * (kvs() + max_alloc()) }
pub open spec fn target(p: TreePtr) -> NodeData { match p { TreePtr::Mem(n) => n.data(), TreePtr::Addr(a) => at(a), TreePtr::None => arbitrary() } }
"""
G = [("<A, K, V>", ""), ("<K, V>", ""), ("<A: Addr, K: Key, V: Value>", ""), ("<K: Key, V>", ""), ("<A: Addr, K: Key + DeserializeOwned, V: Value>", ""), ("pub (super)", "pub")]
TYPES = [("struct", "LeafData", dict(pub_fields=True, fixed=G)), ("enum", "TreePtr", dict(fixed=G)), ("struct", "IntElem", dict(pub_fields=True, fixed=G)),
    ("struct", "IntData", dict(pub_fields=True, fixed=G)), ("enum", "NodeData", dict(fixed=G)), ("struct", "Limits", dict(pub_fields=True, fixed=G))]
LEMMAS = ["tree.lemmas.rs"]
FNS = []
S = [("Vec<IntElem<A, K, V>>", "Vec<IntElem>", "the types are fixed")] + [(a, b, "the types are fixed") for a, b in G] + [("::<A, D>", "", ""), ("txgs.clone()", "txgs.vp_clone()", "Range"), ("isize::try_from(", "vp_to_isize(", "isize::try_from(usize)"),
    ("K::USES_CREDIT", "vp_uses_credit()", "a constant of the type"), ("V::NEEDS_FLUSH", "vp_needs_flush()", "a constant of the type"), ("mem::size_of::<(K, V)>()", "vp_kvs()", "a constant of the type"), ("V::MAX_ALLOCATED_SPACE", "vp_max_alloc()", "a constant of the type"),
    ("cmp::max(", "vp_max(", "cmp::max"), ("max(1,", "vp_max(1,", "cmp::max"), ("=> vp_panic()", "=> vp_never()", ""), ("{ vp_panic() }", "{ vp_never() }", "")]
PRE = [(".keys().next_back()", ".vp_last()", "the last key"), (".keys().next()", ".vp_first()", "the first key"), (".keys().nth(", ".vp_nth(", "a key by its place"), ("mem::size_of::<(K, V)>()", "vp_kvs()", "a constant of the type"), (".splice(", ".vp_splice(", "Vec::splice, dropped at once"), (".drain(", ".vp_drain(", "Vec::drain, used at once")]
W = "vp_w: &mut World"; WC = [(("dpop", "ddrop"), "vp_w")]
INT = [(a, b, "a name that is the verifier's") for a, b in (("(ref int)", "(ref vp_int)"), ("(ref mut int)", "(ref mut vp_int)"), ("(int)", "(vp_int)"), ("{ int }", "{ vp_int }"), ("=> int,", "=> vp_int,"), ("int.", "vp_int."))]
def fn(impl, name, **k):
    FNS.append(dict(impl=impl, name=name, subst=S + k.pop("subst", []), pre=k.pop("pre", []) + PRE + (INT if impl and impl.startswith("NodeData") else []), optmap=True, futs=k.pop("futs", False), as_impl=k.pop("as_impl", impl.split("<")[0] if impl else None), **k))
LD = "LeafData<K, V>"; NI = "IntData<A, K, V>"; ND = "NodeData<A, K, V>"; IE = "IntElem<A, K, V>"; TP = "TreePtr<A, K, V>"
GS = "broadcast use {kvs_small, max_alloc_small};"
fn(LD, "assert_accredited", subst=[("(self.credit) == (self.wb_space())", "self.credit.vp_is(self.wb_space())", "PartialEq<usize> for Credit")], requires=["small(self.items@)", "credited(self.credit, self.items@)"], no_probe=True)
SUM = lambda m, n="": dict(kind="while", ghost_start=GS, invariant=["ascending(vp_s%s@)" % n, "forall|x: K| vp_s%s@.contains(x) <==> #[trigger] %s@.dom().contains(x)" % (n, m), "vp_i%s <= vp_s%s@.len()" % (n, n), "vp_acc%s == first_keys(%s@, vp_s%s@, vp_i%s as int)" % (n, m, n, n), "asum(%s@) < 0x0040_0000_0000_0000" % m], decreases="vp_s%s@.len() - vp_i%s" % (n, n),
    start="assert(vp_s%s@.contains(vp_s%s@[vp_i%s as int])); lemma_first_keys(%s@, vp_s%s@); lemma_first_max(%s@, vp_s%s@, vp_i%s + 1);" % (n, n, n, m, n, m, n, n), after="lemma_first_keys(%s@, vp_s%s@);" % (m, n))
NL = "assert(self.items@.dom().len() * kvs() >= 0) by (nonlinear_arith);"
fn(LD, "wb_space", requires=["small(self.items@)"], ensures=["ret == space(self.items@)"], ghost_start=GS + " proof { %s }" % NL, pipes=dict(kinds={"self.items": "map"}, types=["usize"]), loops=[SUM("self.items")])
fn(LD, "acredit", subst=[("(self.credit) == (0usize)", "self.credit.vp_is(0usize)", "PartialEq<usize> for Credit"), ("*credit < need", "credit.vp_less(need)", "PartialOrd<usize> for Credit")], 
   requires=["small(old(self).items@)", "old(self).credit.v() == 0", "some(old(credit).v())"], ensures=["final(self).items@ == old(self).items@", "credited(final(self).credit, final(self).items@)", "final(credit).v() + final(self).credit.v() == old(credit).v()"],
   ghost_start=GS + " proof { assert(self.items@.dom().len() * kvs() >= 0) by (nonlinear_arith); }")
fn(LD, "forget", ensures=["ret.v() == self.credit.v()"], subst=[("mut self", "self", "")], ghost_start="let mut vp_self = self;")
FNS[-1]["subst"].append(("self.credit.take()", "vp_self.credit.take()", "a parameter that is changed"))
fn(LD, "take_credit", ensures=["ret.v() == old(self).credit.v()", "final(self).credit.v() == 0", "final(self).items@ == old(self).items@"])
fn(LD, "get", generics=" ", subst=[("<Q>", "", ""), ("&Q", "&K", ""), ("K: Borrow<Q>, Q: Ord", "", "")], pre=[("self.items.get(k).cloned()", "match self.items.get(k) { Some(vp_v) => Some(vp_v.clone()), None => None }", "Option::cloned")],
   ensures=["match ret { Some(v) => self.items@.dom().contains(*k) && v == self.items@[*k], None => !self.items@.dom().contains(*k) }"])

NOGEN = dict(generics=" ")
fn(LD, "last_key", pre=[("self.items.keys().next_back().cloned()", "match self.items.vp_last() { Some(vp_k) => Some(*vp_k), None => None }", "Option::cloned")], ensures=["ret is None <==> self.items@.dom().len() == 0", "ret matches Some(k) ==> most(self.items@, k)"])
fn(LD, "insert", **NOGEN, ghost_param=W, ghost_calls=WC, ret_type="(Result<Option<V>>, Credit)",
   pre=[("return v.dpop(dml, txg).map(move |r| (Some(r).transpose(), excess_credit)).boxed()", "return (match v.dpop(dml, txg) { Ok(vp_v) => Ok(Some(vp_v)), Err(vp_e) => Err(vp_e) }, excess_credit)", "a future as its result"), ("future::ready((Ok(old_v), excess_credit)).boxed()", "(Ok(old_v), excess_credit)", "a future that is ready"),
        ("(&mut credit + old_space)", "vp_credit.vp_plus(old_space)", "Add<usize> for &mut Credit"), ("self.credit.extend(credit)", "self.credit.extend(vp_credit)", "a parameter that is changed"), ("credit.is_null()", "vp_credit.is_null()", "a parameter that is changed"),
        ("old_v.as_ref().map(|v| v.allocated_space() + kvs).unwrap_or(0)", "(match old_v.as_ref() { Some(v) => v.allocated_space() + kvs, None => 0 })", "Option::map and unwrap_or")],
   subst=[("dml: &D", "dml: &D", ""), ("mut credit: Credit", "credit: Credit", "")], ghost_start=GS + " let mut vp_credit = credit; proof { lemma_put(self.items@, k, v); lemma_out(self.items@, k); }",
   requires=["small(old(self).items@)", "old(self).items@.dom().len() < 0xfff_0000", "space(old(self).items@) < 0x0030_0000_0000_0000", "credited(old(self).credit, old(self).items@)", "some(2 * credit.v())", "credit.v() % 2 == 0", "-0x0010_0000_0000_0000 < credit.v() < 0x0010_0000_0000_0000", "!uses_credit() ==> credit.v() == 0"],
   ensures=["final(self).items@ == old(self).items@.insert(k, v)", "credited(final(self).credit, final(self).items@)", "final(self).credit.v() + ret.1.v() == old(self).credit.v() + credit.v()",
       "ret.0 matches Ok(o) ==> (match o { Some(x) => old(self).items@.dom().contains(k) && x == (if needs_flush() { fetched(old(self).items@[k]) } else { old(self).items@[k] }), None => !old(self).items@.dom().contains(k) })",
       "!needs_flush() || !old(self).items@.dom().contains(k) ==> ret.0 is Ok && final(vp_w).gone@ == old(vp_w).gone@", "needs_flush() && old(self).items@.dom().contains(k) ==> final(vp_w).gone@ == old(vp_w).gone@.push((old(self).items@[k], txg))"])
fn(LD, "remove", futs=True, **NOGEN, ghost_param=W, ghost_calls=WC, ret_type="Result<(Option<V>, Credit)>", subst=[("&Q", "&K", "")],
   pre=[("old_v.as_ref().map(|v| v.allocated_space() + mem::size_of::<(K, V)>()).unwrap_or(0)", "(match old_v.as_ref() { Some(v) => v.allocated_space() + vp_kvs(), None => 0 })", "Option::map and unwrap_or")],
   ghost_start=GS + " proof { lemma_out(self.items@, *k); }",
   requires=["small(old(self).items@)", "credited(old(self).credit, old(self).items@)"],
   ensures=["final(self).items@ == old(self).items@.remove(*k)", "credited(final(self).credit, final(self).items@)", "ret matches Ok(p) ==> final(self).credit.v() + p.1.v() == old(self).credit.v()",
       "ret matches Ok(p) ==> (match p.0 { Some(x) => old(self).items@.dom().contains(*k) && x == (if needs_flush() { fetched(old(self).items@[*k]) } else { old(self).items@[*k] }), None => !old(self).items@.dom().contains(*k) })",
       "!needs_flush() || !old(self).items@.dom().contains(*k) ==> ret is Ok && final(vp_w).gone@ == old(vp_w).gone@", "needs_flush() && old(self).items@.dom().contains(*k) ==> final(vp_w).gone@ == old(vp_w).gone@.push((old(self).items@[*k], txg))"])
RG = dict(generics="<R: RangeBounds>", probe_generics="<R: RangeBounds>")
fn(LD, "range", **RG, requires=["proper(range.sb(), range.eb())"], subst=[("VecDeque<(K, V)>", "Vec<(K, V)>", "a queue as a sequence"), ("VecDeque::new()", "Vec::new()", "a queue as a sequence")],
   pre=[("!matches!(range.end_bound(), Bound::Included(i) | Bound::Excluded(i) if i <= l.borrow())", "(match range.end_bound() { Bound::Included(i) => !(*i <= *l), Bound::Excluded(i) => !(*i <= *l), Bound::Unbounded => true })", "the match the macro stands for")],
   pipes=dict(calls={"range": "vec"}, types=["Vec<(K, V)>"]), ghost_start="let ghost vp_r = range;",
   loops=[dict(kind="while", invariant=["vp_i <= vp_s@.len()", "listed(vp_s@, self.items@, vp_r)", "vp_acc@.len() == vp_i", "forall|j: int| 0 <= j < vp_i ==> (#[trigger] vp_acc@[j]).0 == *vp_s@[j].0 && vp_acc@[j].1 == *vp_s@[j].1"], decreases="vp_s@.len() - vp_i",
        after="lemma_listing(vp_s@, vp_acc@, self.items@, vp_r);")],
   ensures=["listing(ret.0@, self.items@, range)", "!ret.1 ==> (forall|k: K| (forall|x: K| #[trigger] self.items@.dom().contains(x) ==> x.0 < k.0) ==> !#[trigger] inside(range, k)) || self.items@.dom().len() == 0",
       "self.items@.dom().len() == 0 ==> !ret.1",
       "self.items@.dom().len() > 0 ==> (ret.1 <==> (match range.eb() { Bound::Included(e) => exists|l: K| #[trigger] most(self.items@, l) && e.0 > l.0, Bound::Excluded(e) => exists|l: K| #[trigger] most(self.items@, l) && e.0 > l.0, Bound::Unbounded => true }))"])
for nm in ("range_delete_unaccredited", "range_delete"):
    fn(LD, nm, **RG, ghost_param=W, ghost_calls=[(("ddrop", "range_delete_unaccredited"), "vp_w")], ret_type="Result<Credit>", subst=[],
       pre=[("in self.items.extract_if(range, |_, _| true)", "in self.items.vp_extract(range).into_iter()", "all entries in a range are taken out"), ("fut.try_fold((), |_, _| future::ok(())).map_ok(move |_| credit)", "(match fut.vp_all() { Ok(_) => Ok(credit), Err(vp_e) => Err(vp_e) })", "all futures run"),
            ("let fut = FuturesUnordered", "let mut fut = FuturesUnordered", ""), ("let fut: FuturesUnordered", "let mut fut: FuturesUnordered", ""), ("FuturesUnordered::new()", "VpFuts::new()", "FuturesUnordered"), ("let mut allocated_space = 0;", "let mut allocated_space: usize = 0;", ""), ("let mut l = 0;", "let mut l: usize = 0;", ""), ("ddrop::<D>", "ddrop", "")] if nm != "range_delete" else [],
       pipes=dict(fors=True, calls={"vp_extract": "vec"}), ghost_start=GS + " let ghost vp_m0 = self.items@; let ghost vp_g0 = vp_w.gone@; let ghost vp_r = range;",
       requires=["small(old(self).items@)", "credited(old(self).credit, old(self).items@)"],
       ensures=["sub(final(self).items@, old(self).items@)", "forall|k: K| #[trigger] old(self).items@.dom().contains(k) ==> (final(self).items@.dom().contains(k) <==> !inside(range, k))", "credited(final(self).credit, final(self).items@)",
           "ret matches Ok(c) ==> final(self).credit.v() + c.v() == old(self).credit.v()", "dropped(old(vp_w).gone@, final(vp_w).gone@, old(self).items@, range, txg)"],
       **(dict(loops=[dict(kind="while", ghost_start=GS, invariant=["vp_i <= vp_s@.len()", "vp_s@ == vp_e0", "taken(vp_e0, vp_m0, self.items@, vp_r)", "l == vp_i", "allocated_space == esum(vp_e0, vp_i as int)", "esum(vp_e0, vp_e0.len() as int) + vp_e0.len() * kvs() < 0x0040_0000_0000_0000", "vp_e0.len() < 0x1000_0000",
             "vp_w.gone@ == (if needs_flush() { vp_g0 + dropping(vp_e0, txg, vp_i as int) } else { vp_g0 })"], decreases="vp_s@.len() - vp_i", ghost_before="let ghost vp_e0 = vp_s@; proof { lemma_taken(vp_e0, vp_m0, self.items@, vp_r); }", start="lemma_esum(vp_e0, vp_i + 1); lemma_asum_pos(vp_e0.len() as int);", end="assert(vp_g0 + dropping(vp_e0, txg, vp_i as int) =~= (vp_g0 + dropping(vp_e0, txg, vp_i - 1)).push((vp_e0[vp_i - 1].1, txg)));",
             after="lemma_taken(vp_e0, vp_m0, self.items@, vp_r);")]) if nm != "range_delete" else {}))
fn(LD, "split", **NOGEN, pre=[("Node::new(NodeData::Leaf(ld))", "Node::new(NodeData::Leaf(ld))", "")], requires=["small(old(self).items@)", "credited(old(self).credit, old(self).items@)", "left_items < old(self).items@.dom().len()", "txg.0 < u32::MAX"],
   ghost_start=GS + " let ghost vp_m0 = self.items@;", after_let={"new_items": "lemma_cut(vp_m0, self.items@, new_items@, cutoff); lemma_parts(vp_m0, self.items@, new_items@);"},
   ensures=["ret.0 == (Range { start: txg, end: TxgT((txg.0 + 1) as u32) })", "cut_in_two(NodeData::Leaf(*old(self)), NodeData::Leaf(*final(self)), target(ret.1.ptr))", "size_of_node(NodeData::Leaf(*final(self))) == left_items", "size_of_node(target(ret.1.ptr)) == old(self).items@.dom().len() - left_items", "ret.1.txgs == ret.0", "low(target(ret.1.ptr), ret.1.key)",
       "credited(final(self).credit, final(self).items@)", "paid(target(ret.1.ptr))", "sound(target(ret.1.ptr))", "small(final(self).items@)", "old(self).credit.v() == final(self).credit.v() + target(ret.1.ptr)->Leaf_0.credit.v()"])

# ---- pointers and elements
fn(IE, "rlock", futs=True, generics=" ", ret_type="Result<NodeData>", pre=[(".in_current_span()", "", "tracing"), ("node.0.read()", "node.read()", "reading"), ("TreeReadGuard::Mem(g)", "g", "a read guard is what it guards"), ("TreeReadGuard::Addr(guard, *node)", "guard", "a read guard is what it guards"), ("dml.get::<Arc<Node<A, K, V>>, Arc<Node<A, K, V>>>(addr)", "vp_get(dml, addr)", "the store's get"), ('unreachable!("None is just a temporary value")', "vp_nothing()", "panics")],
   subst=[("self: &IntElem", "&self", ""), ("Arc<D>", "D", "what a counted reference refers to")], ensures=["ret matches Ok(n) ==> n == target(self.ptr)"])
fn(TP, "is_mem", ensures=["ret == (self is Mem)"])
fn(TP, "as_mem", requires=["self is Mem"], ensures=["*self == TreePtr::Mem(Box::new(*ret))"])
fn(TP, "as_addr", requires=["self is Addr"], ensures=["*self == TreePtr::Addr(*ret)"])
fn(TP, "is_addr", ensures=["ret == (self is Addr)"])
fn(TP, "is_dirty", ensures=["ret == (self is Mem)"])
fn("Default for LeafData<K, V>", "default", as_impl="LeafData", ret_type="LeafData", ensures=["ret.items@ == Map::<K, V>::empty()", "ret.credit.v() == 0"])
fn("Default for IntElem<A, K, V>", "default", as_impl="IntElem", ret_type="IntElem", subst=[("TxgT::from(0)", "TxgT(0)", "")], ensures=["ret.ptr is Mem", "ret.key.0 == 0", "target(ret.ptr) matches NodeData::Leaf(l) && l.items@ == Map::<K, V>::empty() && l.credit.v() == 0"])
fn(IE, "is_dirty", ensures=["ret == (self.ptr is Mem)"])
fn(IE, "new", ensures=["ret == (IntElem { key, txgs, ptr })"])
fn("Limits", "max_fanout", pre=[("max(", "vp_max16(", "cmp::max")], ensures=["ret == if self.max_leaf_fanout < self.max_int_fanout { self.max_int_fanout } else { self.max_leaf_fanout }"])
fn("Limits", "max_leaf_fanout", ensures=["ret == self.max_leaf_fanout"])
fn("Limits", "new", ensures=["ret.min_int_fanout == min_int_fanout", "ret.max_int_fanout == max_int_fanout", "ret.min_leaf_fanout == min_leaf_fanout", "ret.max_leaf_fanout == max_leaf_fanout"])
# ---- inner nodes
fn(NI, "has_dirty_children", pipes=dict(), loops=[dict(kind="while", invariant_except_break=["!vp_acc"], invariant=["vp_i <= self.children@.len()", "!vp_acc ==> forall|j: int| 0 <= j < vp_i ==> !((#[trigger] self.children@[j]).ptr is Mem)", "vp_acc ==> exists|j: int| 0 <= j < self.children@.len() && (#[trigger] self.children@[j]).ptr is Mem"], ensures=["vp_acc || vp_i == self.children@.len()"], decreases="self.children@.len() - vp_i")],
   ensures=["ret <==> exists|j: int| 0 <= j < self.children@.len() && (#[trigger] self.children@[j]).ptr is Mem"])
fn(NI, "nchildren", ensures=["ret == self.children@.len()"])
fn(NI, "new", ensures=["ret.children == children"])
fn(NI, "position", generics=" ", subst=[("&Q", "&K", "")], pre=[("self.children.binary_search_by(|child| child.key.borrow().cmp(k)).unwrap_or_else(|k| if k == 0 {k} else {k - 1})", "(match vp_search(&self.children, k) { Ok(vp_v) => vp_v, Err(k) => if k == 0 {k} else {k - 1} })", "binary_search_by and unwrap_or_else")],
   requires=["sorted(self.children@)"], ensures=["place(self.children@, *k, ret as int)"])
fn(NI, "start_txg", pipes=dict(types=["TxgT"]), requires=["self.children@.len() > 0"], ensures=["oldest(self.children@, ret)"],
   loops=[dict(kind="while", invariant=["vp_i <= self.children@.len()", "vp_acc is None <==> vp_i == 0", "vp_acc matches Some(t) ==> exists|j: int| 0 <= j < vp_i && (#[trigger] self.children@[j]).txgs.start == t", "vp_acc matches Some(t) ==> forall|j: int| 0 <= j < vp_i ==> t.0 <= (#[trigger] self.children@[j]).txgs.start.0"], decreases="self.children@.len() - vp_i")])
fn(NI, "split", ghost_start="let ghost vp_c0 = self.children@;", after_let={"new_children": "assert(vp_c0 =~= self.children@ + new_children@);"}, requires=["0 < left_items < old(self).children@.len()", "sorted(old(self).children@)", "txg.0 < u32::MAX"],
   ensures=["cut_in_two(NodeData::Int(*old(self)), NodeData::Int(*final(self)), target(ret.1.ptr))", "final(self).children@.len() == left_items", "size_of_node(target(ret.1.ptr)) == old(self).children@.len() - left_items", "oldest(final(self).children@, ret.0.start)", "ret.0.end.0 == txg.0 + 1", "ret.1.txgs.end == ret.0.end", "target(ret.1.ptr) is Int && oldest(target(ret.1.ptr)->Int_0.children@, ret.1.txgs.start)", "low(target(ret.1.ptr), ret.1.key)", "sound(target(ret.1.ptr))", "sorted(final(self).children@)"])
# ---- nodes
for k, v in (("int", "Int"), ("leaf", "Leaf")):
    fn(ND, "as_" + k, requires=["self is " + v], ensures=["*ret == self->%s_0" % v], subst=[("{ vp_panic ( ) ; }", "{ vp_never() }", "")])
    fn(ND, "as_%s_mut" % k, requires=["*old(self) is " + v], ensures=["*ret == old(self)->%s_0" % v, "*final(self) == NodeData::%s(*final(ret))" % v])
fn(ND, "into_leaf", requires=["self is Leaf"], ensures=["ret == self->Leaf_0"])
fn(ND, "is_leaf", ensures=["ret == (self is Leaf)"])
fn(ND, "has_dirty_children", ensures=["ret <==> self is Int && exists|j: int| 0 <= j < self->Int_0.children@.len() && (#[trigger] self->Int_0.children@[j]).ptr is Mem"])
fn(ND, "len", ensures=["ret == size_of_node(*self)"])
fn(ND, "min_fanout", ensures=["ret == min_of(*self, *limits)"])
fn(ND, "max_fanout", ensures=["ret == max_of(*self, *limits)"])
fn(ND, "key", requires=["size_of_node(*self) > 0"], ensures=["low(*self, *ret)"])
fn(ND, "in_danger", ensures=["ret == (size_of_node(*self) <= min_of(*self, *limits))"])
fn(ND, "in_extra_danger", ensures=["ret == (size_of_node(*self) <= min_of(*self, *limits) + 1)"], requires=["min_of(*self, *limits) < 0xffff"])
fn(ND, "can_merge", requires=["size_of_node(*self) + size_of_node(*rhs) < 0x1_0000_0000"], ensures=["ret == (size_of_node(*self) + size_of_node(*rhs) <= max_of(*self, *limits))"])
fn(ND, "underflow", ensures=["ret == (size_of_node(*self) < min_of(*self, *limits))"])
fn(ND, "should_split", requires=["size_of_node(*self) <= max_of(*self, *limits)"], ensures=["ret == (size_of_node(*self) >= max_of(*self, *limits) && !(self is Leaf && self->Leaf_0.items@.dom().contains(*key)))"])
fn(ND, "start_txg", requires=["self is Int ==> self->Int_0.children@.len() > 0"], ensures=["self is Leaf ==> ret == my_txg", "self is Int ==> oldest(self->Int_0.children@, ret)"])
fn(ND, "take_credit", requires=["*old(self) is Leaf"], ensures=["*final(self) is Leaf", "final(self)->Leaf_0.items@ == old(self)->Leaf_0.items@", "ret.v() == old(self)->Leaf_0.credit.v()", "final(self)->Leaf_0.credit.v() == 0"])
FAN = "2 * min_of(*old(self), *limits) + 1 <= max_of(*old(self), *limits)"
fn(ND, "split", requires=["sound(*old(self))", "paid(*old(self))", "txg.0 < u32::MAX", "size_of_node(*old(self)) == max_of(*old(self), *limits)", "0 < min_of(*old(self), *limits)", FAN],
   ensures=["cut_in_two(*old(self), *final(self), target(ret.1.ptr))", "low(target(ret.1.ptr), ret.1.key)", "sound(*final(self))", "sound(target(ret.1.ptr))", "paid(*final(self))", "paid(target(ret.1.ptr))",
       "min_of(*final(self), *limits) <= size_of_node(*final(self)) < max_of(*final(self), *limits)", "min_of(*final(self), *limits) <= size_of_node(target(ret.1.ptr)) < max_of(*final(self), *limits)",
       "size_of_node(*final(self)) == (if seq { size_of_node(*old(self)) - min_of(*old(self), *limits) } else { (size_of_node(*old(self)) + 1) / 2 })",
       "ret.0.end.0 == txg.0 + 1", "ret.1.txgs.end == ret.0.end", "*old(self) is Leaf ==> ret.0.start == txg && ret.1.txgs.start == txg && old(self)->Leaf_0.credit.v() == final(self)->Leaf_0.credit.v() + target(ret.1.ptr)->Leaf_0.credit.v()", "*old(self) is Int ==> oldest(final(self)->Int_0.children@, ret.0.start) && oldest(target(ret.1.ptr)->Int_0.children@, ret.1.txgs.start)"])
GUARD = [("mut other: TreeWriteGuard", "other: NodeData", "a write guard is what it guards")]
fn(ND, "check", pre=[('let id = NodeId{height, key};', '', 'only for the message'), ('eprintln!("Node underflow. Node {id:?} has {l} items");', '', 'a message')], subst=[("key > *self.key()", "key > *self.key()", "")],
   requires=["size_of_node(*self) > 0 || is_root"],
   ensures=["ret <==> (is_root || size_of_node(*self) >= min_of(*self, *limits)) && size_of_node(*self) <= max_of(*self, *limits) && (is_root || exists|k: K| #[trigger] low(*self, k) && key.0 <= k.0)"])
PAIR = ["siblings(*old(self), *old(other))", "roomy(*old(self), *old(other))", "paid(*old(self))", "paid(*old(other))"]
fn(ND, "merge", requires=["siblings(*old(self), other)", "roomy(*old(self), other)", "paid(*old(self))", "paid(other)"], subst=GUARD, ghost_start=GS + " let mut other = other; proof { if *self is Leaf { lemma_joined(self->Leaf_0.items@, other->Leaf_0.items@); } }",
   ensures=["cut_in_two(*final(self), *old(self), other)", "size_of_node(*final(self)) == size_of_node(*old(self)) + size_of_node(other)", "paid(*final(self))", "sound(*final(self))", "*old(self) is Leaf ==> final(self)->Leaf_0.credit.v() == old(self)->Leaf_0.credit.v() + other->Leaf_0.credit.v()"])
EVEN = ["moved(size_of_node(*old(self)), size_of_node(*old(other)), size_of_node(*final(self)), size_of_node(*final(other)))", "paid(*final(self))", "paid(*final(other))", "sound(*final(self))", "sound(*final(other))", "*old(self) is Leaf ==> *final(self) is Leaf && *final(other) is Leaf && final(self)->Leaf_0.credit.v() + final(other)->Leaf_0.credit.v() == old(self)->Leaf_0.credit.v() + old(other)->Leaf_0.credit.v()"]
for nm, a, b, half in (("take_high_keys", "other", "self", "other_right_half"), ("take_low_keys", "self", "other", "other_left_half")):
    fn(ND, nm, requires=["siblings(*old(%s), *old(%s))" % (a, b), "roomy(*old(self), *old(other))", "paid(*old(self))", "paid(*old(other))", "size_of_node(*old(self)) < size_of_node(*old(other))", "size_of_node(*old(other)) >= 2", "*old(self) is Leaf ==> sound(*old(self))"],
       ensures=["together(*old(%s), *old(%s), *final(%s), *final(%s))" % (a, b, a, b)] + EVEN, pre=[("nchildren..,", "vp_since(nchildren),", "a range with no end"), ("mem::replace(other_items, other_right_half)", "mem::replace(other_items, other_right_half)", "")],
       ghost_start=GS + " let ghost vp_a = *%s; let ghost vp_b = *%s; proof { if *self is Leaf { lemma_joined(vp_a->Leaf_0.items@, vp_b->Leaf_0.items@); } }" % (a, b),
       after_let={half: "let ghost vp_x = vp_a->Leaf_0.items@; let ghost vp_y = vp_b->Leaf_0.items@; let ghost vp_h = %s@; let ghost vp_k = other_items@; " % half + ("lemma_cut(vp_x, vp_k, vp_h, cutoff); lemma_share_high(vp_x, vp_y, vp_k, vp_h);" if nm == "take_high_keys" else "lemma_cut(vp_y, vp_h, vp_k, cutoff); lemma_share_low(vp_x, vp_y, vp_h, vp_k);") + " lemma_asum_pos(vp_h.dom().len() as int);"},
       end="if *self is Int { let x = %s->Int_0.children@; let y = %s->Int_0.children@; assert(vp_a->Int_0.children@ + vp_b->Int_0.children@ =~= x + y); lemma_sorted_parts(x, y); }" % (a, b),
       pipes=dict(kinds={half: "map"}, types=["usize"]), loops=[SUM(half)])
# ---- the tree
TR = "Tree<A, D, K, V>"
RO = dict(file=TREE, no_canary=True)
RD = [("TreeReadGuard<A, K, V>", "NodeData", "a read guard is what it guards"), ("TreeReadGuard", "NodeData", "a read guard is what it guards"), ("&TreeWriteGuard", "&NodeData", "a write guard is what it guards"), ("Arc<D>", "D", "what a counted reference refers to")]
fn(None, "ranges_overlap", file=TREE, generics="<R: RangeBounds>", probe_generics="<R: RangeBounds>", subst=[("Range<U>", "Range<K>", "the types are fixed"), ("T: PartialOrd", "", ""), ("U: Borrow<T> + PartialOrd,", "", "")],
   ensures=["!ret ==> forall|k: K| y.start.0 <= k.0 < y.end.0 ==> !#[trigger] inside(*x, k)", "ret ==> y.start.0 < y.end.0"])
fn(TR, "credit_requirements", as_impl="Tree", file=TREE, ghost_start=GS + " proof { lemma_leafful(self.limits); }", ensures=["ret.insert == 2 * leafful(self.limits)", "ret.range_delete == 3 * leafful(self.limits)", "ret.remove == 2 * leafful(self.limits)"])
fn(TR, "get_r", as_impl="Tree", file=TREE, futs=True, pre=[(".in_current_span()", "", "tracing"), ("match *node {", "match node {", "a guard is what it guards")] + INT, subst=RD + [("drop(node);", "", "the lock is let go")], ret_type="Result<Option<V>>",
   ghost_param="Ghost(vp_h): Ghost<nat>", ghost_calls=[(("get_r",), "Ghost((vp_h - 1) as nat)")], attrs=["#[verifier::exec_allows_no_decreases_clause]"], ghost_start="let ghost vp_d = node;",
   after_let={"child_elem": "lemma_down(vp_d, vp_h, k, choose|p: int| #[trigger] place(vp_d->Int_0.children@, k, p) && vp_d->Int_0.children@[p] == *child_elem);"},
   requires=["wf(node, vp_h)"], ensures=["ret matches Ok(Some(v)) ==> has(node, vp_h, k, v)", "ret matches Ok(None) ==> forall|v: V| !#[trigger] has(node, vp_h, k, v)"])
fn(TR, "last_key_r", as_impl="Tree", file=TREE, futs=True, pre=[(".in_current_span()", "", "tracing"), ("match *node {", "match node {", "a guard is what it guards")] + INT, subst=RD + [("drop(node);", "", "the lock is let go")], ret_type="Result<Option<K>>",
   ghost_param="Ghost(vp_h): Ghost<nat>", ghost_calls=[(("last_key_r",), "Ghost((vp_h - 1) as nat)")], attrs=["#[verifier::exec_allows_no_decreases_clause]"], ghost_start="let ghost vp_d = node; proof { if vp_d is Leaf { assert forall|x: K| #[trigger] most(vp_d->Leaf_0.items@, x) implies greatest(vp_d, vp_h, x) by { assert(has(vp_d, vp_h, x, vp_d->Leaf_0.items@[x])); } assert forall|x: K, v: V| #[trigger] has(vp_d, vp_h, x, v) implies vp_d->Leaf_0.items@.dom().contains(x) by {} } }",
   after_let={"child_elem": "assert forall|x: K| #[trigger] greatest(target(child_elem.ptr), (vp_h - 1) as nat, x) implies greatest(vp_d, vp_h, x) by { lemma_last(vp_d, vp_h, x); } lemma_last(vp_d, vp_h, K(0));"},
   requires=["wf(node, vp_h)", "peopled(node, vp_h)"], ensures=["ret matches Ok(Some(k)) ==> greatest(node, vp_h, k)", "ret matches Ok(None) ==> forall|k: K, v: V| !#[trigger] has(node, vp_h, k, v)"])
fn(TR, "get_range_r", as_impl="Tree", file=TREE, futs=True, generics="<R: RangeBounds>", probe_generics="<R: RangeBounds>", ret_type="Result<(Vec<(K, V)>, Option<Bound<K>>)>",
   pre=[(".in_current_span()", "", "tracing"), ("match *guard {", "match guard {", "a guard is what it guards"), ("future::try_join(", "vp_join(", "try_join of two results"), ("range.clone()", "vp_same(&range)", "a clone is the same"),
        ("ng.key().borrow().clone()", "*ng.key()", "a clone is the same"), ("leaf.last_key().unwrap().borrow().clone()", "leaf.last_key().unwrap()", "a clone is the same"),
        ("next_key.borrow() <= x", "next_key <= *x", "Borrow<K> of a K"), ("next_key.borrow() < x", "next_key < *x", "Borrow<K> of a K"), ("*g.key().borrow()", "*g.key()", "Borrow<K> of a K"), ("x.clone()", "*x", "a clone is the same")] + INT,
   subst=[("Option<TreeReadGuard<A, K, V>>", "Option<NodeData>", "a read guard is what it guards")] + RD + [("drop(guard);", "", "the lock is let go"), ("Bound<T>", "Bound<K>", "the types are fixed")],
   ghost_param="Ghost(vp_m): Ghost<Map<K, V>>", ghost_calls=[(("get_range_r",), "Ghost(vp_m)")], attrs=["#[verifier::exec_allows_no_decreases_clause]"], ghost_start="let ghost vp_d = guard; let ghost vp_n = next_guard; let ghost vp_r = range;",
   after_let={"more": "lemma_scan_leaf(vp_d, vp_n, vp_r, vp_m, v@, more);", "child_elem": "lemma_scan_down(vp_d, vp_n, vp_r, vp_m, child_idx as int);"},
   requires=["scanning(guard, next_guard, range, vp_m)", "proper(range.sb(), range.eb())", "next_guard matches Some(n) ==> reaches(range, n)"], ensures=["ret matches Ok(p) ==> scanned(p.0@, p.1, range, vp_m)", "ret matches Ok((_, Some(c))) ==> proper(c, range.eb())"])
fn(TR, "get_range", as_impl="Tree", file=TREE, futs=True, generics="<R: RangeBounds>", probe_generics="<R: RangeBounds>", ret_type="Result<(Vec<(K, V)>, Option<Bound<K>>)>", pre=[(".in_current_span()", "", "tracing")], subst=RD + [("drop(tree_guard);", "", "the lock is let go")],
   ghost_param="Ghost(vp_m): Ghost<Map<K, V>>", ghost_calls=[(("get_range_r",), "Ghost(vp_m)")], ghost_start="proof { lemma_scan_root(*self, range, vp_m); }", requires=["rooted(*self, vp_m)", "proper(range.sb(), range.eb())"], ensures=["ret matches Ok(p) ==> scanned(p.0@, p.1, range, vp_m)", "ret matches Ok((_, Some(c))) ==> proper(c, range.eb())"])
fn("TreeWriteGuard<A, K, V>", "xlock", as_impl="NodeData", futs=True, generics=" ", ret_type="Result<(NodeData, NodeData, Credit)>", probe_ty="NodeData",
   pre=[("async move {", "{", "nothing else runs in between"), ("dml.pop::<Arc<Node<A, K, V>>, Arc<Node<A, K, V>>>(&addr, txg)", "vp_pop(dml, &addr, txg)", "the store's pop"), ("drop(child_guard);", "", "the lock is let go"), ("Arc::try_unwrap(*arc)\n.expect(\"We should be the Node's only owner\")", "vp_settled(arc, child_guard)", "what the writer left"),
        ("TreeWriteGuard(elem.ptr.as_mem().0.try_write().unwrap())", "elem.ptr.as_mem().xlock()", "a write guard is what it guards"), ("match *guard {", "match guard {", "a guard is what it guards"), ("self", "vp_self", "a parameter that is changed")] + INT,
   subst=[("mut self,", "self,", ""), ("mut credit: Credit", "credit: Credit", ""), ("Arc<D>", "D", "what a counted reference refers to"), ("TreeWriteGuard<A, K, V>", "NodeData", "")], ghost_start="let mut vp_self = self; let mut credit = credit;",
   requires=["self is Int", "child_idx < self->Int_0.children@.len()", "txg.0 < u32::MAX", "some(credit.v())", "since(self->Int_0.children@[child_idx as int]) && self->Int_0.children@[child_idx as int].txgs.start.0 <= txg.0", "ready(self->Int_0.children@[child_idx as int].ptr)"],
   ensures=["ret matches Ok(p) ==> locked(self, p.0, p.1, child_idx as int, txg)", "ret matches Ok(p) ==> p.2.v() + in_use(p.1) == credit.v() + in_use(target(self->Int_0.children@[child_idx as int].ptr))"])
fn("TreeWriteGuard<A, K, V>", "xlock_nc", as_impl="NodeData", futs=True, generics=" ", ret_type="Result<(Option<IntElem>, NodeData, Credit)>", probe_ty="NodeData",
   pre=[("async move {", "{", "nothing else runs in between"), ("dml.pop::<Arc<Node<A, K, V>>, Arc<Node<A, K, V>>>(&addr, txg)", "vp_pop(dml, &addr, txg)", "the store's pop"), ("drop(child_guard);", "", "the lock is let go"), ("Arc::try_unwrap(*arc)\n.expect(\"We should be the Node's only owner\")", "vp_settled(arc, child_guard)", "what the writer left"),
        ("TreeWriteGuard(child_node.0.try_write().unwrap())", "child_node.xlock()", "a write guard is what it guards"), ("match *guard {", "match guard {", "a guard is what it guards")] + INT,
   subst=[("mut credit: Credit", "credit: Credit", ""), ("Arc<D>", "D", "what a counted reference refers to"), ("TreeWriteGuard<A, K, V>", "NodeData", "")], ghost_start="let mut credit = credit;",
   requires=["*old(self) is Int", "height > 0", "child_idx < old(self)->Int_0.children@.len()", "txg.0 < u32::MAX", "some(credit.v())", "ready(old(self)->Int_0.children@[child_idx as int].ptr)", "({ let d = target(old(self)->Int_0.children@[child_idx as int].ptr); (height > 1) == (d is Int) && size_of_node(d) > 0 })"],
   ensures=["ret matches Ok(p) ==> apart(*old(self), *final(self), p.0, p.1, child_idx as int, height as int, txg)", "ret matches Ok(p) ==> p.2.v() + in_use(p.1) == credit.v() + in_use(target(old(self)->Int_0.children@[child_idx as int].ptr))"])
RG = [("RwLockWriteGuard<TreeRoot>", "TreeRoot", "a write guard is what it guards"), ("RwLockWriteGuard<TreeRoot<A, K, V>>", "TreeRoot", "a write guard is what it guards"), ("Arc<D>", "D", "what a counted reference refers to")]
fn(TR, "xlock_root", as_impl="Tree", file=TREE, futs=True, generics=" ", ret_type="Result<(TreeRoot, NodeData, Credit)>",
   pre=[("async move {", "{", "nothing else runs in between"), ("guard.elem.ptr.as_mem().0.write()", "guard.elem.ptr.as_mem().xlock()", "writing"), ("TreeWriteGuard(child_guard)", "child_guard", "a write guard is what it guards"), ("dml.pop::<Arc<Node<A, K, V>>, Arc<Node<A, K, V>>>(&addr, txg)", "vp_pop(dml, &addr, txg)", "the store's pop"), ("drop(child_guard);", "", "the lock is let go"),
        ("Arc::try_unwrap(*arc)\n.expect(\"We should be the only owner\")", "vp_settled(arc, child_guard)", "what the writer left"), ("TreeWriteGuard(guard.elem.ptr.as_mem().0.try_write().unwrap())", "guard.elem.ptr.as_mem().xlock()", "a write guard is what it guards")] + INT,
   subst=RG + [("mut credit: Credit", "credit: Credit", ""), ("mut guard: TreeRoot", "guard: TreeRoot", "")], ghost_start="let mut credit = credit; let mut guard = guard;",
   requires=["txg.0 < u32::MAX", "some(credit.v())", "ready(guard.elem.ptr)"],
   ensures=["ret matches Ok(p) ==> held(p.0, p.1, guard.elem.ptr, txg) && p.0.elem.key == guard.elem.key && p.0.height == guard.height", "ret matches Ok(p) ==> p.2.v() + in_use(p.1) == credit.v() + in_use(target(guard.elem.ptr))"])
fn(TR, "xlock_and_merge_root", as_impl="Tree", file=TREE, futs=True, generics=" ", ret_type="Result<(TreeRoot, NodeData, Credit)>", pre=[("drop(root_guard);", "", "the lock is let go")], subst=RG,
   requires=["txg.0 < u32::MAX", "some(credit.v())", "ready(tree_guard.elem.ptr)", "target(tree_guard.elem.ptr) matches NodeData::Int(n) ==> tree_guard.height > 0 && (n.children@.len() == 1 ==> ready(n.children@[0].ptr))"],
   ensures=["ret matches Ok(p) ==> rooted_at(tree_guard, p.0, p.1, txg)"])
fn(TR, "fix_int", as_impl="Tree", file=TREE, futs=True, generics=" ", ret_type="Result<(NodeData, i8, i8, Credit)>", pre=[],
   subst=[("parent: TreeWriteGuard", "parent: NodeData", "a write guard is what it guards"), ("mut child: TreeWriteGuard", "child: NodeData", "a write guard is what it guards")],
   ghost_start="let ghost vp_p = parent->Int_0.children@; let ghost vp_c = child; let mut child = child;",
   after_let={"before": "let x = if child_idx < vp_p.len() - 1 { child } else { sibling }; let y = if child_idx < vp_p.len() - 1 { sibling } else { child }; lemma_fixed(vp_p, parent->Int_0.children@, child_idx as int, vp_c, x, y, before as int, after as int, limits, txg); assert(fixed(vp_p, parent->Int_0.children@, child_idx as int, vp_c, x, y, before as int, after as int, limits, txg)); assert(fixes(vp_p, parent->Int_0.children@, child_idx as int, vp_c, before as int, after as int, limits, txg));"},
   requires=["parent is Int", "some(credit.v())", "pair(parent->Int_0.children@, child_idx as int, child, self.limits, txg)"],
   ensures=["ret matches Ok(p) ==> p.0 is Int", "ret matches Ok(p) ==> fixes(parent->Int_0.children@, p.0->Int_0.children@, child_idx as int, child, p.1 as int, p.2 as int, self.limits, txg)"])
RQ = "RangeQuery<A, D, K, T, V>"
fn(RQ, "new", as_impl="RangeQuery", file=TREE, generics="<R: RangeBounds>", probe_generics="<R: RangeBounds>", ret_type="RangeQuery", pre=[("b.clone()", "*b", "a clone is the same"), ("e.clone()", "*e", "a clone is the same"), ("VecDeque::new()", "Queue::new()", "the queue")],
   subst=RD + [("Arc<Tree<A, D, K, V>>", "Tree", ""), ("Bound<T>", "Bound<K>", "the types are fixed"), ("Option<Bound<T>>", "Option<Bound<K>>", "the types are fixed")], ghost_param="Ghost(vp_m): Ghost<Map<K, V>>", ghost_start="",
   requires=["rooted(tree, vp_m)"], ensures=["ret.tree == tree", "ret.data@.len() == 0", "ret.last_fut is None", "ret.cursor == Some(range.sb())", "ret.end == range.eb()"])
fn("Stream for " + RQ, "poll_next", as_impl="RangeQuery", file=TREE, orelse=True, ret_type="Poll<Option<Result<(K, V)>>>", probe_ty="RangeQuery", attrs=["#[verifier::spinoff_prover]"],
   pre=[("self.as_mut().pin_get_data()", "self.data", "pin projection"), ("self.as_mut().pin_get_cursor()", "self.cursor", "pin projection"), ("self.as_mut().pin_get_last_fut()", "self.last_fut", "pin projection"), ("*self.data", "self.data", ""), ("*self.cursor", "self.cursor", ""), ("*self.last_fut", "self.last_fut", ""),
        ("self.cursor.clone()", "self.cursor", "a clone is the same"), ("self.end.clone()", "self.end", "a clone is the same"), ("Box::pin(Tree::get_range(&self.tree, r))", "vp_piece(&self.tree, r, Ghost(vp_m))", "the boxed future"), ("fut.as_mut().poll(cx)", "vp_poll(&mut fut, cx, Ghost(vp_s), Ghost(*old(self)), Ghost(vp_m))", "pin projection; a lemma about its answer")],
   subst=[("mut self: Pin<&mut Self>", "&mut self", "Pin<&mut Self> of an Unpin stream is &mut self"), ("&mut Context<'a>", "&mut Context", "")], generics=" ",
   ghost_param="Ghost(vp_s): Ghost<Seq<(K, V)>>, Ghost(vp_m): Ghost<Map<K, V>>", ghost_start="proof { lemma_next(vp_s, *self, vp_m); }",
   requires=["remains(vp_s, *old(self), vp_m)"], ensures=["ret matches Poll::Ready(Some(Ok(x))) ==> vp_s.len() > 0 && x == vp_s[0] && remains(vp_s.drop_first(), *final(self), vp_m)", "ret matches Poll::Ready(None) ==> vp_s.len() == 0 && remains(vp_s, *final(self), vp_m)", "ret is Pending ==> remains(vp_s, *final(self), vp_m)", "ret matches Poll::Ready(Some(Err(_))) ==> remains(vp_s, *final(self), vp_m)"])
fn(TR, "range_delete_get_bounds", as_impl="Tree", orguard=True, file=TREE, generics="<R: RangeBounds>", probe_generics="<R: RangeBounds>", subst=RD, requires=["*guard is Int", "sorted(guard->Int_0.children@)", "guard->Int_0.children@.len() > 0", "ubound matches Some(u) ==> guard->Int_0.children@.last().key.0 < u.0"],
   ensures=["from(guard->Int_0.children@, *range, ret.0)", "until(guard->Int_0.children@, *range, ubound, ret.1)"])
