SOURCE = "bfffs-core/src/cache/lru.rs"
MOD = "bfffs-core/src/cache/mod.rs"
TYPESRS = "bfffs-core/src/types.rs"

PRELUDE = r"""
use vstd::std_specs::cmp::*;
// ---- assumed contracts ------------------------------------------------------
/// std::collections::HashMap, as a map (the keys' Hash is consistent with their derived Eq)
pub struct MetroHash64;
pub struct BuildHasherDefault<H> { pub h: Option<H> }
pub type MetroBuildHasher = BuildHasherDefault<MetroHash64>;
impl<H> BuildHasherDefault<H> { #[verifier::external_body] pub fn default() -> Self { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] #[verifier::reject_recursive_types(S)]
pub struct HashMap<K, V, S> { x: std::marker::PhantomData<(K, V, S)> }
impl<K, V, S> HashMap<K, V, S> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn with_hasher(s: S) -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is Some <==> self@.dom().contains(*k), r is Some ==> *r->0 == self@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures r is Some <==> old(self)@.dom().contains(*k),
            r is Some ==> *r->0 == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->0)),
            r is None ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn vp_index(&self, k: &K) -> (r: &V)
        requires self@.dom().contains(*k) ensures *r == self@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r is Some <==> old(self)@.dom().contains(k), r is Some ==> r->0 == old(self)@[k] { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k), r is Some <==> old(self)@.dom().contains(*k), r is Some ==> r->0 == old(self)@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
}
/// the contents of a cached block
#[verifier::external_body] pub struct Block { x: u8 }
pub uninterp spec fn space_of(b: Block) -> nat;
/// dyn Cacheable: its space and the handles it makes are functions of its contents, and eq compares contents
#[verifier::external_body] pub struct VpCacheable { x: u8 }
impl VpCacheable {
    pub uninterp spec fn view(&self) -> Block;
    #[verifier::external_body] pub fn cache_space(&self) -> (r: usize) ensures r == space_of(self@) { unimplemented!() }
    #[verifier::external_body] pub fn make_ref(&self) -> (r: Box<VpCacheRef>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn eq(&self, o: &VpCacheable) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() }
}
/// dyn CacheRef: a handle on a block
#[verifier::external_body] pub struct VpCacheRef { x: u8 }
pub trait CacheRef { spec fn content(&self) -> Block; }
/// the blocks of a key are of the type the caller asks for (the caller's obligation: unwrap)
pub uninterp spec fn is_ref<T>(b: Block) -> bool;
#[verifier::external_body] pub struct VpWrongType { x: u8 }
pub assume_specification [<VpWrongType as core::fmt::Debug>::fmt] (s: &VpWrongType, f: &mut core::fmt::Formatter<'_>) -> Result<(), core::fmt::Error>;
impl VpCacheRef {
    pub uninterp spec fn view(&self) -> Block;
    #[verifier::external_body] pub fn downcast<T: CacheRef>(self) -> (r: Result<Box<T>, VpWrongType>)
        ensures r is Ok <==> is_ref::<T>(self@), r is Ok ==> (*r->Ok_0).content() == self@ { unimplemented!() }
}
#[verifier::external_body] pub struct VpSender { x: u8 }
#[verifier::external_body] pub struct VpPending { x: u8 }
impl VpPending { #[verifier::external_body] pub fn vp_default() -> VpPending { unimplemented!() } }
// ---- divbuf: a shared buffer and a read-only handle on it
#[verifier::external_body] pub struct VpBytes { x: u8 }
impl VpBytes { pub uninterp spec fn view(&self) -> Seq<u8>; }
impl PartialEqSpecImpl for VpBytes { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ } }
impl PartialEq for VpBytes { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
#[verifier::external_body] pub struct DivBuf { x: u8 }
impl DivBuf {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn vp_all(&self) -> (r: VpBytes) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
#[verifier::external_body] pub struct DivBufShared { x: u8 }
impl DivBufShared {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    /// no writer holds the buffer (a cached block has none)
    pub uninterp spec fn quiet(&self) -> bool;
    #[verifier::external_body] pub fn try_const(&self) -> (r: Result<DivBuf, VpWrongType>) ensures self.quiet() ==> r is Ok, r is Ok ==> r->Ok_0@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
/// any concrete type behind dyn Cacheable: a shared buffer or something else
#[verifier::external_body] pub struct VpAny { x: u8 }
impl VpAny {
    pub uninterp spec fn buf(&self) -> Option<DivBufShared>;
    #[verifier::external_body] pub fn vp_downcast_buf(&self) -> (r: Result<&DivBufShared, VpWrongType>)
        ensures r is Ok <==> self.buf() is Some, r is Ok ==> *r->Ok_0 == self.buf()->0 { unimplemented!() }
}
fn vp_panic() requires false {}
#[verifier::external_body] fn vp_reject() ensures false { panic!() }
"""
HEADER = """#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, unused_braces)]
use vstd::prelude::*;
impl core::fmt::Debug for VpWrongType { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> Result<(), core::fmt::Error> { Ok(()) } }
verus! {
global size_of usize == 8;
"""
DER = "Clone, Copy, PartialEq, Eq, Structural"
DYN = [("dyn Cacheable", "VpCacheable"), ("dyn CacheRef", "VpCacheRef")]
TYPES = [
    ("type", "ClusterT", dict(file=TYPESRS)), ("type", "LbaT", dict(file=TYPESRS)),
    ("struct", "PBA", dict(file=TYPESRS, derive=DER, pub_fields=True)), ("struct", "RID", dict(file=TYPESRS, derive=DER, pub_fields=True)),
    ("enum", "Key", dict(file=MOD, derive=DER)),
    ("struct", "LruEntry", dict(pub_fields=True, subst=DYN[:1])),
    ("struct", "LruCache", dict(pub_fields=True)),
    ("struct", "Cache", dict(file=MOD, pub_fields=True, subst=[("self::lru::LruCache", "LruCache"), ("HashMap<Key, Vec<oneshot::Sender<()>>>", "VpPending")])),
]
LEMMAS = ["lru.lemmas.rs"]
SUB = [("dyn Cacheable", "VpCacheable", "Box<dyn Cacheable> stands for an opaque type with the trait's contract"),
       ("dyn CacheRef", "VpCacheRef", "Box<dyn CacheRef> stands for an opaque type with the trait's contract"),
       ("self::lru::LruCache", "LruCache", "module paths dropped"), ("Default::default()", "VpPending::vp_default()", "the pending-insertions map is opaque here")]
FNS = []
def fn(impl, name, **k): FNS.append(dict(impl=impl, name=name, subst=SUB, optmap=True, index=["store"], **k))

fn("LruCache", "capacity", ensures=["ret == self.capacity"])
fn("LruCache", "size", ensures=["ret == self.size"])
fn("LruCache", "with_capacity", requires=["capacity <= usize::MAX / 2"],
   ensures=["ret.wf()", "ret.order().len() == 0", "ret.store@ == Map::<Key, LruEntry>::empty()", "ret.capacity == capacity", "ret.size == 0"],
   end="done_empty(vp_ret);")
fn("LruCache", "drop_cache", requires=["old(self).capacity <= usize::MAX / 2"],
   ensures=["final(self).wf()", "final(self).order().len() == 0", "final(self).store@ == Map::<Key, LruEntry>::empty()", "final(self).capacity == old(self).capacity", "final(self).size == 0"],
   end="done_empty(*self);")
fn("LruCache", "remove", requires=["old(self).wf()"],
   ensures=["removed(*old(self), *final(self), *key)", "ret is Some <==> old(self).has(*key)", "ret is Some ==> ret->0@ == old(self).block(*key)"],
   start="old(self).lemma_wf(); lemma_links(*old(self), *key); lemma_tail(*old(self));",
   end="if old(self).has(*key) { done_removed(*old(self), *self, *key); } else { done_same(*old(self), *self); }")
fn("LruCache", "expire", requires=["old(self).wf()", "old(self).order().len() > 0"],
   ensures=["removed(*old(self), *final(self), old(self).order()[0])", "final(self).order() == old(self).order().skip(1)"],
   start="old(self).lemma_wf();", end="lemma_first(*old(self), *self);")
fn("LruCache", "get_ref", requires=["self.wf()"],
   ensures=["ret is Some <==> self.has(*key)", "ret is Some ==> ret->0@ == self.block(*key)"])
fn("LruCache", "get", requires=["old(self).wf()", "old(self).has(*key) ==> is_ref::<T>(old(self).block(*key))"],
   ensures=["used(*old(self), *final(self), *key)", "ret is Some <==> old(self).has(*key)", "ret is Some ==> (*ret->0).content() == old(self).block(*key)"],
   start="old(self).lemma_wf(); lemma_links(*old(self), *key); lemma_tail(*old(self));",
   end="if old(self).has(*key) { done_used(*old(self), *self, *key); } else { done_same(*old(self), *self); }")
fn("LruCache", "insert", requires=["old(self).wf()", "space_of(buf@) <= old(self).capacity", "old(self).has(key) ==> old(self).block(key) == buf@"],
   ensures=["inserted(*old(self), *final(self), key, buf@)"],
   loops=[dict(kind="while", invariant=["self.wf()", "old(self).wf()", "evicted(*old(self), *self, cache_space as nat)", "cache_space == space_of(buf@) <= self.capacity", "self.capacity == old(self).capacity"],
               decreases="self.order().len()", ghost_start="let ghost vp_p = *self;", start="self.lemma_wf(); lemma_room(*self);", end="lemma_evict_step(*old(self), vp_p, *self, cache_space as nat);", after="vp_m = *self; lemma_tail(*self);")],
   start="old(self).lemma_wf(); lemma_evict0(*old(self), space_of(buf@)); lemma_links(*old(self), key);",
   ghost_start="let ghost vp_b = buf@; let ghost mut vp_m = *self;",
   end="if old(self).has(key) { done_same(*old(self), *self); } else { done_inserted(*old(self), vp_m, *self, key, vp_b); }")

# the wrapper the rest of the program uses
def cfn(name, **k): FNS.append(dict(impl="Cache", name=name, file=MOD, subst=SUB, optmap=True, **k))
OLD, NEW = "old(self).cache", "final(self).cache"
cfn("capacity", ensures=["ret == self.cache.capacity"])
cfn("size", requires=["self.cache.wf()"], ensures=["ret == total(self.cache.order(), self.cache.store@)", "ret <= self.cache.capacity"], start="self.cache.lemma_wf();")
cfn("with_capacity", requires=["capacity <= usize::MAX / 2"], ensures=["ret.cache.wf()", "ret.cache.order().len() == 0", "ret.cache.capacity == capacity"])
cfn("drop_cache", requires=[f"{OLD}.wf()"], ensures=[f"{NEW}.wf()", f"{NEW}.order().len() == 0", f"{NEW}.store@ == Map::<Key, LruEntry>::empty()", f"{NEW}.capacity == {OLD}.capacity", f"{NEW}.size == 0"])
cfn("get_ref", requires=["self.cache.wf()"], ensures=["ret is Some <==> self.cache.has(*key)", "ret is Some ==> ret->0@ == self.cache.block(*key)"])
cfn("get", requires=[f"{OLD}.wf()", f"{OLD}.has(*key) ==> is_ref::<T>({OLD}.block(*key))"],
    ensures=[f"used({OLD}, {NEW}, *key)", f"ret is Some <==> {OLD}.has(*key)", f"ret is Some ==> (*ret->0).content() == {OLD}.block(*key)"])
cfn("insert", requires=[f"{OLD}.wf()", f"space_of(buf@) <= {OLD}.capacity", f"{OLD}.has(key) ==> {OLD}.block(key) == buf@"], ensures=[f"inserted({OLD}, {NEW}, key, buf@)"])
cfn("remove", requires=[f"{OLD}.wf()"], ensures=[f"removed({OLD}, {NEW}, *key)", f"ret is Some <==> {OLD}.has(*key)", f"ret is Some ==> ret->0@ == {OLD}.block(*key)"])
# shared buffers as blocks
B = "Cacheable for DivBufShared"
def bfn(name, **k): FNS.append(dict(impl=B, as_impl="DivBufShared", name=name, file=MOD, full=True,
    subst=[("&dyn Cacheable", "&VpAny", "the other block: of any type"), ("other.downcast_ref::<DivBufShared>()", "other.vp_downcast_buf()", "downcast to a shared buffer"),
           ("Box<dyn CacheRef>", "Box<DivBuf>", "the handle before it is made a trait object")], **k))
bfn("cache_space", ensures=["ret == self@.len()"])
bfn("eq", requires=["self.quiet()", "other.buf() is Some ==> other.buf()->0.quiet()"], ensures=["ret == (other.buf() is Some && other.buf()->0@ == self@)"])
bfn("make_ref", requires=["self.quiet()"], ensures=["(*ret)@ == self@"])
POSTLUDE = r"""
/// C01: what every operation above keeps (wf) says that the size is the sum over the keys that can be retrieved,
/// each counted once, and is within the capacity
proof fn prop_c01_exact(c: Cache) requires c.cache.wf()
    ensures c.cache.size == total(c.cache.order(), c.cache.store@), c.cache.size <= c.cache.capacity, c.cache.order().no_duplicates(),
        forall|k: Key| c.cache.has(k) <==> #[trigger] c.cache.order().contains(k)
{ c.cache.lemma_wf(); }
/// C01: an insertion that fits evicts nothing
proof fn prop_c01_minimal(a: LruCache, b: LruCache, k: Key, v: Block) requires a.wf(), !a.has(k), inserted(a, b, k, v), a.size + space_of(v) <= a.capacity
    ensures b.order() == a.order().push(k)
{
    a.lemma_wf();
    let n = choose|n: int| inserted_n(a, b, k, v, n);
    if n > 0 {
        assert(total(a.order().skip(n - 1), a.store@) <= total(a.order(), a.store@)) by { lemma_total_skip(a.order(), a.store@, n - 1); }
    }
    assert(a.order().skip(0) =~= a.order());
}
/// C02: what an insertion evicts was used less recently than everything it keeps
proof fn prop_c02_victims(a: LruCache, b: LruCache, k: Key, v: Block, x: Key, y: Key)
    requires a.wf(), !a.has(k), inserted(a, b, k, v), a.has(x), a.has(y), !b.has(x), b.has(y)
    ensures a.pos(x) < a.pos(y)
{
    a.lemma_wf(); b.lemma_wf();
    let n = choose|n: int| inserted_n(a, b, k, v, n);
    let o = a.order(); let p = b.order();
    assert(p.contains(y)); let j = p.index_of(y); assert(p[j] == y); assert(y != k);
    assert(j < p.len() - 1); assert(p[j] == o[j + n]); assert(o[a.pos(y)] == y);
    if a.pos(x) >= n { let i = a.pos(x) - n; assert(p[i] == o[a.pos(x)]); assert(o[a.pos(x)] == x); assert(p.contains(x)); }
}
"""
