SOURCE = "bfffs-core/src/raid/prime_s.rs"
DECLUST = "bfffs-core/src/raid/declust.rs"

PRELUDE = r"""
// ---- assumed contracts on the standard library and fixedbitset --------------
pub assume_specification [i32::rem_euclid] (a: i32, b: i32) -> (r: i32)
    requires b > 0 ensures r == a as int % b as int;
pub assume_specification [i16::rem_euclid] (a: i16, b: i16) -> (r: i16)
    requires b > 0 ensures r == a as int % b as int;
pub assume_specification [u64::rem_euclid] (a: u64, b: u64) -> (r: u64)
    requires b > 0 ensures r == a as int % b as int;
pub assume_specification [u64::div_euclid] (a: u64, b: u64) -> (r: u64)
    requires b > 0 ensures r == a as int / b as int;
pub assume_specification [u8::rem_euclid] (a: u8, b: u8) -> (r: u8)
    requires b > 0 ensures r == a as int % b as int;
pub assume_specification [<i32 as core::convert::From<bool>>::from] (a: bool) -> (r: i32) ensures r == if a {1int} else {0};
pub assume_specification [<i16 as core::convert::From<u8>>::from] (a: u8) -> (r: i16) ensures r == a;
pub assume_specification [<i32 as core::convert::From<u8>>::from] (a: u8) -> (r: i32) ensures r == a;
pub assume_specification [<i32 as core::convert::From<u16>>::from] (a: u16) -> (r: i32) ensures r == a;
pub assume_specification<T: Clone> [<[T]>::fill] (s: &mut [T], v: T)
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < final(s)@.len() ==> final(s)@[i] == v;
/// fixedbitset::FixedBitSet, as a finite set of ints
#[verifier::external_body] struct FixedBitSet { x: Vec<usize> }
#[verifier::external_body] struct Ones { x: Vec<usize> }
impl FixedBitSet {
    uninterp spec fn view(&self) -> Set<int>;
    uninterp spec fn cap(&self) -> int;
    #[verifier::external_body] fn with_capacity(bits: usize) -> (r: Self)
        ensures r.view() == Set::<int>::empty(), r.cap() == bits { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, bit: usize)
        requires bit < old(self).cap()
        ensures final(self).view() == old(self).view().insert(bit as int), final(self).cap() == old(self).cap() { unimplemented!() }
    #[verifier::external_body] fn ones(&self) -> (r: Ones)
        ensures r.view() == self.view() { unimplemented!() }
}
impl Ones {
    uninterp spec fn view(&self) -> Set<int>;
    /// the j'th smallest element
    #[verifier::external_body] fn nth(&mut self, j: usize) -> (r: Option<usize>)
        ensures r is Some <==> j < old(self).view().len(),
                r is Some ==> old(self).view().contains(r->0 as int)
                    && old(self).view().filter(|x: int| x < r->0 as int).len() == j { unimplemented!() }
}
fn vp_panic() requires false {}
#[verifier::external_body] fn vp_reject() ensures false { panic!() }
"""

TYPES = [
    ("enum", "ChunkId", dict(derive="PartialEq, Eq, Structural, Copy, Clone", file=DECLUST)),
    ("struct", "Chunkloc", dict(derive="PartialEq, Eq, Structural, Clone", file=DECLUST)),
    ("struct", "ChunklocInt", {}),
    ("struct", "PrimeS", dict(derive="Copy, Clone")),
    ("struct", "PrimeSIter", {}),
]
LEMMAS = ["prime_s.lemmas.rs", "prime_s.glue.rs"]

# every u64 chunk number below 2^60 / slot number below 2^52
FNS = []
def fn(impl, name, **k):
    FNS.append(dict(impl=impl, name=name, **k))

fn(None, "invmod", mono=[("T", "i16")],
   requires=["prime(n as int)", "0 < a < n", "n < 256"],
   ensures=["0 < ret < n", "eqm(a * ret, 1, n as int)"],
   loops=[dict(kind="while", invariant=[
        "prime(n as int)", "0 < a < n", "n < 256",
        "inv_inv(a as int, n as int, t as int, newt as int, r as int, newr as int)"],
      decreases="newr",
      before="lemma_inv_start(a as int, n as int);",
      start="lemma_invmod_step(a as int, n as int, t as int, newt as int, r as int, newr as int);",
      after="lemma_invmod_end(a as int, n as int, t as int, newt as int, r as int, newr as int);")])

fn(None, "is_prime", requires=["n <= 32000"], ensures=["ret == prime(n as int)"],
   start="lemma_prime_small(n as int);",
   loops=[dict(kind="while", invariant=["3 < n <= 32000", "5 <= i <= 179", "i % 6 == 5", "n % 2 != 0", "n % 3 != 0",
                           "i * i <= 32041",
                           "no_divisor_below(n as int, i as int)"],
               decreases="32000 - i",
               before="lemma_prime_init(n as int);",
               start="lemma_prime_step(n as int, i as int); lemma_trial_bound(n as int, i as int);",
               after="lemma_prime_sqrt(n as int, i as int);")])

fn("PrimeS", "new",
   requires=["geo_of(num_disks as int, disks_per_stripe as int, redundancy as int).ok()"],
   ensures=["ret.wf()", "ret.geo() == geo_of(num_disks as int, disks_per_stripe as int, redundancy as int)"],
   start="lemma_new(num_disks as int, disks_per_stripe as int, redundancy as int);", ret_type="PrimeS")
fn("PrimeS", "new", **{"as": "new_any"}, asserts="reject",
   requires=["num_disks <= 32000"],
   ensures=["ret.wf()", "ret.geo() == geo_of(num_disks as int, disks_per_stripe as int, redundancy as int)"],
   start="if geo_of(num_disks as int, disks_per_stripe as int, redundancy as int).ok() { lemma_new(num_disks as int, disks_per_stripe as int, redundancy as int); }",
   ret_type="PrimeS")
fn("ChunkId", "address", file=DECLUST, ensures=["ret == self.addr()"])
fn("PrimeS", "stripes_per_iteration", ensures=["ret == self.n"])
fn("PrimeS", "id2rep_and_iter",
   requires=["self.wf()"],
   ensures=["ret.0 == chunkid.addr() / self.geo().datachunks()",
            "ret.1 == (chunkid.addr() % self.geo().datachunks()) / (self.m * self.n)", "0 <= ret.1 < self.n - 1"],
   start="lemma_rep_iter(self.geo(), chunkid.addr());")
fn("PrimeS", "id2loc_int",
   requires=["self.wf()"],
   ensures=["ret.ok(self.geo(), chunkid.addr())"],
   start="lemma_rep_iter(self.geo(), chunkid.addr());")
fn("PrimeS", "offset_within_stripe",
   requires=["m > 0", "0 <= a <= 10_000_000", "s == a as int / m as int",
             "id is Parity ==> 0 <= id->Parity_1 && m + id->Parity_1 < 255"],
   ensures=["id is Data ==> ret == a as int % m as int", "id is Parity ==> ret == m + id->Parity_1"],
   start="lemma_fundamental_div_mod(a as int, m as int); lemma_eqm_rem(a as int, m as int); lemma_mul_is_commutative(m as int, s as int);")
fn("PrimeS", "offset_within_iteration",
   requires=["self.wf()", "cli.ok2(self.geo())", "0 <= b < self.k",
             "disk == self.geo().disk_z(cli.z as int, cli.s as int % self.n as int, b as int)"],
   ensures=["ret == cli.z * self.k + self.geo().beforez(disk as int, cli.z as int, cli.s as int % self.n as int, self.k as int)",
            "cli.z * self.k <= ret < cli.z * self.k + self.k"],
   after_let={"y_inv": "lemma_owi(self.geo(), disk as int, cli.z as int, cli.s as int, b as int, y_inv as int, self.m_inv as int);"},
   loops=[dict(kind="for", invariant=[
        "self.wf()", "0 <= disk < self.n", "0 < y_inv < self.n", "s == cli.s", "cli.ok2(self.geo())",
        "0 <= acc <= j", "acc == self.geo().tcr(disk * y_inv, self.m_inv as int, self.m as int, j as int, s as int % self.n as int)"],
        start="lemma_owi_step(self.geo(), disk as int, y_inv as int, self.m_inv as int, j as int);")],
   )
LOC = "Locator for PrimeS"
fn(LOC, "datachunks", as_impl="PrimeS", requires=["self.wf()"], ensures=["ret == self.geo().datachunks()"],
   start="lemma_geo_bounds(self.geo());")
fn(LOC, "depth", as_impl="PrimeS", requires=["self.wf()"], ensures=["ret == self.geo().depth()"],
   start="lemma_geo_bounds(self.geo());")
fn(LOC, "disks", as_impl="PrimeS", requires=["self.wf()"], ensures=["ret == self.geo().n"])
fn(LOC, "protection", as_impl="PrimeS", requires=["self.wf()"], ensures=["ret == self.geo().f"])
fn(LOC, "stripesize", as_impl="PrimeS", requires=["self.wf()"], ensures=["ret == self.geo().k"])
fn(LOC, "id2loc", as_impl="PrimeS",
   requires=["self.wf()", "chunkid.valid(self.geo())", "chunkid.addr() < 0x1000_0000_0000_0000"],
   ensures=["ret.is_loc(self.geo(), chunkid)", "0 <= ret.disk < self.n", "ret.offset <= chunkid.addr() + 50_000"],
   after_let={"cli": "lemma_id2loc_pre(self.geo(), chunkid, cli);",
              "y": "lemma_id2loc_disk(self.geo(), chunkid, cli, b as int);",
              "o3": "lemma_id2loc(self.geo(), chunkid, cli, b as int, disk as int);"})
fn(LOC, "loc2id", as_impl="PrimeS",
   requires=["self.wf()", "0 <= chunkloc.disk < self.n", "chunkloc.offset < 0x10_0000_0000_0000"],
   ensures=["ret.valid(self.geo())", "chunkloc.is_loc(self.geo(), ret)", "ret.addr() < 0x1000_0000_0000_0000"],
   start="lemma_loc2id_pre(self.geo(), chunkloc.offset as int);",
   loops=[dict(kind="for", invariant=[
        "self.wf()", "0 <= disk < self.n", "0 < y_inv < self.n", "stripes.cap() == self.n",
        "stripes.view() == tset(self.geo(), disk * y_inv, self.m_inv as int, i as int)"],
        start="lemma_loc2id_step(self.geo(), disk as int, y_inv as int, self.m_inv as int, i as int);",
        )],
   after_let={"offset_in_iter": "lemma_loc2id_nth(self.geo(), disk as int, z as int, y_inv as int, self.m_inv as int);",
              "s": "lemma_loc2id_s(self.geo(), disk as int, z as int, y_inv as int, self.m_inv as int, offset_in_iter as int, s as int, r as int, chunkloc.offset as int);",
              })
IT = "PrimeSIter"
fn(IT, "iterations_per_rep", requires=["self.n > 0"], ensures=["ret == self.n - 1"])
fn(IT, "stripes_per_iteration", ensures=["ret == self.n"])
fn(IT, "new", ret_type="PrimeSIter",
   requires=["layout.wf()", "start.valid(layout.geo())", "end.valid(layout.geo())"],
   ensures=["ret.wf()", "ret.geo() == layout.geo()", "ret.id == start", "ret.end == end"],
   after_let={"cli": "lemma_id2loc_pre(layout.geo(), start, cli); lemma_iter_bounds(layout.geo(), cli, start);"},
   loops=[dict(kind="for", iter="it1", invariant=[
            "layout.wf()", "cli.ok2(layout.geo())", "s_z == cli.s as int % layout.n as int", "0 <= s_z < layout.n", "0 <= b < layout.k",
            "o@.len() == layout.n", "o0 == cli.z * layout.k", "0 <= o0 <= 50_000",
            "forall|d: int| 0 <= d < layout.n ==> #[trigger] o@[d] == o0 + iter_cnt(layout.geo(), d, cli.z as int, s as int, s_z as int, b as int)"],
            ),
          dict(kind="for", iter="it2", invariant=[
            "layout.wf()", "cli.ok2(layout.geo())", "0 <= s <= s_z", "0 <= s_z < layout.n", "0 <= end <= layout.k",
            "o@.len() == layout.n", "o0 == cli.z * layout.k", "0 <= o0 <= 50_000",
            "forall|d: int| 0 <= d < layout.n ==> #[trigger] o@[d] == o0 + layout.geo().beforez(d, cli.z as int, s as int, layout.k as int) + layout.geo().rowz(d, cli.z as int, s as int, b as int)"],
            start="lemma_iter_disk(layout.geo(), cli.z as int, s as int, b as int);")])
fn(IT, "next_elem", requires=["self.wf()", "self.id.addr() < 0x1000_0000_0000_0000"],
   ensures=["is_loc(self.geo(), self.id, ret.0 as int, ret.1 as int)", "0 <= ret.0 < self.n"],
   start="lemma_next_elem(*self);")
fn("Iterator for PrimeSIter", "next", as_impl="PrimeSIter",
   subst=[("Option<Self::Item>", "Option<(ChunkId, Chunkloc)>", "associated type Item written out")],
   requires=["old(self).wf()", "old(self).id.addr() < 0x1000_0000_0000_0000 - 1000"],
   ensures=["old(self).id == old(self).end ==> ret is None && *final(self) == *old(self)",
            "old(self).id != old(self).end ==> ret is Some && (ret->0).0 == old(self).id && (ret->0).1.is_loc(old(self).geo(), old(self).id) && final(self).id == old(self).id.succ(old(self).geo())",
            "final(self).end == old(self).end",
            "final(self).wf()", "final(self).geo() == old(self).geo()"],
   start="lemma_next_elem(*self); lemma_next(*self);",
   before_tail="""
     let g = old(self).geo(); let s = old(self).id.stripe(g); let b = old(self).id.pos(g);
     assert(self.geo() == g);
     assert(self.id == old(self).id.succ(g));
     assert(self.o@.len() == self.n);
     assert(self.r == self.id.stripe(g) / g.spr());
     assert(self.stripe == self.id.stripe(g) % g.spr());
     assert(self.z == g.z_of(self.id.stripe(g)));
     assert(self.stripe_iter == g.sz_of(self.id.stripe(g)));
     assert(self.y == self.z + 1);
     assert(self.a == self.stripe * g.m() + (if self.id is Data { self.id.pos(g) } else { 0 }));
     assert forall|d: int| 0 <= d < self.n implies #[trigger] self.o@[d] ==
                self.z * g.k + g.beforez(d, self.z as int, self.stripe_iter as int, g.k)
                + g.rowz(d, self.z as int, self.stripe_iter as int, self.id.pos(g)) by {
         assert(old(self).o@[d] == old(self).z * g.k + g.beforez(d, old(self).z as int, old(self).stripe_iter as int, g.k)
                + g.rowz(d, old(self).z as int, old(self).stripe_iter as int, b));
         let z = old(self).z as int; let sz = old(self).stripe_iter as int;
         assert(g.rowz(d, z, sz, b + 1) == g.rowz(d, z, sz, b) + if d == g.disk(s, b) { 1int } else { 0 });
         assert(g.beforez(d, z, sz + 1, g.k) == g.beforez(d, z, sz, g.k) + g.rowz(d, z, sz, g.k));
         assert(g.beforez(d, z, g.n, g.k) == g.k);
     }
   """
   )
