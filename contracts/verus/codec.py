SOURCE = "bfffs-core/src/raid/codec.rs"
ISA = "bfffs-isa-l/src/lib.rs"
SGC = "bfffs-core/src/raid/sgcursor.rs"
import os, sys
_sg = {}
exec(compile(open(os.path.join(os.path.dirname(os.path.abspath(path)), "sgcursor.py")).read(), "sgcursor.py", "exec"), _sg)

HEADER = """#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, unused_braces)]
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
verus! {
"""
PRELUDE = _sg["PRELUDE"] + r"""
impl IoVec {
    #[verifier::external_body] pub fn as_ptr(&self) -> (r: *const u8) ensures cview(r).len() >= self@.len(), cview(r).subrange(0, self@.len() as int) == self@ { unimplemented!() }
}
global size_of usize == 8;
// ---- assumed contract on fixedbitset::FixedBitSet: a set of column numbers, seen as the sorted list of its members
#[verifier::external_body] pub struct FixedBitSet { x: Vec<u8> }
impl FixedBitSet {
    pub uninterp spec fn view(&self) -> Seq<usize>;
    pub open spec fn sorted(&self) -> bool { increasing(ints(self@)) }
    #[verifier::external_body] pub fn contains(&self, i: usize) -> (r: bool) ensures r == ints(self@).contains(i as int) { unimplemented!() }
    #[verifier::external_body] pub fn ones(&self) -> (r: Vec<usize>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn vp_count_to(&self, k: usize) -> (r: usize)
        ensures self.sorted() ==> r <= self@.len() && (forall|i: int| 0 <= i < r ==> self@[i] < k) && (forall|i: int| r <= i < self@.len() ==> self@[i] >= k) { unimplemented!() }
}
// ---- std
pub assume_specification<T> [<[T]>::len_vp_unused] () -> (r: usize);
""".replace("pub assume_specification<T> [<[T]>::len_vp_unused] () -> (r: usize);\n", "") + r"""
pub assume_specification<T, A: core::alloc::Allocator> [Vec::<T, A>::into_boxed_slice] (v: Vec<T, A>) -> (r: Box<[T], A>) ensures r@ == v@;
pub assume_specification<T> [<*mut T>::add] (p: *mut T, n: usize) -> (r: *mut T) ensures vp_added(p, n as int, r);
pub uninterp spec fn vp_added<T>(p: *mut T, n: int, r: *mut T) -> bool;
pub axiom fn axiom_added(p: *mut u8, n: int, r: *mut u8) requires vp_added(p, n, r) ensures pobj(r) == pobj(p), poff(r) == poff(p) + n;
#[derive(Debug)] pub struct IsaErr { }
fn vp_singular() -> (r: IsaErr) { IsaErr { } }
/// the coefficients a table was made from
pub uninterp spec fn coefs(tables: Seq<u8>) -> Seq<u8>;
/// where libisal documents that the rows of its Reed-Solomon matrix are independent
pub open spec fn rs_ok(m: int, k: int) -> bool { k <= 3 || (k == 4 && m <= 25) || (k == 5 && m <= 10) || (k <= 21 && m - k == 4) || m - k <= 3 }
// ---- assumed contracts on libisal (ISA-L erasure_code.h); a pointer argument stands for the slice it points to
pub mod ffi { use super::*;
#[verifier::external_body] pub fn ec_encode_data(len: i32, k: i32, rows: i32, gftbls: &[u8], data: &[*const u8], coding: &mut [*mut u8], Tracked(vp_mem): Tracked<&mut VpMem>)
    requires len >= 0, k >= 1, rows >= 0, gftbls@.len() == 32 * rows * k, data@.len() == k, old(coding)@.len() == rows, outs_ok(*old(vp_mem), old(coding)@, len as int),
        forall|j: int| 0 <= j < k ==> cview(#[trigger] data@[j]).len() >= len
    ensures final(coding)@ == old(coding)@, frame(*old(vp_mem), *final(vp_mem), old(coding)@, len as int), outs_ok(*final(vp_mem), old(coding)@, len as int),
        forall|i: int, b: int| 0 <= i < rows && 0 <= b < len ==> #[trigger] byte(*final(vp_mem), old(coding)@[i], b) == col(coefs(gftbls@), k as int, i, cviews(data@), b)
{ unimplemented!() }
#[verifier::external_body] pub fn ec_encode_data_update(len: i32, k: i32, rows: i32, vec_i: i32, gftbls: &[u8], data: &[u8], coding: &mut [*mut u8], Tracked(vp_mem): Tracked<&mut VpMem>)
    requires len >= 0, k >= 1, rows >= 0, 0 <= vec_i < k, gftbls@.len() == 32 * rows * k, data@.len() >= len, old(coding)@.len() == rows, outs_ok(*old(vp_mem), old(coding)@, len as int)
    ensures final(coding)@ == old(coding)@, frame(*old(vp_mem), *final(vp_mem), old(coding)@, len as int), outs_ok(*final(vp_mem), old(coding)@, len as int),
        forall|i: int, b: int| 0 <= i < rows && 0 <= b < len ==> #[trigger] byte(*final(vp_mem), old(coding)@[i], b) == byte(*old(vp_mem), old(coding)@[i], b) ^ gm(coefs(gftbls@)[k * i + vec_i], data@[b])
{ unimplemented!() }
#[verifier::external_body] pub fn ec_init_tables(k: i32, rows: i32, a: &[u8], gftbls: &mut [u8])
    requires k >= 1, rows >= 0, a@.len() == k * rows, old(gftbls)@.len() == 32 * k * rows
    ensures final(gftbls)@.len() == old(gftbls)@.len(), coefs(final(gftbls)@) == a@ { unimplemented!() }
#[verifier::external_body] pub fn gf_gen_cauchy1_matrix(a: &mut [u8], m: i32, k: i32)
    requires 1 <= k <= m <= 256, old(a)@.len() == m * k
    ensures final(a)@.len() == old(a)@.len(), topid(final(a)@, k as int), mds(final(a)@, m as int, k as int) { unimplemented!() }
#[verifier::external_body] pub fn gf_gen_rs_matrix(a: &mut [u8], m: i32, k: i32)
    requires 1 <= k <= m <= 256, old(a)@.len() == m * k
    ensures final(a)@.len() == old(a)@.len(), topid(final(a)@, k as int), m > k ==> (forall|l: int| 0 <= l < k ==> #[trigger] final(a)@[k * k + l] == 1), m - k > 1 && rs_ok(m as int, k as int) ==> mds(final(a)@, m as int, k as int) { unimplemented!() }
#[verifier::external_body] pub fn gf_invert_matrix(input: &[u8], output: &mut [u8], n: i32) -> (r: i32)
    requires n >= 1, input@.len() == n * n, old(output)@.len() == n * n
    ensures final(output)@.len() == old(output)@.len(), (exists|dm: Seq<u8>| linv(dm, input@, idrows(n as int), n as int)) ==> r == 0, r == 0 ==> linv(final(output)@, input@, idrows(n as int), n as int) { unimplemented!() }
}
"""
TYPES = [("struct", "Codec", {}), ("struct", "SGCursor", {"file": SGC})]
LEMMAS = ["gf.lemmas.rs", "codec.lemmas.rs", "sgcursor.lemmas.rs"]
FNS = []
def fn(impl, name, **k): FNS.append(dict(impl=impl, name=name, **k))
for f in _sg["FNS"]: FNS.append(dict(f, file=SGC))

PTR = [(".as_ptr() as *mut c_uchar", "", "a pointer made of a slice for a foreign call stands for that slice"), (".as_mut_ptr() as *mut c_uchar", "", "a pointer made of a slice for a foreign call stands for that slice"),
       ("data.as_ptr() as *mut *mut c_uchar", "data", "a pointer made of a slice for a foreign call stands for that slice"), ("parity.as_mut_ptr()", "parity", "a pointer made of a slice for a foreign call stands for that slice"),
       ("c_int", "i32", "c_int is i32"),
       ("Err(Error::new(ErrorKind::InvalidData, \"Singular matrix\"))", "Err(vp_singular())", "the io::Error value is abstracted"), ("Result<(), Error>", "Result<(), IsaErr>", "the io::Error value is abstracted")]
MEM = "Tracked(vp_mem): Tracked<&mut VpMem>"
GC = (("ec_encode_data", "ec_encode_data_update", "encode", "encodev", "decode", "encode_update"), "Tracked(vp_mem)")
def isa(name, **k): fn(None, name, file=ISA, subst=PTR, **k)
SMALL = ["1 <= k", "k <= 255", "f <= 255"]
NL = "assert(32 * f * k <= 32 * 255 * 255) by(nonlinear_arith) requires 0 <= f <= 255, 0 <= k <= 255; assert(f * k <= 255 * 255) by(nonlinear_arith) requires 0 <= f <= 255, 0 <= k <= 255; assert(0 <= f * k) by(nonlinear_arith) requires 0 <= f <= 255, 0 <= k <= 255; assert(32 * f * k == 32 * k * f) by(nonlinear_arith);assert(f * k == k * f) by(nonlinear_arith);"
isa("ec_encode_data", ghost_param=MEM, ghost_calls=GC, start=NL, attrs=[],
    requires=["len <= i32::MAX"] + SMALL + ["gftbls@.len() == 32 * f * k", "data@.len() == k", "old(parity)@.len() == f", "outs_ok(*old(vp_mem), old(parity)@, len as int)",
        "forall|j: int| 0 <= j < k ==> cview(#[trigger] data@[j]).len() >= len"],
    ensures=["final(parity)@ == old(parity)@", "frame(*old(vp_mem), *final(vp_mem), old(parity)@, len as int)", "outs_ok(*final(vp_mem), old(parity)@, len as int)",
        "forall|i: int, b: int| 0 <= i < f && 0 <= b < len ==> #[trigger] byte(*final(vp_mem), old(parity)@[i], b) == col(coefs(gftbls@), k as int, i, cviews(data@), b)"])
isa("ec_encode_data_update", ghost_param=MEM, ghost_calls=GC, start=NL,
    requires=["len <= i32::MAX"] + SMALL + ["vec_i < k", "gftbls@.len() == 32 * f * k", "data@.len() == len", "old(parity)@.len() == f", "outs_ok(*old(vp_mem), old(parity)@, len as int)"],
    ensures=["final(parity)@ == old(parity)@", "frame(*old(vp_mem), *final(vp_mem), old(parity)@, len as int)", "outs_ok(*final(vp_mem), old(parity)@, len as int)",
        "forall|i: int, b: int| 0 <= i < f && 0 <= b < len ==> #[trigger] byte(*final(vp_mem), old(parity)@[i], b) == byte(*old(vp_mem), old(parity)@[i], b) ^ gm(coefs(gftbls@)[k * i + vec_i], data@[b])"])
isa("ec_init_tables", start=NL, requires=SMALL + ["a@.len() == f * k", "old(gftbls)@.len() == 32 * f * k"],
    ensures=["final(gftbls)@.len() == old(gftbls)@.len()", "coefs(final(gftbls)@) == a@"])
MK = "assert(m * k <= 255 * 255) by(nonlinear_arith) requires 0 <= m <= 255, 0 <= k <= 255; assert(0 <= m * k) by(nonlinear_arith) requires 0 <= m <= 255, 0 <= k <= 255;"
isa("gf_gen_cauchy1_matrix", start=MK, requires=["1 <= k <= m <= 255", "old(a)@.len() == m * k"],
    ensures=["final(a)@.len() == old(a)@.len()", "topid(final(a)@, k as int)", "mds(final(a)@, m as int, k as int)"])
isa("gf_gen_rs_matrix", start=MK, requires=["1 <= k <= m <= 255", "rs_ok(m as int, k as int)", "old(a)@.len() == m * k"],
    ensures=["final(a)@.len() == old(a)@.len()", "topid(final(a)@, k as int)", "m - k > 1 ==> mds(final(a)@, m as int, k as int)", "m > k ==> forall|l: int| 0 <= l < k ==> #[trigger] final(a)@[k * k + l] == 1"])
isa("gf_invert_matrix", start="assert(n * n <= 255 * 255) by(nonlinear_arith) requires 0 <= n <= 255; assert(0 <= n * n) by(nonlinear_arith) requires 0 <= n <= 255;", requires=["1 <= n <= 255", "input@.len() == n * n", "old(output)@.len() == n * n"],
    ensures=["final(output)@.len() == old(output)@.len()", "(exists|dm: Seq<u8>| linv(dm, input@, idrows(n as int), n as int)) ==> ret is Ok", "ret is Ok ==> linv(final(output)@, input@, idrows(n as int), n as int)"])
B = [("bfffs_isa_l::", "", "the crate path of the ISA-L wrappers is dropped (they are in the same file here)")]
fn("Codec", "new", subst=B,
   requires=["0 < redundancy < num_disks", "num_disks <= 255"], ensures=["ret.wf()", "ret.mm() == num_disks", "ret.ff() == redundancy"],
   start="let k = (num_disks - redundancy) as int; let m = num_disks as int; let f = redundancy as int;"
     "assert(m * k <= 255 * 255 && 0 <= m * k) by(nonlinear_arith) requires 0 <= m <= 255, 0 <= k <= 255; assert(k * k <= m * k) by(nonlinear_arith) requires 0 <= k <= m; assert(k * k >= 0) by(nonlinear_arith) requires 0 <= k;"
     "assert(32 * k * f <= 32 * 255 * 255 && 0 <= 32 * k * f) by(nonlinear_arith) requires 0 <= f <= 255, 0 <= k <= 255; assert(0 <= k * f <= 32 * k * f) by(nonlinear_arith) requires 0 <= f <= 255, 0 <= k <= 255; assert(32 * k * f == 32 * f * k) by(nonlinear_arith);"
     "assert(m * k - k * k == f * k) by(nonlinear_arith) requires k == m - f;",
   before_tail="if f == 1 { lemma_xor_mds(enc_matrix@, k as int); }")
PRE = ["self.wf()", "len <= i32::MAX"]
OUT = ["outs_ok(*old(vp_mem), old(parity)@, len as int)", "old(parity)@.len() == self.ff()"]
POST = ["final(parity)@ == old(parity)@", "frame(*old(vp_mem), *final(vp_mem), old(parity)@, len as int)", "outs_ok(*final(vp_mem), old(parity)@, len as int)"]
fn("Codec", "encode", subst=B, ghost_param=MEM, ghost_calls=GC,
   requires=PRE + OUT + ["data@.len() == self.kk()", "forall|j: int| 0 <= j < data@.len() ==> cview(#[trigger] data@[j]).len() >= len"],
   ensures=POST + ["forall|i: int, b: int| 0 <= i < self.ff() && 0 <= b < len ==> #[trigger] byte(*final(vp_mem), old(parity)@[i], b) == self.par(cviews(data@), i, b)"],
   start="assert(32 * self.f * (self.m - self.f) == 32 * (self.m - self.f) * self.f) by(nonlinear_arith); assert forall|d: Seq<Seq<u8>>, i: int, b: int| 0 <= i < self.ff() implies #[trigger] col(coefs(self.enc_tables@), self.kk(), i, d, b) == self.par(d, i, b) by { self.lemma_par(d, i, b); }")
fn("Codec", "encode_update", subst=B, ghost_param=MEM, ghost_calls=GC,
   requires=PRE + OUT + ["data@.len() == len", "data_idx < self.kk()"],
   ensures=POST + ["forall|i: int, b: int| 0 <= i < self.ff() && 0 <= b < len ==> #[trigger] byte(*final(vp_mem), old(parity)@[i], b) == byte(*old(vp_mem), old(parity)@[i], b) ^ gm(self.enc()[self.kk() * (self.kk() + i) + data_idx], data@[b])"],
   start="assert(32 * self.f * (self.m - self.f) == 32 * (self.m - self.f) * self.f) by(nonlinear_arith);"
         "let k = self.kk(); assert forall|i: int| 0 <= i < self.f implies #[trigger] coefs(self.enc_tables@)[k * i + data_idx] == self.enc_matrix@[k * (k + i) + data_idx] by {"
         " lemma_idx(k, self.f as int, i, data_idx as int); assert(k * (k + i) == k * k + k * i) by(nonlinear_arith); assert(self.m * k == k * k + k * self.f) by(nonlinear_arith) requires k == self.m - self.f; }")
ER = ["erasures.sorted()", "erasures@.len() <= self.ff()", "forall|i: int| 0 <= i < erasures@.len() ==> #[trigger] erasures@[i] < self.mm()"]
fn("Codec", "mk_decode_tables", subst=B + [("count_ones(..", "vp_count_to(", "count_ones over a prefix range is a method of its bound")], chains=True,
   requires=["self.wf()"] + ER, ret="ret",
   ensures=["exists|errs: int, rows: Seq<int>, dm: Seq<u8>| #[trigger] self.plan(erasures@, ret@, errs, rows, dm)"],
   ghost_start="let ghost kk = self.kk(); let ghost ones = erasures@; let ghost mut rows: Seq<int> = seq![];",
   start="self.lemma_wf();"
         "assert(kk * kk <= 255 * 255 && 0 <= kk * kk) by(nonlinear_arith) requires 0 < kk <= 255;",
   after_let={"errs": "assert(32 * kk * errs <= 32 * 255 * 255 && 0 <= kk * errs <= 32 * kk * errs) by(nonlinear_arith) requires 0 < kk <= 255, 0 <= errs <= 255; assert(32 * kk * errs == 32 * errs * kk) by(nonlinear_arith); assert(kk * errs == errs * kk) by(nonlinear_arith);"},
   before_tail="assert(self.plan(erasures@, dec_tables@, errs as int, rows, dec_matrix@)) by { assert(picked(coefs(dec_tables@), dec_matrix@, rows, ones, kk, errs as int)); assert(linv(dec_matrix@, self.enc(), rows, kk)); }",
   loops=[
     dict(kind="for", iter="it", invariant=["self.wf()", "kk == k == self.kk()", "ones == erasures@", "0 < kk <= 255", "kk * kk <= 255 * 255"] + ER + ["dec_matrix_inv@.len() == kk * kk", "skips <= ones.len()", "i <= k",
        "rows.len() == i", "lowest(rows, ones)", "forall|t: int| 0 <= t < rows.len() ==> 0 <= #[trigger] rows[t] < i + skips",
        "forall|t: int| 0 <= t < skips ==> #[trigger] ones[t] < i + skips", "forall|t: int| skips <= t < ones.len() ==> #[trigger] ones[t] >= i + skips", "forall|x: int| 0 <= x < i + skips && !#[trigger] ints(ones).contains(x) ==> exists|u: int| 0 <= u < rows.len() && rows[u] == x",
        "rows.len() > 0 ==> rows.last() == i + skips - 1", "rows.len() == 0 ==> skips == 0",
        "forall|a: int, b: int| 0 <= a < i && 0 <= b < kk ==> #[trigger] dec_matrix_inv@[kk * a + b] == self.enc()[kk * rows[a] + b]"],
        ghost_start="let ghost rows0 = rows; let ghost s0 = skips;",
        after="assert(chosen(rows, self.mm(), kk)); let dm = choose|dm: Seq<u8>| linv(dm, self.enc(), rows, kk); lemma_linv_rows(dm, dec_matrix_inv@, self.enc(), rows, kk); assert(linv(dm, dec_matrix_inv@, idrows(kk), kk)); lemma_linv_rows_all(dec_matrix_inv@, self.enc(), rows, kk);",
        after_let={"row": "rows = rows0.push(row as int); assert(!ints(ones).contains(row as int)); "
          "assert forall|t: int| skips <= t < ones.len() implies #[trigger] ones[t] >= i + 1 + skips by { assert(ints(ones)[t] == ones[t]); assert(ints(ones).contains(ones[t] as int)); }"
          "assert forall|x: int| 0 <= x < row && !#[trigger] ints(ones).contains(x) implies exists|u: int| 0 <= u < rows0.len() && rows[u] == x by { if x < i + s0 { let u = choose|u: int| 0 <= u < rows0.len() && rows0[u] == x; assert(rows[u] == x); } }"
          "assert forall|t: int, x: int| 0 <= t < rows.len() && 0 <= x < #[trigger] rows[t] && !#[trigger] ints(ones).contains(x) implies exists|u: int| 0 <= u < t && rows[u] == x by { if t < rows0.len() { assert(rows0[t] == rows[t]); let u = choose|u: int| 0 <= u < t && rows0[u] == x; assert(rows[u] == x); } }"
          "assert forall|x: int| 0 <= x < row + 1 && !#[trigger] ints(ones).contains(x) implies exists|u: int| 0 <= u < rows.len() && rows[u] == x by { if x == row { assert(rows[i as int] == x); } else { let u = choose|u: int| 0 <= u < rows0.len() && rows[u] == x; } }"
        }),
     dict(kind="while", invariant=["self.wf()", "kk == k == self.kk()", "ones == erasures@"] + ER + ["skips <= ones.len()", "i < k", "s0 <= skips",
        "forall|t: int| 0 <= t < skips ==> #[trigger] ones[t] < i + skips", "forall|t: int| skips <= t < ones.len() ==> #[trigger] ones[t] >= i + skips", "forall|x: int| i + s0 <= x < i + skips ==> #[trigger] ints(ones).contains(x)"],
        decreases="ones.len() - skips",
        start="let w = choose|w: int| 0 <= w < ints(ones).len() && ints(ones)[w] == i + skips; assert(ones[w] == i + skips); assert(w >= skips); assert(ints(ones)[skips as int] == ones[skips as int]); if w > skips { assert(ints(ones)[skips as int] < ints(ones)[w]); }"
           "assert forall|t: int| skips < t < ones.len() implies #[trigger] ones[t] >= i + skips + 1 by { assert(ints(ones)[skips as int] < ints(ones)[t]); }"),
     dict(kind="for", iter="jt", invariant=["self.wf()", "kk == k == self.kk()", "0 < kk <= 255", "i < k", "row < self.m", "kk * kk <= 255 * 255", "dec_matrix_inv@.len() == kk * kk", "rows.len() == i + 1", "rows[i as int] == row",
        "forall|a: int, b: int| 0 <= a < i && 0 <= b < kk ==> #[trigger] dec_matrix_inv@[kk * a + b] == self.enc()[kk * rows[a] + b]",
        "forall|b: int| 0 <= b < j ==> #[trigger] dec_matrix_inv@[kk * i + b] == self.enc()[kk * row + b]"],
        start="lemma_idx(kk, kk, i as int, j as int); lemma_idx(kk, self.m as int, row as int, j as int); assert(kk * self.m == self.m * kk) by(nonlinear_arith); assert(kk * self.m <= 255 * 255) by(nonlinear_arith) requires kk <= 255, self.m <= 255, 0 <= kk;"
              "assert forall|a: int, b: int| 0 <= a < i && 0 <= b < kk implies #[trigger] (kk * a + b) < kk * i by { lemma_idx(kk, i as int, a, b); }"),
     dict(kind="while", invariant=["self.wf()", "kk == k == self.kk()", "ones == erasures@", "vp_e@ == ones", "0 < kk <= 255", "ones.len() <= 255", "errs <= ones.len()", "dec_matrix@.len() == kk * kk", "dec_rows@.len() == kk * errs", "i <= errs",
        "forall|a: int| 0 <= a < errs ==> #[trigger] ones[a] < kk", "forall|a: int| errs <= a < ones.len() ==> #[trigger] ones[a] >= kk",
        "forall|a: int, b: int| 0 <= a < i && 0 <= b < kk ==> #[trigger] dec_rows@[kk * a + b] == dec_matrix@[kk * ones[a] + b]"],
        ensures=["i == errs"], decreases="ones.len() - i",
        after="assert(coefs(dec_tables@).len() >= 0); "),
     dict(kind="for", iter="jt", invariant=["kk == k", "0 < kk <= 255", "errs <= 255", "i < errs", "r < kk", "dec_matrix@.len() == kk * kk", "dec_rows@.len() == kk * errs",
        "forall|a: int, b: int| 0 <= a < i && 0 <= b < kk ==> #[trigger] dec_rows@[kk * a + b] == dec_matrix@[kk * ones[a] + b]",
        "forall|b: int| 0 <= b < j ==> #[trigger] dec_rows@[kk * i + b] == dec_matrix@[kk * r + b]"],
        start="lemma_idx(kk, errs as int, i as int, j as int); lemma_idx(kk, kk, r as int, j as int); assert(kk * kk <= 255 * 255) by(nonlinear_arith) requires 0 <= kk <= 255; assert(kk * errs <= 255 * 255) by(nonlinear_arith) requires 0 <= kk <= 255, 0 <= errs <= 255;"
              "assert forall|a: int, b: int| 0 <= a < i && 0 <= b < kk implies #[trigger] (kk * a + b) < kk * i by { lemma_idx(kk, i as int, a, b); }"),
   ])
fn("Codec", "decode", subst=B + [("count_ones(..", "vp_count_to(", "count_ones over a prefix range is a method of its bound")], ghost_param=MEM, ghost_calls=GC,
   requires=PRE + ER + ["erasures@.len() > 0", "erasures@[0] < self.kk()", "ndata(erasures@, self.kk(), old(missing)@.len() as int)", "surviving@.len() == self.kk()", "forall|j: int| 0 <= j < surviving@.len() ==> cview(#[trigger] surviving@[j]).len() >= len",
        "outs_ok(*old(vp_mem), old(missing)@, len as int)"],
   ensures=[x.replace("parity", "missing") for x in POST] + ["forall|d: Seq<Seq<u8>>, i: int, b: int| #[trigger] self.survivors(surviving@, erasures@, d, len as int) && 0 <= i < old(missing)@.len() && 0 <= b < len ==> #[trigger] byte(*final(vp_mem), old(missing)@[i], b) == d[erasures@[i] as int][b]"],
   start="self.lemma_wf();",
   after_let={"errs": "let n = missing@.len() as int; if errs < n { assert(erasures@[errs as int] < k); } if n < errs { assert(erasures@[n] < k); } if errs == 0 { assert(erasures@[0] >= k); }",
     "dec_tables": """let (e2, rows, dm) = choose|e2: int, rows: Seq<int>, dm: Seq<u8>| #[trigger] self.plan(erasures@, dec_tables@, e2, rows, dm);
        if e2 < errs { assert(erasures@[e2] < k); } if errs < e2 { assert(erasures@[errs as int] < k); }
        assert(32 * errs * k == 32 * k * errs) by(nonlinear_arith);
        assert forall|d: Seq<Seq<u8>>, i: int, b: int| #[trigger] self.survivors(surviving@, erasures@, d, len as int) && 0 <= i < missing@.len() && 0 <= b < len implies #[trigger] col(coefs(dec_tables@), self.kk(), i, cviews(surviving@), b) == d[erasures@[i] as int][b]
            by { self.lemma_decoded(surviving@, erasures@, dec_tables@, e2, rows, dm, d, len as int, i, b); }"""})
FLAT = "flats(data@)"
CUR = ["self.wf()", "data@.len() == self.kk()", "forall|j: int| 0 <= j < data@.len() ==> nonempty(#[trigger] data@[j]@) && flat(data@[j]@).len() == len"]
CI = ["cursors@.len() == data@.len()"]
fn("Codec", "encodev", subst=B, ghost_param=MEM, ghost_calls=GC, chains=True, chain_types={"refs": ("Vec<*const u8>", "Vec<IoVec>")},
   requires=["len <= i32::MAX"] + OUT + CUR,
   ensures=POST + ["forall|i: int, b: int| 0 <= i < self.ff() && 0 <= b < len ==> #[trigger] byte(*final(vp_mem), old(parity)@[i], b) == self.par(flats(data@), i, b)"],
   ghost_start="let ghost m0 = *vp_mem; let ghost p0 = parity@; let ghost d = flats(data@);",
   loops=[
     dict(kind="while", invariant=CUR + ["vp_v@.len() == vp_i <= data@.len()", "forall|j: int| 0 <= j < vp_i ==> (#[trigger] vp_v@[j]).wf() && vp_v@[j].rest() == flat(data@[j]@)"], decreases="data@.len() - vp_i"),
     dict(kind="while", invariant=CUR + CI + ["len <= i32::MAX", "l <= len", "p0 == parity@", "p0.len() == self.ff()", "d == flats(data@)", "frame(m0, *vp_mem, p0, len as int)", "outs_ok(m0, p0, len as int)", "outs_ok(*vp_mem, p0, len as int)",
        "forall|j: int| 0 <= j < data@.len() ==> (#[trigger] cursors@[j]).wf() && cursors@[j].rest() == d[j].subrange(l as int, len as int)",
        "forall|i: int, b: int| 0 <= i < self.ff() && 0 <= b < l ==> #[trigger] byte(*vp_mem, p0[i], b) == self.par(d, i, b)"], decreases="len - l",
        ghost_start="let ghost m1 = *vp_mem; let ghost l1 = l as int; let ghost c1 = cursors@;",
        start="self.lemma_wf(); assert forall|j: int| 0 <= j < data@.len() implies (#[trigger] cursors@[j]).rest().len() == len - l && cursors@[j].head().len() > 0 && cursors@[j].head().len() <= len - l by { cursors@[j].lemma_rest(); assert(d[j].len() == len); }",
        after_stmt=[], end="self.lemma_step_v(m0, m1, *vp_mem, p0, prefs@, d, len as int, l1, ncl as int, refs@); "),
     dict(kind="while", invariant=CUR + CI + ["c1 == cursors@", "1 <= vp_i <= cursors@.len()", "forall|j: int| 0 <= j < cursors@.len() ==> (#[trigger] cursors@[j]).wf() && cursors@[j].head().len() > 0",
        "forall|j: int| 0 <= j < vp_i ==> vp_m <= (#[trigger] cursors@[j]).head().len()", "0 < vp_m", "exists|j: int| 0 <= j < vp_i && vp_m == (#[trigger] cursors@[j]).head().len()"], decreases="cursors@.len() - vp_i"),
     dict(kind="while", invariant=CUR + CI + ["0 < ncl", "vp_v@.len() == vp_i", "vp_w@.len() == vp_i", "vp_i <= cursors@.len()", "c1.len() == cursors@.len()",
        "forall|j: int| 0 <= j < c1.len() ==> (#[trigger] c1[j]).wf() && ncl <= c1[j].head().len()", "forall|j: int| vp_i <= j < cursors@.len() ==> #[trigger] cursors@[j] == c1[j]",
        "forall|j: int| #![trigger cursors@[j]] #![trigger vp_v@[j]] 0 <= j < vp_i ==> cursors@[j].wf() && cview(vp_v@[j]).len() >= ncl && cview(vp_v@[j]).subrange(0, ncl as int) + cursors@[j].rest() == c1[j].rest()"], decreases="cursors@.len() - vp_i"),
     dict(kind="while", invariant=["p0 == parity@", "vp_i <= parity@.len()", "vp_v@.len() == vp_i", "forall|i: int| 0 <= i < vp_i ==> pobj(#[trigger] vp_v@[i]) == pobj(p0[i]) && poff(vp_v@[i]) == poff(p0[i]) + l"], decreases="parity@.len() - vp_i",
        after_let={"vp_y": "axiom_added(p0[vp_i as int], l as int, vp_y);"}),
   ],
   after_let={"ncl": "",
     "refs": "assert forall|j: int, b: int| 0 <= j < refs@.len() && 0 <= b < ncl implies #[trigger] cview(refs@[j])[b] == d[j][l1 + b] by { assert(cview(refs@[j]).subrange(0, ncl as int)[b] == (cview(refs@[j]).subrange(0, ncl as int) + cursors@[j].rest())[b]); assert(c1[j].rest()[b] == d[j].subrange(l1, len as int)[b]); }"
             "assert forall|j: int| 0 <= j < data@.len() implies (#[trigger] cursors@[j]).rest() == d[j].subrange(l1 + ncl, len as int) by { let h = cview(refs@[j]).subrange(0, ncl as int); assert(h.len() == ncl); assert((h + cursors@[j].rest()).subrange(ncl as int, len - l1) =~= cursors@[j].rest()); assert(h + cursors@[j].rest() == d[j].subrange(l1, len as int)); assert(d[j].subrange(l1, len as int).subrange(ncl as int, len - l1) =~= d[j].subrange(l1 + ncl, len as int)); }",
     "prefs": "assert(prefs@.len() == p0.len()); assert(outs_ok(*vp_mem, prefs@, ncl as int)) by { assert forall|i: int| 0 <= i < prefs@.len() implies #[trigger] room(*vp_mem, prefs@[i], ncl as int) by { assert(room(*vp_mem, p0[i], len as int)); } }"})
POSTLUDE = r"""
pub open spec fn flats(s: Seq<SGList>) -> Seq<Seq<u8>> { Seq::new(s.len(), |j: int| flat(s[j]@)) }
impl Codec {
    proof fn lemma_step_v(&self, m0: VpMem, m1: VpMem, m2: VpMem, p: Seq<*mut u8>, q: Seq<*mut u8>, d: Seq<Seq<u8>>, len: int, at: int, n: int, refs: Seq<*const u8>)
        requires self.wf(), frame(m0, m1, p, len), frame(m1, m2, q, n), outs_ok(m0, p, len), 0 <= at, 0 < n, at + n <= len, p.len() == q.len() == self.ff(),
            forall|i: int| 0 <= i < p.len() ==> #[trigger] pobj(q[i]) == pobj(p[i]) && poff(q[i]) == poff(p[i]) + at,
            refs.len() == self.kk(), forall|j: int, b: int| 0 <= j < refs.len() && 0 <= b < n ==> #[trigger] cview(refs[j])[b] == d[j][at + b],
            forall|i: int, b: int| 0 <= i < self.ff() && 0 <= b < at ==> #[trigger] byte(m1, p[i], b) == self.par(d, i, b),
            forall|i: int, b: int| 0 <= i < self.ff() && 0 <= b < n ==> #[trigger] byte(m2, q[i], b) == self.par(cviews(refs), i, b),
        ensures frame(m0, m2, p, len), outs_ok(m2, p, len), forall|i: int, b: int| 0 <= i < self.ff() && 0 <= b < at + n ==> #[trigger] byte(m2, p[i], b) == self.par(d, i, b),
    {
        lemma_frame_trans(m0, m1, m2, p, q, at, n, len);
        assert forall|i: int, b: int| 0 <= i < self.ff() && 0 <= b < at + n implies #[trigger] byte(m2, p[i], b) == self.par(d, i, b) by {
            assert(pobj(q[i]) == pobj(p[i])); assert(room(m0, p[i], len));
            if b < at {
                let o = pobj(p[i]); let x = poff(p[i]) + b;
                if inside(q, n, o, x) { let j = choose|j: int| 0 <= j < q.len() && o == pobj(#[trigger] q[j]) && poff(q[j]) <= x < poff(q[j]) + n; assert(pobj(q[j]) == pobj(p[j])); if i < j { assert(pobj(p[i]) != pobj(p[j])); } if j < i { assert(pobj(p[j]) != pobj(p[i])); } }
                assert(byte(m1, p[i], b) == self.par(d, i, b));
            } else {
                assert(byte(m2, q[i], b - at) == self.par(cviews(refs), i, b - at));
                let k = self.kk(); let e = self.enc();
                let f = |l: int| gm(e[k * (k + i) + l], cviews(refs)[l][b - at]); let g = |l: int| gm(e[k * (k + i) + l], d[l][b]);
                assert forall|l: int| 0 <= l < k implies #[trigger] f(l) == g(l) by { assert(cview(refs[l])[b - at] == d[l][at + (b - at)]); }
                lemma_gsum_eq(k as nat, f, g);
            }
        }
    }
}
impl Codec {
    pub open spec fn plan(&self, ones: Seq<usize>, tables: Seq<u8>, errs: int, rows: Seq<int>, dm: Seq<u8>) -> bool {
        &&& ndata(ones, self.kk(), errs)
        &&& tables.len() == 32 * self.kk() * errs && chosen(rows, self.mm(), self.kk()) && lowest(rows, ones) && linv(dm, self.enc(), rows, self.kk())
        &&& picked(coefs(tables), dm, rows, ones, self.kk(), errs)
    }
    /// the surviving columns handed in are the lowest k columns of the stripe made of the data d
    pub open spec fn survivors(&self, s: Seq<*const u8>, ones: Seq<usize>, d: Seq<Seq<u8>>, len: int) -> bool {
        forall|rows: Seq<int>, j: int, b: int| #[trigger] lowest(rows, ones) && rows.len() == self.kk() && 0 <= j < self.kk() && 0 <= b < len ==> #[trigger] cview(s[j])[b] == col(self.enc(), self.kk(), rows[j], d, b)
    }
    proof fn lemma_decoded(&self, s: Seq<*const u8>, ones: Seq<usize>, tables: Seq<u8>, errs: int, rows: Seq<int>, dm: Seq<u8>, d: Seq<Seq<u8>>, len: int, i: int, b: int)
        requires self.wf(), self.plan(ones, tables, errs, rows, dm), self.survivors(s, ones, d, len), s.len() == self.kk(), 0 <= i < errs, 0 <= b < len
        ensures col(coefs(tables), self.kk(), i, cviews(s), b) == d[ones[i] as int][b]
    {
        let k = self.kk(); self.lemma_wf();
        let v = cviews(s);
        assert forall|j: int| 0 <= j < k implies (#[trigger] v[j])[b] == col(self.enc(), k, rows[j], d, b) by { assert(cview(s[j])[b] == col(self.enc(), k, rows[j], d, b)); }
        lemma_reconstruct(k, dm, self.enc(), rows, d, b, v, ones[i] as int);
        let f = |l: int| gm(coefs(tables)[k * i + l], v[l][b]); let g = |l: int| gm(dm[k * ones[i] + l], v[l][b]);
        assert forall|l: int| 0 <= l < k implies #[trigger] f(l) == g(l) by { assert(coefs(tables)[k * i + l] == dm[k * ones[i] + l]); }
        lemma_gsum_eq(k as nat, f, g);
    }
}
/// the first errs lost columns are data columns, the others parity
pub open spec fn ndata(ones: Seq<usize>, k: int, errs: int) -> bool {
    0 <= errs <= ones.len() && (forall|i: int| 0 <= i < errs ==> #[trigger] ones[i] < k) && (forall|i: int| errs <= i < ones.len() ==> #[trigger] ones[i] >= k)
}
/// the first errs rows of the inverse that belong to lost data columns
pub open spec fn picked(c: Seq<u8>, dm: Seq<u8>, rows: Seq<int>, ones: Seq<usize>, k: int, errs: int) -> bool {
    c.len() == k * errs && forall|i: int, j: int| 0 <= i < errs && 0 <= j < k ==> #[trigger] c[k * i + j] == dm[k * ones[i] + j]
}

/// reading back a column that was written: the pointer stands for what the memory holds
#[verifier::external_body] fn vp_written(p: *mut u8, len: usize, Tracked(vp_mem): Tracked<&VpMem>) -> (r: *const u8)
    requires room(*vp_mem, p, len as int) ensures cview(r).len() >= len, forall|b: int| 0 <= b < len ==> #[trigger] cview(r)[b] == byte(*vp_mem, p, b) { unimplemented!() }
/// E01 itself: whatever the data, the code and the lost columns (at most f of them), the data columns rebuilt from the lowest k columns
/// that are left are the data columns that were encoded; and nothing else in memory changed.
fn prop_e01(m: u32, f: u32, len: usize, data: &[*const u8], parity: &mut [*mut u8], rows: &[usize], missing: &mut [*mut u8], erasures: &FixedBitSet, Tracked(vp_mem): Tracked<&mut VpMem>)
    requires 0 < f < m <= 255, len <= i32::MAX, data@.len() == m - f, forall|j: int| 0 <= j < data@.len() ==> cview(#[trigger] data@[j]).len() >= len,
        old(parity)@.len() == f, outs_ok(*old(vp_mem), old(parity)@, len as int), outs_ok(*old(vp_mem), old(missing)@, len as int),
        erasures.sorted(), 0 < erasures@.len() <= f, forall|i: int| 0 <= i < erasures@.len() ==> #[trigger] erasures@[i] < m, erasures@[0] < m - f,
        ndata(erasures@, m - f, old(missing)@.len() as int), rows@.len() == m - f, lowest(ints(rows@), erasures@), forall|t: int| 0 <= t < rows@.len() ==> #[trigger] rows@[t] < m,
    ensures forall|i: int, b: int| 0 <= i < old(missing)@.len() && 0 <= b < len ==> #[trigger] byte(*final(vp_mem), old(missing)@[i], b) == cview(data@[erasures@[i] as int])[b],
        final(vp_mem).m.dom() == old(vp_mem).m.dom(),
        forall|o: int, x: int| old(vp_mem).m.dom().contains(o) && 0 <= x < old(vp_mem).m[o].len() && !inside(old(parity)@, len as int, o, x) && !inside(old(missing)@, len as int, o, x) ==> #[trigger] final(vp_mem).m[o][x] == old(vp_mem).m[o][x],
{
    let ghost m0 = *vp_mem; let ghost pr = parity@; let ghost ms = missing@;
    let c = Codec::new(m, f);
    c.encode(len, data, parity, Tracked(vp_mem));
    let ghost m1 = *vp_mem; let ghost d = cviews(data@);
    proof { c.lemma_wf(); }
    let k = (m - f) as usize;
    let mut surviving: Vec<*const u8> = Vec::new();
    let mut t: usize = 0;
    while t < k
        invariant c.wf(), c.mm() == m, c.ff() == f, 0 < f < m <= 255, k == m - f, *vp_mem == m1, surviving@.len() == t <= k, rows@.len() == k, data@.len() == k, pr == parity@, pr.len() == f, d == cviews(data@), outs_ok(m1, pr, len as int),
            forall|j: int| 0 <= j < data@.len() ==> cview(#[trigger] data@[j]).len() >= len, forall|t: int| 0 <= t < rows@.len() ==> #[trigger] rows@[t] < m,
            forall|i: int, b: int| 0 <= i < f && 0 <= b < len ==> #[trigger] byte(m1, pr[i], b) == c.par(d, i, b),
            forall|j: int| 0 <= j < t ==> cview(#[trigger] surviving@[j]).len() >= len,
            forall|j: int, b: int| 0 <= j < t && 0 <= b < len ==> #[trigger] cview(surviving@[j])[b] == col(c.enc(), k as int, rows@[j] as int, d, b)
        decreases k - t
    {
        let r = rows[t];
        let p = if r < k { data[r] } else { proof { assert(room(m1, pr[r - k], len as int)); } vp_written(parity[r - k], len, Tracked(vp_mem)) };
        proof {
            assert forall|b: int| 0 <= b < len implies #[trigger] cview(p)[b] == col(c.enc(), k as int, r as int, d, b) by {
                if r < k { c.lemma_wf(); lemma_data_row(c.enc(), k as int, r as int, d, b); } else { assert(byte(m1, pr[r - k], b) == c.par(d, r - k, b)); }
            }
        }
        surviving.push(p);
        t += 1;
    }
    proof {
        assert forall|x: Seq<int>, j: int, b: int| #[trigger] lowest(x, erasures@) && x.len() == c.kk() && 0 <= j < c.kk() && 0 <= b < len implies #[trigger] cview(surviving@[j])[b] == col(c.enc(), c.kk(), x[j], d, b) by {
            lemma_lowest_unique(x, ints(rows@), erasures@, k as int); assert(x[j] == ints(rows@)[j]);
        }
        assert(c.survivors(surviving@, erasures@, d, len as int));
        assert forall|i: int| 0 <= i < ms.len() implies #[trigger] room(m1, ms[i], len as int) by { assert(room(m0, ms[i], len as int)); }
    }
    c.decode(len, &surviving, missing, erasures, Tracked(vp_mem));
    proof {
        assert forall|i: int, b: int| 0 <= i < ms.len() && 0 <= b < len implies #[trigger] byte(*vp_mem, ms[i], b) == cview(data@[erasures@[i] as int])[b] by { assert(d[erasures@[i] as int] == cview(data@[erasures@[i] as int])); }
        assert forall|o: int, x: int| m0.m.dom().contains(o) && 0 <= x < m0.m[o].len() && !inside(pr, len as int, o, x) && !inside(ms, len as int, o, x) implies #[trigger] vp_mem.m[o][x] == m0.m[o][x] by { assert(m1.m[o][x] == m0.m[o][x]); }
    }
}
/// the part of a parity byte due to the columns listed
pub open spec fn part(e: Seq<u8>, k: int, i: int, d: Seq<Seq<u8>>, b: int, s: Set<int>) -> u8 { gsum(k as nat, |l: int| if s.contains(l) { gm(e[k * (k + i) + l], d[l][b]) } else { 0u8 }) }
proof fn lemma_part_add(e: Seq<u8>, k: int, i: int, d: Seq<Seq<u8>>, b: int, s: Set<int>, x: int)
    requires 0 <= x < k, !s.contains(x) ensures part(e, k, i, d, b, s.insert(x)) == part(e, k, i, d, b, s) ^ gm(e[k * (k + i) + x], d[x][b])
{
    let t = s.insert(x);
    let f = |l: int| if s.contains(l) { gm(e[k * (k + i) + l], d[l][b]) } else { 0u8 };
    let g = |l: int| if l == x { gm(e[k * (k + i) + l], d[l][b]) } else { 0u8 };
    let h = |l: int| if t.contains(l) { gm(e[k * (k + i) + l], d[l][b]) } else { 0u8 };
    assert forall|l: int| 0 <= l < k implies #[trigger] h(l) == f(l) ^ g(l) by { let v = gm(e[k * (k + i) + l], d[l][b]); lemma_x(v, 0, 0); lemma_x(0, 0, 0); assert(0u8 ^ v == v) by(bit_vector); }
    lemma_gsum_xor(k as nat, f, g, h); lemma_gsum_one(k as nat, x, g);
    lemma_gsum_eq(k as nat, |l: int| if t.contains(l) { gm(e[k * (k + i) + l], d[l][b]) } else { 0u8 }, h);
    lemma_gsum_eq(k as nat, |l: int| if s.contains(l) { gm(e[k * (k + i) + l], d[l][b]) } else { 0u8 }, f);
}
/// every data column is listed
pub open spec fn covers(order: Seq<u32>, k: int) -> bool { forall|l: int| 0 <= l < k ==> #[trigger] listed(order, l) }
pub open spec fn listed(order: Seq<u32>, l: int) -> bool { exists|n: int| 0 <= n < order.len() && #[trigger] order[n] == l }
/// E02: updating zeroed parity with each data column once, in any order, makes the parity that encode makes of all of them at once ...
fn prop_e02_update(c: &Codec, len: usize, data: &[&[u8]], order: &[u32], parity: &mut [*mut u8], Tracked(vp_mem): Tracked<&mut VpMem>)
    requires c.wf(), len <= i32::MAX, data@.len() == c.kk(), forall|j: int| 0 <= j < data@.len() ==> (#[trigger] data@[j])@.len() == len,
        old(parity)@.len() == c.ff(), outs_ok(*old(vp_mem), old(parity)@, len as int),
        forall|i: int, b: int| 0 <= i < c.ff() && 0 <= b < len ==> #[trigger] byte(*old(vp_mem), old(parity)@[i], b) == 0,
        forall|n: int| 0 <= n < order@.len() ==> #[trigger] order@[n] < c.kk(), forall|n: int, o: int| 0 <= n < o < order@.len() ==> order@[n] != order@[o],
        covers(order@, c.kk()),
    ensures forall|i: int, b: int| 0 <= i < c.ff() && 0 <= b < len ==> #[trigger] byte(*final(vp_mem), old(parity)@[i], b) == c.par(Seq::new(data@.len(), |j: int| data@[j]@), i, b)
{
    let ghost d = Seq::new(data@.len(), |j: int| data@[j]@); let ghost e = c.enc(); let ghost k = c.kk(); let ghost p = parity@;
    let ghost mut s: Set<int> = Set::empty();
    proof { c.lemma_wf();
        assert forall|i: int, b: int| 0 <= i < c.ff() && 0 <= b < len implies #[trigger] byte(*vp_mem, p[i], b) == part(e, k, i, d, b, s) by { lemma_gsum_zero(k as nat, |l: int| if s.contains(l) { gm(e[k * (k + i) + l], d[l][b]) } else { 0u8 }); } }
    let mut n: usize = 0;
    while n < order.len()
        invariant c.wf(), len <= i32::MAX, data@.len() == k == c.kk(), e == c.enc(), forall|j: int| 0 <= j < data@.len() ==> (#[trigger] data@[j])@.len() == len, d == Seq::new(data@.len(), |j: int| data@[j]@),
            p == parity@, p.len() == c.ff(), outs_ok(*vp_mem, p, len as int), n <= order@.len(),
            forall|n: int| 0 <= n < order@.len() ==> #[trigger] order@[n] < c.kk(), forall|n: int, o: int| 0 <= n < o < order@.len() ==> order@[n] != order@[o],
            forall|x: int| #[trigger] s.contains(x) <==> exists|q: int| 0 <= q < n && #[trigger] order@[q] == x,
            forall|i: int, b: int| 0 <= i < c.ff() && 0 <= b < len ==> #[trigger] byte(*vp_mem, p[i], b) == part(e, k, i, d, b, s)
        decreases order.len() - n
    {
        let ghost m1 = *vp_mem; let ghost s1 = s;
        let x = order[n];
        c.encode_update(len, data[x as usize], parity, x, Tracked(vp_mem));
        proof {
            s = s1.insert(x as int);
            assert forall|i: int, b: int| 0 <= i < c.ff() && 0 <= b < len implies #[trigger] byte(*vp_mem, p[i], b) == part(e, k, i, d, b, s) by { assert(byte(m1, p[i], b) == part(e, k, i, d, b, s1)); lemma_part_add(e, k, i, d, b, s1, x as int); }
            assert forall|y: int| #[trigger] s.contains(y) <==> exists|q: int| 0 <= q < n + 1 && #[trigger] order@[q] == y by {
                if s1.contains(y) { let q = choose|q: int| 0 <= q < n && #[trigger] order@[q] == y; assert(order@[q] == y); } else if y == x { assert(order@[n as int] == y); }
                if exists|q: int| 0 <= q < n + 1 && #[trigger] order@[q] == y { let q = choose|q: int| 0 <= q < n + 1 && #[trigger] order@[q] == y; if q < n { assert(s1.contains(y)); } } }
        }
        n += 1;
    }
    proof {
        assert forall|i: int, b: int| 0 <= i < c.ff() && 0 <= b < len implies #[trigger] byte(*vp_mem, p[i], b) == c.par(d, i, b) by {
            let f = |l: int| gm(e[k * (k + i) + l], d[l][b]); let h = |l: int| if s.contains(l) { gm(e[k * (k + i) + l], d[l][b]) } else { 0u8 };
            assert forall|l: int| 0 <= l < k implies #[trigger] h(l) == f(l) by { assert(listed(order@, l)); let q = choose|q: int| 0 <= q < order@.len() && #[trigger] order@[q] == l; assert(s.contains(l)); }
            lemma_gsum_eq(k as nat, h, f);
            lemma_gsum_eq(k as nat, |l: int| if s.contains(l) { gm(e[k * (k + i) + l], d[l][b]) } else { 0u8 }, h);
            lemma_gsum_eq(k as nat, |l: int| gm(e[k * (k + i) + l], d[l][b]), f);
        }
    }
}
/// ... and encoding the columns from scattered buffers makes the parity that encoding the same bytes from whole buffers makes.
fn prop_e02_vectored(c: &Codec, len: usize, lists: &[SGList], whole: &[*const u8], p: &mut [*mut u8], q: &mut [*mut u8], Tracked(vp_mem): Tracked<&mut VpMem>)
    requires c.wf(), len <= i32::MAX, lists@.len() == c.kk() == whole@.len(), old(p)@.len() == c.ff() == old(q)@.len(), outs_ok(*old(vp_mem), old(p)@, len as int), outs_ok(*old(vp_mem), old(q)@, len as int),
        forall|i: int, j: int| 0 <= i < old(p)@.len() && 0 <= j < old(q)@.len() ==> pobj(#[trigger] old(p)@[i]) != pobj(#[trigger] old(q)@[j]),
        forall|j: int| 0 <= j < lists@.len() ==> nonempty(#[trigger] lists@[j]@) && flat(lists@[j]@).len() == len,
        forall|j: int| 0 <= j < whole@.len() ==> cview(#[trigger] whole@[j]).len() >= len,
        forall|j: int, b: int| 0 <= j < whole@.len() && 0 <= b < len ==> #[trigger] cview(whole@[j])[b] == flat(lists@[j]@)[b],
    ensures forall|i: int, b: int| 0 <= i < c.ff() && 0 <= b < len ==> #[trigger] byte(*final(vp_mem), old(p)@[i], b) == byte(*final(vp_mem), old(q)@[i], b)
{
    let ghost m0 = *vp_mem; let ghost p0 = p@; let ghost q0 = q@;
    c.encodev(len, lists, p, Tracked(vp_mem));
    let ghost m1 = *vp_mem; 
    proof { c.lemma_wf(); assert forall|i: int| 0 <= i < q0.len() implies #[trigger] room(m1, q0[i], len as int) by { assert(room(m0, q0[i], len as int)); } }
    c.encode(len, whole, q, Tracked(vp_mem));
    proof {
        let k = c.kk(); let e = c.enc(); let d1 = flats(lists@); let d2 = cviews(whole@);
        assert forall|i: int, b: int| 0 <= i < c.ff() && 0 <= b < len implies #[trigger] byte(*vp_mem, p0[i], b) == byte(*vp_mem, q0[i], b) by {
            assert(byte(*vp_mem, q0[i], b) == c.par(d2, i, b)); assert(byte(m1, p0[i], b) == c.par(d1, i, b));
            let f = |l: int| gm(e[k * (k + i) + l], d1[l][b]); let g = |l: int| gm(e[k * (k + i) + l], d2[l][b]);
            assert forall|l: int| 0 <= l < k implies #[trigger] f(l) == g(l) by { assert(cview(whole@[l])[b] == flat(lists@[l]@)[b]); }
            lemma_gsum_eq(k as nat, f, g);
            let o = pobj(p0[i]); let x = poff(p0[i]) + b;
            assert(room(m1, p0[i], len as int));
            if inside(q0, len as int, o, x) { let j = choose|j: int| 0 <= j < q0.len() && o == pobj(#[trigger] q0[j]) && poff(q0[j]) <= x < poff(q0[j]) + len; assert(pobj(p0[i]) != pobj(q0[j])); }
            assert(vp_mem.m[o][x] == m1.m[o][x]);
        }
    }
}
"""
