// ---------------------------------------------------------------- sums over GF(2^8)
pub open spec fn gsum(n: nat, f: spec_fn(int) -> u8) -> u8 decreases n { if n == 0 { 0 } else { gsum((n - 1) as nat, f) ^ f(n - 1) } }
proof fn lemma_gsum_eq(n: nat, f: spec_fn(int) -> u8, g: spec_fn(int) -> u8)
    requires forall|j: int| 0 <= j < n ==> #[trigger] f(j) == g(j) ensures gsum(n, f) == gsum(n, g) decreases n
{ if n > 0 { lemma_gsum_eq((n - 1) as nat, f, g); assert(f(n - 1) == g(n - 1)); } }
proof fn lemma_gsum_zero(n: nat, f: spec_fn(int) -> u8)
    requires forall|j: int| 0 <= j < n ==> #[trigger] f(j) == 0 ensures gsum(n, f) == 0 decreases n
{ if n > 0 { lemma_gsum_zero((n - 1) as nat, f); assert(f(n - 1) == 0); lemma_x(0, 0, 0); } }
proof fn lemma_gsum_xor(n: nat, f: spec_fn(int) -> u8, g: spec_fn(int) -> u8, h: spec_fn(int) -> u8)
    requires forall|j: int| 0 <= j < n ==> #[trigger] h(j) == f(j) ^ g(j) ensures gsum(n, h) == gsum(n, f) ^ gsum(n, g) decreases n
{
    if n == 0 { lemma_x(0, 0, 0); } else {
        lemma_gsum_xor((n - 1) as nat, f, g, h); assert(h(n - 1) == f(n - 1) ^ g(n - 1));
        let a = gsum((n - 1) as nat, f); let b = gsum((n - 1) as nat, g); let c = f(n - 1); let d = g(n - 1);
        assert((a ^ b) ^ (c ^ d) == (a ^ c) ^ (b ^ d)) by(bit_vector);
    }
}
proof fn lemma_gm_left(a: u8, b: u8, c: u8) ensures gm(a ^ b, c) == gm(a, c) ^ gm(b, c) { lemma_hn(a, c); lemma_hn(b, c); lemma_hn(a ^ b, c); lemma_hl(a, b, c, 8); }
proof fn lemma_gsum_mul(n: nat, a: u8, f: spec_fn(int) -> u8, g: spec_fn(int) -> u8)
    requires forall|j: int| 0 <= j < n ==> #[trigger] g(j) == gm(a, f(j)) ensures gm(a, gsum(n, f)) == gsum(n, g) decreases n
{
    if n == 0 { lemma_zero(a); } else { lemma_gsum_mul((n - 1) as nat, a, f, g); assert(g(n - 1) == gm(a, f(n - 1))); lemma_gm_right(a, gsum((n - 1) as nat, f), f(n - 1)); }
}
proof fn lemma_gsum_mulr(n: nat, c: u8, f: spec_fn(int) -> u8, g: spec_fn(int) -> u8)
    requires forall|j: int| 0 <= j < n ==> #[trigger] g(j) == gm(f(j), c) ensures gm(gsum(n, f), c) == gsum(n, g) decreases n
{
    if n == 0 { lemma_zero(c); } else { lemma_gsum_mulr((n - 1) as nat, c, f, g); assert(g(n - 1) == gm(f(n - 1), c)); lemma_gm_left(gsum((n - 1) as nat, f), f(n - 1), c); }
}
/// a sum with one non-zero term
proof fn lemma_gsum_one(n: nat, r: int, f: spec_fn(int) -> u8)
    requires 0 <= r < n, forall|j: int| 0 <= j < n && j != r ==> #[trigger] f(j) == 0 ensures gsum(n, f) == f(r) decreases n
{
    let p = (n - 1) as nat;
    if r == n - 1 { lemma_gsum_zero(p, f); lemma_x(f(r), 0, 0); } else { lemma_gsum_one(p, r, f); assert(f(n - 1) == 0); lemma_x(f(r), 0, 0); }
}
proof fn lemma_gsum_swap(n: nat, p: nat, f: spec_fn(int) -> (spec_fn(int) -> u8), g: spec_fn(int) -> (spec_fn(int) -> u8), fa: spec_fn(int) -> u8, ga: spec_fn(int) -> u8)
    requires forall|j: int, l: int| 0 <= j < n && 0 <= l < p ==> #[trigger] f(j)(l) == #[trigger] g(l)(j),
        forall|j: int| 0 <= j < n ==> #[trigger] fa(j) == gsum(p, f(j)), forall|l: int| 0 <= l < p ==> #[trigger] ga(l) == gsum(n, g(l)),
    ensures gsum(n, fa) == gsum(p, ga) decreases n
{
    if n == 0 { lemma_gsum_zero(p, ga); } else {
        let q = (n - 1) as nat; let gb = |l: int| gsum(q, g(l));
        lemma_gsum_swap(q, p, f, g, fa, gb);
        assert forall|l: int| 0 <= l < p implies #[trigger] ga(l) == gb(l) ^ f(n - 1)(l) by { assert(f(n - 1)(l) == g(l)(n - 1)); }
        lemma_gsum_xor(p, gb, f(n - 1), ga);
        assert(fa(n - 1) == gsum(p, f(n - 1)));
    }
}
// ---------------------------------------------------------------- matrices, row-major with k columns
pub open spec fn delta(r: int, l: int) -> u8 { if r == l { 1 } else { 0 } }
/// byte b of the column that row `row` of the matrix makes of the columns d
pub open spec fn col(a: Seq<u8>, k: int, row: int, d: Seq<Seq<u8>>, b: int) -> u8 { gsum(k as nat, |l: int| gm(a[k * row + l], d[l][b])) }
/// entry (r, l) of D times the chosen rows of a
pub open spec fn mm(dm: Seq<u8>, a: Seq<u8>, rows: Seq<int>, k: int, r: int, l: int) -> u8 { gsum(k as nat, |j: int| gm(dm[k * r + j], a[k * rows[j] + l])) }
pub open spec fn linv(dm: Seq<u8>, a: Seq<u8>, rows: Seq<int>, k: int) -> bool {
    dm.len() == k * k && forall|r: int, l: int| 0 <= r < k && 0 <= l < k ==> #[trigger] mm(dm, a, rows, k, r, l) == delta(r, l)
}
pub open spec fn idrows(k: int) -> Seq<int> { Seq::new(k as nat, |i: int| i) }
pub open spec fn increasing(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
pub open spec fn chosen(rows: Seq<int>, m: int, k: int) -> bool { rows.len() == k && increasing(rows) && forall|i: int| 0 <= i < k ==> 0 <= #[trigger] rows[i] < m }
/// any k rows determine the data: the code tolerates the loss of any m - k columns
pub open spec fn mds(a: Seq<u8>, m: int, k: int) -> bool { forall|rows: Seq<int>| #[trigger] chosen(rows, m, k) ==> exists|dm: Seq<u8>| linv(dm, a, rows, k) }
pub open spec fn topid(a: Seq<u8>, k: int) -> bool { forall|i: int, l: int| 0 <= i < k && 0 <= l < k ==> #[trigger] a[k * i + l] == delta(i, l) }
proof fn lemma_idx(k: int, m: int, i: int, l: int) requires 0 <= i < m, 0 <= l < k ensures 0 <= k * i <= k * i + l < k * m, k * i + k <= k * m, 0 <= k * k, k <= k * m
{ assert(k * i + k <= k * m) by(nonlinear_arith) requires i + 1 <= m, k >= 0; assert(k * i >= 0) by(nonlinear_arith) requires i >= 0, k >= 0; assert(k <= k * m) by(nonlinear_arith) requires 1 <= m, k >= 0; assert(0 <= k * k) by(nonlinear_arith) requires k >= 0; }
/// Reconstruction: the inverse of the chosen rows undoes them
proof fn lemma_reconstruct(k: int, dm: Seq<u8>, a: Seq<u8>, rows: Seq<int>, d: Seq<Seq<u8>>, b: int, s: Seq<Seq<u8>>, r: int)
    requires k > 0, linv(dm, a, rows, k), 0 <= r < k, forall|j: int| 0 <= j < k ==> (#[trigger] s[j])[b] == col(a, k, rows[j], d, b)
    ensures col(dm, k, r, s, b) == d[r][b]
{
    let n = k as nat;
    let f = |j: int| (|l: int| gm(gm(dm[k * r + j], a[k * rows[j] + l]), d[l][b]));
    let g = |l: int| (|j: int| gm(gm(dm[k * r + j], a[k * rows[j] + l]), d[l][b]));
    let fa = |j: int| gm(dm[k * r + j], s[j][b]);
    let ga = |l: int| gsum(n, g(l));
    assert forall|j: int| 0 <= j < k implies #[trigger] fa(j) == gsum(n, f(j)) by {
        let h = |l: int| gm(a[k * rows[j] + l], d[l][b]); let x = dm[k * r + j];
        assert(s[j][b] == gsum(n, h));
        assert forall|l: int| 0 <= l < k implies #[trigger] f(j)(l) == gm(x, h(l)) by { lemma_gm_assoc(x, a[k * rows[j] + l], d[l][b]); }
        lemma_gsum_mul(n, x, h, f(j));
    }
    lemma_gsum_swap(n, n, f, g, fa, ga);
    assert forall|l: int| 0 <= l < k implies #[trigger] ga(l) == gm(delta(r, l), d[l][b]) by {
        let h = |j: int| gm(dm[k * r + j], a[k * rows[j] + l]);
        assert(mm(dm, a, rows, k, r, l) == delta(r, l));
        lemma_gsum_mulr(n, d[l][b], h, g(l));
    }
    assert forall|l: int| 0 <= l < k && l != r implies #[trigger] ga(l) == 0 by { assert(ga(l) == gm(delta(r, l), d[l][b])); lemma_zero(d[l][b]); }
    lemma_gsum_one(n, r, ga); assert(ga(r) == gm(delta(r, r), d[r][b])); lemma_zero(d[r][b]);
    lemma_gsum_eq(n, |j: int| gm(dm[k * r + j], s[j][b]), fa);
}
proof fn lemma_linv_rows(dm: Seq<u8>, s: Seq<u8>, a: Seq<u8>, rows: Seq<int>, k: int)
    requires forall|x: int, y: int| 0 <= x < k && 0 <= y < k ==> #[trigger] s[k * x + y] == a[k * rows[x] + y] ensures linv(dm, s, idrows(k), k) == linv(dm, a, rows, k)
{
    assert forall|r: int, l: int| 0 <= r < k && 0 <= l < k implies #[trigger] mm(dm, s, idrows(k), k, r, l) == mm(dm, a, rows, k, r, l) by {
        let f = |j: int| gm(dm[k * r + j], s[k * idrows(k)[j] + l]); let g = |j: int| gm(dm[k * r + j], a[k * rows[j] + l]);
        assert forall|j: int| 0 <= j < k implies #[trigger] f(j) == g(j) by { assert(s[k * j + l] == a[k * rows[j] + l]); }
        lemma_gsum_eq(k as nat, f, g);
    }
    if linv(dm, s, idrows(k), k) { assert forall|r: int, l: int| 0 <= r < k && 0 <= l < k implies #[trigger] mm(dm, a, rows, k, r, l) == delta(r, l) by { assert(mm(dm, s, idrows(k), k, r, l) == delta(r, l)); } }
    if linv(dm, a, rows, k) { assert forall|r: int, l: int| 0 <= r < k && 0 <= l < k implies #[trigger] mm(dm, s, idrows(k), k, r, l) == delta(r, l) by { assert(mm(dm, a, rows, k, r, l) == delta(r, l)); } }
}
proof fn lemma_linv_rows_all(s: Seq<u8>, a: Seq<u8>, rows: Seq<int>, k: int)
    requires forall|x: int, y: int| 0 <= x < k && 0 <= y < k ==> #[trigger] s[k * x + y] == a[k * rows[x] + y] ensures forall|dm: Seq<u8>| #[trigger] linv(dm, s, idrows(k), k) ==> linv(dm, a, rows, k)
{ assert forall|dm: Seq<u8>| #[trigger] linv(dm, s, idrows(k), k) implies linv(dm, a, rows, k) by { lemma_linv_rows(dm, s, a, rows, k); } }
/// a data row of the distribution matrix yields the data column itself
proof fn lemma_data_row(a: Seq<u8>, k: int, row: int, d: Seq<Seq<u8>>, b: int) requires topid(a, k), 0 <= row < k ensures col(a, k, row, d, b) == d[row][b]
{
    let f = |l: int| gm(a[k * row + l], d[l][b]);
    assert forall|l: int| 0 <= l < k && l != row implies #[trigger] f(l) == 0 by { assert(a[k * row + l] == delta(row, l)); lemma_zero(d[l][b]); }
    lemma_gsum_one(k as nat, row, f); assert(a[k * row + row] == delta(row, row)); lemma_zero(d[row][b]);
}
/// One row of ones below the identity (single parity, XOR) tolerates any one loss
proof fn lemma_xor_mds(a: Seq<u8>, k: int) requires k > 0, topid(a, k), forall|l: int| 0 <= l < k ==> #[trigger] a[k * k + l] == 1 ensures mds(a, k + 1, k)
{
    assert forall|rows: Seq<int>| #[trigger] chosen(rows, k + 1, k) implies exists|dm: Seq<u8>| linv(dm, a, rows, k) by {
        // rows[t] is t up to some e, t + 1 from there on
        assert forall|t: int| 0 <= t < k implies t <= #[trigger] rows[t] <= t + 1 by { lemma_rows_low(rows, k, t); lemma_rows_high(rows, k, t); }
        let e = lemma_gap(rows, k);
        let dm = Seq::new((k * k) as nat, |x: int| { let r = x / k; let j = x % k; if r == e { 1u8 } else if r < e { delta(r, j) } else { delta(r - 1, j) } });
        assert(k * k >= 0) by(nonlinear_arith) requires k > 0;
        assert forall|r: int, l: int| 0 <= r < k && 0 <= l < k implies #[trigger] mm(dm, a, rows, k, r, l) == delta(r, l) by {
            let f = |j: int| gm(dm[k * r + j], a[k * rows[j] + l]);
            assert forall|j: int| 0 <= j < k implies #[trigger] dm[k * r + j] == (if r == e { 1u8 } else if r < e { delta(r, j) } else { delta(r - 1, j) }) by {
                lemma_idx(k, k, r, j); lemma_div(k, r, j);
            }
            if r != e {
                let t = if r < e { r } else { r - 1 };
                assert(rows[t] == r);
                assert forall|j: int| 0 <= j < k && j != t implies #[trigger] f(j) == 0 by { assert(dm[k * r + j] == 0); lemma_zero(a[k * rows[j] + l]); }
                lemma_gsum_one(k as nat, t, f); assert(dm[k * r + t] == 1); lemma_zero(a[k * rows[t] + l]); assert(a[k * r + l] == delta(r, l));
            } else {
                assert(rows[k - 1] == k);
                let f1 = |j: int| if j < k - 1 { f(j) } else { 0u8 }; let f2 = |j: int| if j == k - 1 { 1u8 } else { 0u8 };
                assert(a[k * k + l] == 1);
                assert forall|j: int| 0 <= j < k implies #[trigger] f(j) == f1(j) ^ f2(j) && f(j) == a[k * rows[j] + l] && (j < k - 1 ==> f(j) == delta(rows[j], l)) by {
                    assert(dm[k * r + j] == 1); lemma_zero(a[k * rows[j] + l]); lemma_x(f(j), 0, 0); lemma_x(1, 0, 0);
                    if j == k - 1 { assert(k * rows[j] + l == k * k + l); assert(0u8 ^ 1 == 1) by(bit_vector); } else { assert(a[k * rows[j] + l] == delta(rows[j], l)); }
                }
                lemma_gsum_xor(k as nat, f1, f2, f); lemma_gsum_one(k as nat, k - 1, f2);
                if l == e { lemma_gsum_zero(k as nat, f1); assert(0u8 ^ 1 == 1) by(bit_vector); }
                else {
                    let t = if l < e { l } else { l - 1 };
                    assert(rows[t] == l);
                    assert forall|j: int| 0 <= j < k && j != t implies #[trigger] f1(j) == 0 by { if j < k - 1 { assert(f(j) == delta(rows[j], l)); } }
                    lemma_gsum_one(k as nat, t, f1); assert(f(t) == delta(rows[t], l)); assert(1u8 ^ 1 == 0) by(bit_vector);
                }
            }
        }
        assert(linv(dm, a, rows, k));
    }
}
proof fn lemma_div(k: int, r: int, j: int) requires 0 <= j < k ensures (k * r + j) / k == r, (k * r + j) % k == j { assert(k * r == r * k) by(nonlinear_arith); lemma_fundamental_div_mod_converse(k * r + j, k, r, j); }
proof fn lemma_rows_low(rows: Seq<int>, k: int, t: int) requires chosen(rows, k + 1, k), 0 <= t < k ensures t <= rows[t] decreases t
{ if t > 0 { lemma_rows_low(rows, k, t - 1); assert(rows[t - 1] < rows[t]); } else { assert(0 <= rows[0]); } }
proof fn lemma_rows_high(rows: Seq<int>, k: int, t: int) requires chosen(rows, k + 1, k), 0 <= t < k ensures rows[t] <= t + 1 decreases k - t
{ if t < k - 1 { lemma_rows_high(rows, k, t + 1); assert(rows[t] < rows[t + 1]); } else { assert(rows[t] < k + 1); } }
proof fn lemma_gap(rows: Seq<int>, k: int) -> (e: int) requires chosen(rows, k + 1, k), forall|t: int| 0 <= t < k ==> t <= #[trigger] rows[t] <= t + 1
    ensures 0 <= e <= k, forall|t: int| 0 <= t < e ==> #[trigger] rows[t] == t, forall|t: int| e <= t < k ==> #[trigger] rows[t] == t + 1
{ lemma_gap_to(rows, k, k) }
proof fn lemma_gap_to(rows: Seq<int>, k: int, n: int) -> (e: int) requires chosen(rows, k + 1, k), 0 <= n <= k, forall|t: int| 0 <= t < k ==> t <= #[trigger] rows[t] <= t + 1
    ensures 0 <= e <= n, forall|t: int| 0 <= t < e ==> #[trigger] rows[t] == t, forall|t: int| e <= t < n ==> #[trigger] rows[t] == t + 1 decreases n
{
    if n == 0 { 0 } else {
        let e = lemma_gap_to(rows, k, n - 1);
        if rows[n - 1] == n - 1 { if e < n - 1 { assert(rows[n - 2] == n - 1); assert(rows[n - 2] < rows[n - 1]); } n } else { e }
    }
}
// ---------------------------------------------------------------- pointers and the memory written through them
pub tracked struct VpMem { pub ghost m: Map<int, Seq<u8>> }
/// the allocation a pointer points into, and where
pub uninterp spec fn pobj(p: *mut u8) -> int;
pub uninterp spec fn poff(p: *mut u8) -> int;
/// the bytes readable from a pointer on, which nobody changes while they are read
pub uninterp spec fn cview(p: *const u8) -> Seq<u8>;
pub open spec fn cviews(p: Seq<*const u8>) -> Seq<Seq<u8>> { Seq::new(p.len(), |j: int| cview(p[j])) }
pub open spec fn byte(m: VpMem, p: *mut u8, b: int) -> u8 { m.m[pobj(p)][poff(p) + b] }
pub open spec fn room(m: VpMem, p: *mut u8, len: int) -> bool { m.m.dom().contains(pobj(p)) && 0 <= poff(p) && poff(p) + len <= m.m[pobj(p)].len() }
pub open spec fn outs_ok(m: VpMem, p: Seq<*mut u8>, len: int) -> bool {
    (forall|i: int| 0 <= i < p.len() ==> #[trigger] room(m, p[i], len)) && forall|i: int, j: int| 0 <= i < j < p.len() ==> pobj(#[trigger] p[i]) != pobj(#[trigger] p[j])
}
pub open spec fn inside(p: Seq<*mut u8>, len: int, o: int, x: int) -> bool { exists|i: int| 0 <= i < p.len() && o == pobj(#[trigger] p[i]) && poff(p[i]) <= x < poff(p[i]) + len }
/// nothing but the len bytes at each pointer changed
pub open spec fn frame(m0: VpMem, m1: VpMem, p: Seq<*mut u8>, len: int) -> bool {
    &&& m1.m.dom() == m0.m.dom()
    &&& forall|o: int| #[trigger] m0.m.dom().contains(o) ==> m1.m[o].len() == m0.m[o].len()
    &&& forall|o: int, x: int| m0.m.dom().contains(o) && 0 <= x < m0.m[o].len() && !inside(p, len, o, x) ==> #[trigger] m1.m[o][x] == m0.m[o][x]
}
proof fn lemma_frame_trans(m0: VpMem, m1: VpMem, m2: VpMem, p: Seq<*mut u8>, q: Seq<*mut u8>, at: int, n: int, len: int)
    requires frame(m0, m1, p, len), frame(m1, m2, q, n), 0 <= at, 0 <= n, at + n <= len, p.len() == q.len(), outs_ok(m0, p, len),
        forall|i: int| 0 <= i < p.len() ==> #[trigger] pobj(q[i]) == pobj(p[i]) && poff(q[i]) == poff(p[i]) + at
    ensures frame(m0, m2, p, len), outs_ok(m2, p, len)
{
    assert forall|o: int, x: int| m0.m.dom().contains(o) && 0 <= x < m0.m[o].len() && !inside(p, len, o, x) implies #[trigger] m2.m[o][x] == m0.m[o][x] by {
        if inside(q, n, o, x) { let i = choose|i: int| 0 <= i < q.len() && o == pobj(#[trigger] q[i]) && poff(q[i]) <= x < poff(q[i]) + n; assert(pobj(q[i]) == pobj(p[i])); assert(inside(p, len, o, x)); }
        assert(m1.m[o][x] == m0.m[o][x]);
    }
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] room(m2, p[i], len) by { assert(room(m0, p[i], len)); }
}
// ---------------------------------------------------------------- sets of lost columns
pub open spec fn ints(s: Seq<usize>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
/// rows are the lowest columns not lost
pub open spec fn lowest(rows: Seq<int>, ones: Seq<usize>) -> bool {
    &&& increasing(rows)
    &&& forall|t: int| 0 <= t < rows.len() ==> 0 <= #[trigger] rows[t] && !ints(ones).contains(rows[t])
    &&& forall|t: int, x: int| 0 <= t < rows.len() && 0 <= x < #[trigger] rows[t] && !#[trigger] ints(ones).contains(x) ==> exists|u: int| 0 <= u < t && rows[u] == x
}
proof fn lemma_lowest_unique(r1: Seq<int>, r2: Seq<int>, ones: Seq<usize>, t: int)
    requires lowest(r1, ones), lowest(r2, ones), 0 <= t <= r1.len(), r1.len() == r2.len() ensures forall|i: int| 0 <= i < t ==> r1[i] == r2[i] decreases t
{
    if t > 0 {
        lemma_lowest_unique(r1, r2, ones, t - 1);
        let a = r1[t - 1]; let b = r2[t - 1];
        if a < b { let u = choose|u: int| 0 <= u < t - 1 && r2[u] == a; assert(r1[u] < r1[t - 1]); }
        if b < a { let u = choose|u: int| 0 <= u < t - 1 && r1[u] == b; assert(r2[u] < r2[t - 1]); }
    }
}
impl Codec {
    pub closed spec fn mm(&self) -> int { self.m as int }
    pub closed spec fn ff(&self) -> int { self.f as int }
    pub open spec fn kk(&self) -> int { self.mm() - self.ff() }
    /// the distribution matrix
    pub closed spec fn enc(&self) -> Seq<u8> { self.enc_matrix@ }
    pub closed spec fn wf(&self) -> bool {
        let k = self.kk();
        &&& 0 < self.f && self.f < self.m <= 255
        &&& self.enc_matrix@.len() == self.m * k && topid(self.enc_matrix@, k) && mds(self.enc_matrix@, self.m as int, k)
        &&& self.enc_tables@.len() == 32 * k * self.f
        &&& coefs(self.enc_tables@) == self.enc_matrix@.subrange(k * k, self.m * k)
    }
    proof fn lemma_wf(&self) requires self.wf() ensures 0 < self.ff() < self.mm() <= 255, self.enc().len() == self.mm() * self.kk(), topid(self.enc(), self.kk()), mds(self.enc(), self.mm(), self.kk()),
        self.kk() * self.kk() <= self.mm() * self.kk()
    { assert(self.kk() * self.kk() <= self.mm() * self.kk()) by(nonlinear_arith) requires 0 <= self.kk() <= self.mm(); }
    /// what parity column i holds at byte b
    pub open spec fn par(&self, d: Seq<Seq<u8>>, i: int, b: int) -> u8 { col(self.enc(), self.kk(), self.kk() + i, d, b) }
    proof fn lemma_par(&self, d: Seq<Seq<u8>>, i: int, b: int) requires self.wf(), 0 <= i < self.ff() ensures col(coefs(self.enc_tables@), self.kk(), i, d, b) == self.par(d, i, b)
    {
        let k = self.kk(); let e = self.enc_matrix@; let c = coefs(self.enc_tables@);
        let f = |l: int| gm(c[k * i + l], d[l][b]); let g = |l: int| gm(e[k * (k + i) + l], d[l][b]);
        assert forall|l: int| 0 <= l < k implies #[trigger] f(l) == g(l) by {
            lemma_idx(k, self.f as int, i, l); lemma_idx(k, self.m as int, k + i, l);
            assert(k * (k + i) == k * k + k * i) by(nonlinear_arith); assert(self.m * k == k * k + k * self.f) by(nonlinear_arith) requires k == self.m - self.f;
            assert(self.m * k == k * self.m) by(nonlinear_arith);
        }
        lemma_gsum_eq(k as nat, f, g);
    }
}
