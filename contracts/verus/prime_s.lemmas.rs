// ---------------------------------------------------------------------------
// Spec functions and lemmas for the PRIME-S layout.  Pure mathematics: nothing
// in this file is executable and nothing is assumed.
// ---------------------------------------------------------------------------
pub open spec fn prime(n: int) -> bool {
    n > 1 && forall|d: int| 1 < d < n ==> #[trigger] (n % d) != 0
}
/// a and b are congruent mod n
pub open spec fn eqm(a: int, b: int, n: int) -> bool { (a - b) % n == 0 }

// --- definition of the layout, from the property statements ----------------
// Geometry g = (n, k, f);   m = k - f data chunks per stripe.
// Stripe number S counts stripes from the start of the array; b is the chunk's
// position within its stripe (b < m: data, b >= m: parity b - m).
pub ghost struct Geo { pub n: int, pub k: int, pub f: int }
impl Geo {
    pub open spec fn m(self) -> int { self.k - self.f }
    pub open spec fn ok(self) -> bool {
        prime(self.n) && self.n <= 215 && 1 < self.k <= self.n && 0 < self.f < self.k
    }
    /// stripes per repetition
    pub open spec fn spr(self) -> int { self.n * (self.n - 1) }
    pub open spec fn depth(self) -> int { self.k * (self.n - 1) }
    pub open spec fn datachunks(self) -> int { self.n * (self.n - 1) * self.m() }
    /// PRIME's disk function, for stripe s of iteration z
    pub open spec fn disk_z(self, z: int, s: int, b: int) -> int {
        ((s * self.m() + b) * (z + 1)) % self.n
    }
    pub open spec fn z_of(self, s: int) -> int { (s % self.spr()) / self.n }
    pub open spec fn sz_of(self, s: int) -> int { (s % self.spr()) % self.n }
    /// the disk that holds chunk b of stripe s
    pub open spec fn disk(self, s: int, b: int) -> int {
        self.disk_z(self.z_of(s), self.sz_of(s), b)
    }
    /// number of chunks b' < b of stripe s that are on disk d
    pub open spec fn row(self, d: int, s: int, b: int) -> int
        decreases b
    {
        if b <= 0 { 0 } else {
            self.row(d, s, b - 1) + if self.disk(s, b - 1) == d { 1int } else { 0 }
        }
    }
    /// number of chunks of stripes < s that are on disk d
    pub open spec fn before(self, d: int, s: int) -> int
        decreases s
    {
        if s <= 0 { 0 } else { self.before(d, s - 1) + self.row(d, s - 1, self.k) }
    }
    /// The slot of chunk b of stripe s: how many chunks precede it, in stripe
    /// order, on its disk.
    pub open spec fn offset(self, s: int, b: int) -> int {
        let d = self.disk(s, b);
        self.before(d, s) + self.row(d, s, b)
    }
    // -- the same counts, restricted to one iteration
    pub open spec fn rowz(self, d: int, z: int, s: int, b: int) -> int
        decreases b
    {
        if b <= 0 { 0 } else {
            self.rowz(d, z, s, b - 1) + if self.disk_z(z, s, b - 1) == d { 1int } else { 0 }
        }
    }
    pub open spec fn beforez(self, d: int, z: int, s: int, kk: int) -> int
        decreases s
    {
        if s <= 0 { 0 } else { self.beforez(d, z, s - 1, kk) + self.rowz(d, z, s - 1, kk) }
    }
    // -- T(i): the stripe of iteration z whose i'th chunk is on the disk with
    //    c = disk * yinv
    pub open spec fn t(self, c: int, minv: int, i: int) -> int { ((c - i) * minv) % self.n }
    /// #{i < kk : T(i) < s}
    pub open spec fn tc(self, c: int, minv: int, kk: int, s: int) -> int
        decreases kk
    {
        if kk <= 0 { 0 } else {
            self.tc(c, minv, kk - 1, s) + if self.t(c, minv, kk - 1) < s { 1int } else { 0 }
        }
    }
    /// #{lo <= i < lo + kk : T(i) < s}
    pub open spec fn tcr(self, c: int, minv: int, lo: int, kk: int, s: int) -> int
        decreases kk
    {
        if kk <= 0 { 0 } else {
            self.tcr(c, minv, lo, kk - 1, s) + if self.t(c, minv, lo + kk - 1) < s { 1int } else { 0 }
        }
    }
}

// --- modular arithmetic ------------------------------------------------------
proof fn lemma_eqm_rem(a: int, n: int)
    requires n > 0
    ensures eqm(a, a % n, n), eqm(a % n, a, n), 0 <= a % n < n
{
    lemma_fundamental_div_mod(a, n);
    assert(a - a % n == n * (a / n));
    lemma_mod_multiples_basic(a / n, n);
    assert(a % n - a == n * (-(a / n))) by(nonlinear_arith) requires a - a % n == n * (a / n);
    lemma_mod_multiples_basic(-(a / n), n);
    lemma_mul_is_commutative(n, a / n);
    lemma_mul_is_commutative(n, -(a / n));
}
proof fn lemma_eqm_iff(a: int, b: int, n: int)
    requires n > 0
    ensures eqm(a, b, n) <==> a % n == b % n
{
    lemma_mod_equivalence(a, b, n);
}
proof fn lemma_eqm_refl(a: int, n: int)
    requires n > 0
    ensures eqm(a, a, n)
{ lemma_eqm_iff(a, a, n); }
proof fn lemma_eqm_sym(a: int, b: int, n: int)
    requires n > 0, eqm(a, b, n)
    ensures eqm(b, a, n)
{ lemma_eqm_iff(a, b, n); lemma_eqm_iff(b, a, n); }
proof fn lemma_eqm_trans(a: int, b: int, c: int, n: int)
    requires n > 0, eqm(a, b, n), eqm(b, c, n)
    ensures eqm(a, c, n)
{ lemma_eqm_iff(a, b, n); lemma_eqm_iff(b, c, n); lemma_eqm_iff(a, c, n); }
proof fn lemma_eqm_add(a: int, b: int, c: int, d: int, n: int)
    requires n > 0, eqm(a, b, n), eqm(c, d, n)
    ensures eqm(a + c, b + d, n), eqm(a - c, b - d, n)
{
    let p = (a - b) / n; let q = (c - d) / n;
    lemma_fundamental_div_mod(a - b, n);
    lemma_fundamental_div_mod(c - d, n);
    assert((a + c) - (b + d) == (p + q) * n) by(nonlinear_arith)
        requires a - b == n * p + (a - b) % n, c - d == n * q + (c - d) % n,
                 (a - b) % n == 0, (c - d) % n == 0;
    assert((a - c) - (b - d) == (p - q) * n) by(nonlinear_arith)
        requires a - b == n * p + (a - b) % n, c - d == n * q + (c - d) % n,
                 (a - b) % n == 0, (c - d) % n == 0;
    lemma_mod_multiples_basic(p + q, n);
    lemma_mod_multiples_basic(p - q, n);
}
proof fn lemma_eqm_mul(a: int, b: int, c: int, n: int)
    requires n > 0, eqm(a, b, n)
    ensures eqm(a * c, b * c, n), eqm(c * a, c * b, n)
{
    let p = (a - b) / n;
    lemma_fundamental_div_mod(a - b, n);
    assert(a * c - b * c == (p * c) * n) by(nonlinear_arith)
        requires a - b == n * p + (a - b) % n, (a - b) % n == 0;
    lemma_mod_multiples_basic(p * c, n);
    lemma_mul_is_commutative(a, c);
    lemma_mul_is_commutative(b, c);
}
proof fn lemma_eqm_multiple(a: int, q: int, n: int)
    requires n > 0
    ensures eqm(a + q * n, a, n), eqm(a, a + q * n, n), eqm(a - q * n, a, n)
{
    lemma_mod_multiples_basic(q, n);
    lemma_mod_multiples_basic(-q, n);
    assert((-q) * n == -(q * n)) by(nonlinear_arith);
}
/// Two values in [0, n) that are congruent are equal
proof fn lemma_eqm_small(a: int, b: int, n: int)
    requires n > 0, 0 <= a < n, 0 <= b < n, eqm(a, b, n)
    ensures a == b
{
    lemma_eqm_iff(a, b, n);
    lemma_small_mod(a as nat, n as nat);
    lemma_small_mod(b as nat, n as nat);
}
/// (p + n*q) / n == q  and % n == p  for 0 <= p < n
proof fn lemma_divmod_unique(x: int, n: int, q: int, r: int)
    requires n > 0, x == q * n + r, 0 <= r < n
    ensures x / n == q, x % n == r
{
    lemma_fundamental_div_mod_converse(x, n, q, r);
}
/// cancel a factor that has an inverse
proof fn lemma_cancel(a: int, b: int, y: int, yinv: int, n: int)
    requires n > 0, eqm(y * yinv, 1, n), eqm(a * y, b * y, n)
    ensures eqm(a, b, n)
{
    lemma_eqm_mul(a * y, b * y, yinv, n);
    assert(a * y * yinv == a * (y * yinv)) by(nonlinear_arith);
    assert(b * y * yinv == b * (y * yinv)) by(nonlinear_arith);
    lemma_eqm_mul(y * yinv, 1, a, n);
    lemma_eqm_mul(y * yinv, 1, b, n);
    lemma_eqm_sym(a * (y * yinv), a * 1, n);
    lemma_eqm_trans(a, a * (y * yinv), b * (y * yinv), n);
    lemma_eqm_trans(a, b * (y * yinv), b, n);
}

// --- facts about one disk of one iteration -----------------------------------
/// Everything the lemmas need to know about disk d in iteration z
pub open spec fn ctx(g: Geo, d: int, z: int, c: int, yinv: int, minv: int) -> bool {
    g.ok() && 0 <= d < g.n && 0 <= z < g.n - 1
    && eqm((z + 1) * yinv, 1, g.n) && eqm(g.m() * minv, 1, g.n)
    && c == d * yinv
}

/// chunk i of stripe s (of iteration z) is on disk d  iff  s*m + i = c (mod n)
proof fn lemma_hit_c(g: Geo, d: int, z: int, c: int, yinv: int, minv: int, s: int, i: int)
    requires ctx(g, d, z, c, yinv, minv)
    ensures g.disk_z(z, s, i) == d <==> eqm(s * g.m() + i, c, g.n)
{
    let n = g.n; let y = z + 1; let x = s * g.m() + i;
    lemma_eqm_rem(x * y, n);
    if g.disk_z(z, s, i) == d {
        // x*y = d  =>  x*y*yinv = c
        assert(eqm(x * y, d, n));
        lemma_eqm_mul(x * y, d, yinv, n);
        assert(x * y * yinv == x * (y * yinv)) by(nonlinear_arith);
        lemma_eqm_mul(y * yinv, 1, x, n);
        lemma_eqm_sym(x * (y * yinv), x * 1, n);
        lemma_eqm_trans(x, x * (y * yinv), c, n);
    }
    if eqm(x, c, n) {
        lemma_eqm_mul(x, c, y, n);
        assert(c * y == d * (y * yinv)) by(nonlinear_arith) requires c == d * yinv;
        lemma_eqm_mul(y * yinv, 1, d, n);
        assert(eqm(c * y, d, n));
        lemma_eqm_trans(x * y, c * y, d, n);
        lemma_eqm_sym(x * y, (x * y) % n, n);
        lemma_eqm_trans((x * y) % n, x * y, d, n);
        lemma_eqm_small((x * y) % n, d, n);
    }
}
/// ... iff s == T(i)
proof fn lemma_hit_t(g: Geo, d: int, z: int, c: int, yinv: int, minv: int, s: int, i: int)
    requires ctx(g, d, z, c, yinv, minv), 0 <= s < g.n
    ensures g.disk_z(z, s, i) == d <==> s == g.t(c, minv, i),
            0 <= g.t(c, minv, i) < g.n
{
    let n = g.n; let m = g.m();
    lemma_hit_c(g, d, z, c, yinv, minv, s, i);
    let u = (c - i) * minv;
    lemma_eqm_rem(u, n);
    if eqm(s * m + i, c, n) {
        lemma_eqm_refl(i, n);
        lemma_eqm_add(s * m + i, c, i, i, n);
        assert(eqm(s * m, c - i, n));
        lemma_eqm_mul(s * m, c - i, minv, n);
        assert(s * m * minv == s * (m * minv)) by(nonlinear_arith);
        lemma_eqm_mul(m * minv, 1, s, n);
        lemma_eqm_sym(s * (m * minv), s * 1, n);
        lemma_eqm_trans(s, s * (m * minv), u, n);
        lemma_eqm_trans(s, u, u % n, n);
        lemma_eqm_small(s, u % n, n);
    }
    if s == g.t(c, minv, i) {
        assert(eqm(s, u, n));
        lemma_eqm_mul(s, u, m, n);
        assert(u * m == (c - i) * (m * minv)) by(nonlinear_arith) requires u == (c - i) * minv;
        lemma_eqm_mul(m * minv, 1, c - i, n);
        lemma_eqm_trans(s * m, u * m, c - i, n);
        lemma_eqm_refl(i, n);
        lemma_eqm_add(s * m, c - i, i, i, n);
    }
}
/// T is injective on [0, n)
proof fn lemma_t_inj(g: Geo, d: int, z: int, c: int, yinv: int, minv: int, i: int, j: int)
    requires ctx(g, d, z, c, yinv, minv), 0 <= i < g.n, 0 <= j < g.n,
             g.t(c, minv, i) == g.t(c, minv, j)
    ensures i == j
{
    let n = g.n; let m = g.m();
    let s = g.t(c, minv, i);
    lemma_eqm_rem((c - i) * minv, n);
    lemma_hit_t(g, d, z, c, yinv, minv, s, i);
    lemma_hit_t(g, d, z, c, yinv, minv, s, j);
    lemma_hit_c(g, d, z, c, yinv, minv, s, i);
    lemma_hit_c(g, d, z, c, yinv, minv, s, j);
    lemma_eqm_sym(s * m + j, c, n);
    lemma_eqm_trans(s * m + i, c, s * m + j, n);
    assert(eqm(i, j, n));
    lemma_eqm_small(i, j, n);
}
/// A stripe has at most one chunk on each disk
proof fn lemma_row_le1(g: Geo, d: int, z: int, c: int, yinv: int, minv: int, s: int, b: int)
    requires ctx(g, d, z, c, yinv, minv), 0 <= s < g.n, 0 <= b <= g.k
    ensures 0 <= g.rowz(d, z, s, b) <= 1,
            forall|i: int| 0 <= i < b && g.disk_z(z, s, i) == d ==> g.rowz(d, z, s, b) == 1 && #[trigger] g.rowz(d, z, s, i) == 0,
            (forall|i: int| 0 <= i < b ==> #[trigger] g.disk_z(z, s, i) != d) ==> g.rowz(d, z, s, b) == 0
    decreases b
{
    if b > 0 {
        lemma_row_le1(g, d, z, c, yinv, minv, s, b - 1);
        if g.disk_z(z, s, b - 1) == d {
            assert forall|i: int| 0 <= i < b - 1 implies #[trigger] g.disk_z(z, s, i) != d by {
                if g.disk_z(z, s, i) == d {
                    lemma_hit_t(g, d, z, c, yinv, minv, s, i);
                    lemma_hit_t(g, d, z, c, yinv, minv, s, b - 1);
                    lemma_t_inj(g, d, z, c, yinv, minv, i, b - 1);
                }
            }
            assert(g.rowz(d, z, s, b - 1) == 0);
        }
        assert(g.rowz(d, z, s, b) == g.rowz(d, z, s, b - 1) + if g.disk_z(z, s, b - 1) == d { 1int } else { 0 });
        assert forall|i: int| 0 <= i < b && g.disk_z(z, s, i) == d implies g.rowz(d, z, s, b) == 1 && #[trigger] g.rowz(d, z, s, i) == 0 by {
            if i < b - 1 { assert(g.rowz(d, z, s, i) == 0); }
        }
    }
}
/// Exchange of summation: chunks on disk d in the first s stripes, counting the
/// first kk chunks of each, are the i < kk with T(i) < s.
proof fn lemma_exchange(g: Geo, d: int, z: int, c: int, yinv: int, minv: int, s: int, kk: int)
    requires ctx(g, d, z, c, yinv, minv), 0 <= s <= g.n, 0 <= kk <= g.k
    ensures g.beforez(d, z, s, kk) == g.tc(c, minv, kk, s)
    decreases s
{
    if s == 0 {
        lemma_tc_zero(g, c, minv, kk);
    } else {
        lemma_exchange(g, d, z, c, yinv, minv, s - 1, kk);
        lemma_exchange_step(g, d, z, c, yinv, minv, s - 1, kk);
    }
}
proof fn lemma_tc_zero(g: Geo, c: int, minv: int, kk: int)
    requires g.n > 0
    ensures g.tc(c, minv, kk, 0) == 0
    decreases kk
{
    if kk > 0 {
        lemma_tc_zero(g, c, minv, kk - 1);
        lemma_eqm_rem((c - (kk - 1)) * minv, g.n);
    }
}
proof fn lemma_exchange_step(g: Geo, d: int, z: int, c: int, yinv: int, minv: int, s: int, kk: int)
    requires ctx(g, d, z, c, yinv, minv), 0 <= s < g.n, 0 <= kk <= g.k
    ensures g.tc(c, minv, kk, s + 1) == g.tc(c, minv, kk, s) + g.rowz(d, z, s, kk)
    decreases kk
{
    if kk > 0 {
        lemma_exchange_step(g, d, z, c, yinv, minv, s, kk - 1);
        lemma_hit_t(g, d, z, c, yinv, minv, s, kk - 1);
    }
}
proof fn lemma_tc_full(g: Geo, c: int, minv: int, kk: int)
    requires g.n > 0, kk >= 0
    ensures g.tc(c, minv, kk, g.n) == kk
    decreases kk
{
    if kk > 0 {
        lemma_tc_full(g, c, minv, kk - 1);
        lemma_eqm_rem((c - (kk - 1)) * minv, g.n);
    }
}
proof fn lemma_tc_bounds(g: Geo, c: int, minv: int, kk: int, s: int)
    requires kk >= 0
    ensures 0 <= g.tc(c, minv, kk, s) <= kk
    decreases kk
{
    if kk > 0 { lemma_tc_bounds(g, c, minv, kk - 1, s); }
}
/// if T(i) >= s for some i < kk, the count is less than kk
proof fn lemma_tc_lt(g: Geo, c: int, minv: int, kk: int, s: int, i: int)
    requires 0 <= i < kk, g.t(c, minv, i) >= s
    ensures 0 <= g.tc(c, minv, kk, s) < kk
    decreases kk
{
    lemma_tc_bounds(g, c, minv, kk, s);
    lemma_tc_bounds(g, c, minv, kk - 1, s);
    if i < kk - 1 { lemma_tc_lt(g, c, minv, kk - 1, s, i); }
}
proof fn lemma_tc_split(g: Geo, c: int, minv: int, lo: int, kk: int, s: int)
    requires lo >= 0, kk >= 0
    ensures g.tc(c, minv, lo + kk, s) == g.tc(c, minv, lo, s) + g.tcr(c, minv, lo, kk, s)
    decreases kk
{
    if kk > 0 { lemma_tc_split(g, c, minv, lo, kk - 1, s); }
}

/// #{x < bound : x = c (mod n)}
pub open spec fn xc(c: int, n: int, bound: int) -> int
    decreases bound
{
    if bound <= 0 { 0 } else { xc(c, n, bound - 1) + if eqm(bound - 1, c, n) { 1int } else { 0 } }
}
/// The number of x below X congruent to X + b is (X + b) / n, for 0 <= b < n
proof fn lemma_xc(c: int, n: int, x: int)
    requires n > 0, x >= 0
    ensures xc(c, n, x) == (x + n - 1 - c % n) / n
    decreases x
{
    let c0 = c % n;
    lemma_eqm_rem(c, n);
    if x == 0 {
        lemma_divmod_unique(n - 1 - c0, n, 0, n - 1 - c0);
    } else {
        lemma_xc(c, n, x - 1);
        let w = x - 1 + n - 1 - c0;
        let q = w / n; let r = w % n;
        lemma_fundamental_div_mod(w, n);
        lemma_eqm_rem(w, n);
        assert(w == q * n + r) by { lemma_mul_is_commutative(q, n); }
        // x-1 = c (mod n)  iff  r == n-1
        if eqm(x - 1, c, n) {
            lemma_eqm_trans(x - 1, c, c0, n);
            // x-1-c0 is a multiple of n
            let p = (x - 1 - c0) / n;
            lemma_fundamental_div_mod(x - 1 - c0, n);
            lemma_mul_is_commutative(p, n);
            lemma_divmod_unique(w, n, p, n - 1);
            assert((q + 1) * n == q * n + n) by(nonlinear_arith);
            lemma_divmod_unique(w + 1, n, q + 1, 0);
        } else {
            if r == n - 1 {
                assert(x - 1 - c0 == q * n);
                lemma_mod_multiples_basic(q, n);
                lemma_eqm_sym(c, c0, n);
                assert(eqm(x - 1, c0, n));
                lemma_eqm_trans(x - 1, c0, c, n);
            }
            lemma_divmod_unique(w + 1, n, q, r + 1);
        }
    }
}
proof fn lemma_xc_rows(g: Geo, d: int, z: int, c: int, yinv: int, minv: int, s: int, i: int)
    requires ctx(g, d, z, c, yinv, minv), 0 <= s, 0 <= i <= g.m()
    ensures xc(c, g.n, s * g.m() + i) == g.beforez(d, z, s, g.m()) + g.rowz(d, z, s, i)
    decreases s, i
{
    let m = g.m();
    assert(s * m >= 0) by(nonlinear_arith) requires s >= 0, m > 0;
    if i > 0 {
        lemma_xc_rows(g, d, z, c, yinv, minv, s, i - 1);
        lemma_hit_c(g, d, z, c, yinv, minv, s, i - 1);
    } else if s > 0 {
        lemma_xc_rows(g, d, z, c, yinv, minv, s - 1, m);
        assert((s - 1) * m + m == s * m) by(nonlinear_arith);
    } else {
        assert(s * m == 0) by(nonlinear_arith) requires s == 0;
    }
}
/// The closed form for the data chunks that precede chunk (s, b) on its disk
proof fn lemma_data_closed_form(g: Geo, d: int, z: int, c: int, yinv: int, minv: int, s: int, b: int)
    requires ctx(g, d, z, c, yinv, minv), 0 <= s < g.n, 0 <= b < g.k, g.disk_z(z, s, b) == d
    ensures (s * g.m() + b) / g.n == g.tc(c, minv, g.m(), s)
{
    let n = g.n; let m = g.m(); let x = s * m;
    assert(x >= 0) by(nonlinear_arith) requires s >= 0, m > 0, x == s * m;
    lemma_hit_c(g, d, z, c, yinv, minv, s, b);
    lemma_xc_rows(g, d, z, c, yinv, minv, s, 0);
    lemma_exchange(g, d, z, c, yinv, minv, s, m);
    lemma_xc(c, n, x);
    // x + b = c (mod n) ; c0 = c % n = (x+b) % n
    lemma_eqm_iff(x + b, c, n);
    let q = (x + b) / n; let c0 = (x + b) % n;
    lemma_fundamental_div_mod(x + b, n);
    lemma_mul_is_commutative(q, n);
    assert(x + n - 1 - c0 == q * n + (n - 1 - b));
    lemma_divmod_unique(x + n - 1 - c0, n, q, n - 1 - b);
}

// --- from one iteration to the whole array -----------------------------------
proof fn lemma_stripe_parts(g: Geo, s: int, r: int, z: int, sz: int)
    requires g.ok(), s == r * g.spr() + z * g.n + sz, 0 <= r, 0 <= z < g.n - 1, 0 <= sz < g.n
    ensures g.z_of(s) == z, g.sz_of(s) == sz, s / g.spr() == r, s % g.spr() == z * g.n + sz, s >= 0
{
    let n = g.n;
    assert(0 <= z * n + sz < g.spr()) by(nonlinear_arith)
        requires 0 <= z <= n - 2, 0 <= sz < n, g.spr() == n * (n - 1);
    assert(g.spr() > 0) by(nonlinear_arith) requires n > 1, g.spr() == n * (n - 1);
    lemma_divmod_unique(s, g.spr(), r, z * n + sz);
    lemma_divmod_unique(z * n + sz, n, z, sz);
    assert(r * g.spr() >= 0) by(nonlinear_arith) requires r >= 0, g.spr() > 0;
    assert(z * n >= 0) by(nonlinear_arith) requires z >= 0, n > 0;
}
/// every stripe number decomposes
proof fn lemma_stripe_decompose(g: Geo, s: int) -> (p: (int, int, int))
    requires g.ok(), s >= 0
    ensures s == p.0 * g.spr() + p.1 * g.n + p.2, 0 <= p.0, 0 <= p.1 < g.n - 1, 0 <= p.2 < g.n,
            p.0 == s / g.spr(), p.1 == g.z_of(s), p.2 == g.sz_of(s)
{
    let n = g.n;
    assert(g.spr() > 0) by(nonlinear_arith) requires n > 1, g.spr() == n * (n - 1);
    let r = s / g.spr(); let w = s % g.spr(); let z = w / n; let sz = w % n;
    lemma_fundamental_div_mod(s, g.spr());
    lemma_fundamental_div_mod(w, n);
    lemma_eqm_rem(s, g.spr());
    lemma_eqm_rem(w, n);
    lemma_div_pos_is_pos(s, g.spr());
    lemma_div_pos_is_pos(w, n);
    lemma_mul_is_commutative(r, g.spr());
    lemma_mul_is_commutative(z, n);
    assert(z < n - 1) by(nonlinear_arith) requires w < n * (n - 1), w == z * n + sz, sz >= 0, n > 0;
    (r, z, sz)
}
proof fn lemma_row_eq(g: Geo, d: int, s: int, r: int, z: int, sz: int, b: int)
    requires g.ok(), s == r * g.spr() + z * g.n + sz, 0 <= r, 0 <= z < g.n - 1, 0 <= sz < g.n
    ensures g.row(d, s, b) == g.rowz(d, z, sz, b)
    decreases b
{
    lemma_stripe_parts(g, s, r, z, sz);
    if b > 0 { lemma_row_eq(g, d, s, r, z, sz, b - 1); }
}
/// k inverses exist: every disk of every iteration has a context
proof fn lemma_ctx(g: Geo, d: int, z: int) -> (p: (int, int, int))
    requires g.ok(), 0 <= d < g.n, 0 <= z < g.n - 1
    ensures ctx(g, d, z, p.0, p.1, p.2)
{
    let yinv = lemma_inverse_exists(z + 1, g.n);
    let minv = lemma_inverse_exists(g.m(), g.n);
    (d * yinv, yinv, minv)
}
/// Every iteration puts exactly k chunks on each disk
proof fn lemma_iteration_total(g: Geo, d: int, z: int)
    requires g.ok(), 0 <= d < g.n, 0 <= z < g.n - 1
    ensures g.beforez(d, z, g.n, g.k) == g.k
{
    let (c, yinv, minv) = lemma_ctx(g, d, z);
    lemma_exchange(g, d, z, c, yinv, minv, g.n, g.k);
    lemma_tc_full(g, c, minv, g.k);
}
/// chunks before stripe (r, z, sz) on disk d
proof fn lemma_before(g: Geo, d: int, r: int, z: int, sz: int)
    requires g.ok(), 0 <= d < g.n, 0 <= r, 0 <= z < g.n - 1, 0 <= sz <= g.n
    ensures g.before(d, r * g.spr() + z * g.n + sz)
            == r * g.depth() + z * g.k + g.beforez(d, z, sz, g.k)
    decreases r, z, sz
{
    let n = g.n; let s = r * g.spr() + z * n + sz;
    assert(g.spr() > 0) by(nonlinear_arith) requires n > 1, g.spr() == n * (n - 1);
    assert(r * g.spr() >= 0) by(nonlinear_arith) requires r >= 0, g.spr() > 0;
    assert(z * n >= 0) by(nonlinear_arith) requires z >= 0, n > 0;
    if sz > 0 {
        lemma_before(g, d, r, z, sz - 1);
        lemma_row_eq(g, d, s - 1, r, z, sz - 1, g.k);
    } else if z > 0 {
        lemma_before(g, d, r, z - 1, n);
        lemma_iteration_total(g, d, z - 1);
        assert((z - 1) * n + n == z * n) by(nonlinear_arith);
        assert((z - 1) * g.k + g.k == z * g.k) by(nonlinear_arith);
    } else if r > 0 {
        lemma_before(g, d, r - 1, n - 2, n);
        lemma_iteration_total(g, d, n - 2);
        assert((r - 1) * g.spr() + (n - 2) * n + n == r * g.spr()) by(nonlinear_arith)
            requires g.spr() == n * (n - 1);
        assert((r - 1) * g.depth() + (n - 2) * g.k + g.k == r * g.depth()) by(nonlinear_arith)
            requires g.depth() == g.k * (n - 1);
    } else {
        assert(s == 0) by(nonlinear_arith) requires s == r * g.spr() + z * n + sz, r == 0, z == 0, sz == 0;
        assert(r * g.depth() == 0 && z * g.k == 0) by(nonlinear_arith) requires r == 0, z == 0;
    }
}
/// The slot of a chunk, in terms of its repetition, iteration and the T set
proof fn lemma_offset(g: Geo, r: int, z: int, sz: int, b: int, d: int, c: int, yinv: int, minv: int)
    requires ctx(g, d, z, c, yinv, minv), 0 <= r, 0 <= sz < g.n, 0 <= b < g.k, d == g.disk_z(z, sz, b)
    ensures ({ let s = r * g.spr() + z * g.n + sz;
               &&& g.disk(s, b) == d
               &&& g.offset(s, b) == r * g.depth() + z * g.k + g.tc(c, minv, g.k, sz)
               &&& 0 <= g.tc(c, minv, g.k, sz) < g.k
               &&& s >= 0 })
{
    let s = r * g.spr() + z * g.n + sz;
    lemma_stripe_parts(g, s, r, z, sz);
    lemma_before(g, d, r, z, sz);
    lemma_row_eq(g, d, s, r, z, sz, b);
    lemma_row_le1(g, d, z, c, yinv, minv, sz, b + 1);
    lemma_exchange(g, d, z, c, yinv, minv, sz, g.k);
    lemma_hit_t(g, d, z, c, yinv, minv, sz, b);
    lemma_tc_lt(g, c, minv, g.k, sz, b);
    assert(g.rowz(d, z, sz, b) == 0);
}

// --- inverses mod a prime ------------------------------------------------------
proof fn lemma_prime_no_divisor(p: int, n: int)
    requires prime(n), 1 < p < n
    ensures n % p != 0
{}
/// Bezout by Euclid's algorithm: for coprime a, n
proof fn lemma_bezout(a: int, b: int) -> (w: (int, int, int))
    requires a >= 0, b > 0
    ensures w.0 > 0, w.0 == w.1 * a + w.2 * b, a % w.0 == 0, b % w.0 == 0, w.0 <= b
    decreases a
{
    if a == 0 {
        lemma_mod_self_0(b);
        lemma_small_mod(0, b as nat);
        assert(b == 0 * a + 1 * b) by(nonlinear_arith);
        (b, 0, 1)
    } else {
        // gcd(a, b) = gcd(b % a, a)
        lemma_eqm_rem(b, a);
        let (h, u, v) = lemma_bezout(b % a, a);
        lemma_fundamental_div_mod(b, a);
        let q = b / a;
        // h = u*(b - a*q) + v*a = (v - u*q)*a + u*b
        assert(h == (v - u * q) * a + u * b) by(nonlinear_arith)
            requires h == u * (b % a) + v * a, b == a * q + b % a;
        // h | a and h | b % a  =>  h | b
        let p1 = a / h; let p2 = (b % a) / h;
        lemma_fundamental_div_mod(a, h);
        lemma_fundamental_div_mod(b % a, h);
        assert(b == (p1 * q + p2) * h) by(nonlinear_arith)
            requires a == h * p1 + a % h, a % h == 0, b % a == h * p2 + (b % a) % h, (b % a) % h == 0, b == a * q + b % a;
        lemma_mod_multiples_basic(p1 * q + p2, h);
        lemma_divides_le(h, b);
        (h, v - u * q, u)
    }
}
proof fn lemma_divides_le(h: int, b: int)
    requires h > 0, b > 0, b % h == 0
    ensures h <= b
{
    if h > b { lemma_small_mod(b as nat, h as nat); }
}
proof fn lemma_inverse_exists(a: int, n: int) -> (inv: int)
    requires prime(n), 0 < a < n
    ensures eqm(a * inv, 1, n)
{
    let (h, u, v) = lemma_bezout(a, n);
    lemma_divides_le(h, a);
    if h > 1 { lemma_prime_no_divisor(h, n); }
    assert(h == 1);
    assert(a * u - 1 == (-v) * n) by(nonlinear_arith) requires 1 == u * a + v * n;
    lemma_mod_multiples_basic(-v, n);
    u
}

// --- the property theorems -------------------------------------------------------
pub open spec fn valid_pos(g: Geo, s: int, b: int) -> bool { s >= 0 && 0 <= b < g.k }

/// D02: the chunks of one stripe are on different disks, all of them in the array
pub proof fn theorem_distinct_disks(g: Geo, s: int, b1: int, b2: int)
    requires g.ok(), valid_pos(g, s, b1), valid_pos(g, s, b2), b1 != b2
    ensures g.disk(s, b1) != g.disk(s, b2), 0 <= g.disk(s, b1) < g.n
{
    let (r, z, sz) = lemma_stripe_decompose(g, s);
    let d = g.disk_z(z, sz, b1);
    lemma_eqm_rem((sz * g.m() + b1) * (z + 1), g.n);
    let (c, yinv, minv) = lemma_ctx(g, d, z);
    if g.disk(s, b1) == g.disk(s, b2) {
        lemma_hit_t(g, d, z, c, yinv, minv, sz, b1);
        lemma_hit_t(g, d, z, c, yinv, minv, sz, b2);
        lemma_t_inj(g, d, z, c, yinv, minv, b1, b2);
    }
}
proof fn lemma_row_bounds(g: Geo, d: int, s: int, b: int)
    ensures g.row(d, s, b) >= 0
    decreases b
{ if b > 0 { lemma_row_bounds(g, d, s, b - 1); } }
proof fn lemma_row_mono(g: Geo, d: int, s: int, b1: int, b2: int)
    requires b1 <= b2
    ensures g.row(d, s, b1) <= g.row(d, s, b2)
    decreases b2 - b1
{
    if b1 < b2 { lemma_row_mono(g, d, s, b1, b2 - 1); } 
}
proof fn lemma_before_mono(g: Geo, d: int, s1: int, s2: int)
    requires 0 <= s1 <= s2
    ensures g.before(d, s1) <= g.before(d, s2)
    decreases s2 - s1
{
    if s1 < s2 { lemma_before_mono(g, d, s1, s2 - 1); lemma_row_bounds(g, d, s2 - 1, g.k); }
}
/// D04: on one disk, later chunks have strictly larger slots
pub proof fn theorem_monotone(g: Geo, s1: int, b1: int, s2: int, b2: int)
    requires g.ok(), valid_pos(g, s1, b1), valid_pos(g, s2, b2), g.disk(s1, b1) == g.disk(s2, b2),
             s1 < s2 || (s1 == s2 && b1 < b2)
    ensures g.offset(s1, b1) < g.offset(s2, b2)
{
    let d = g.disk(s1, b1);
    lemma_row_mono(g, d, s1, b1 + 1, g.k);
    lemma_row_bounds(g, d, s2, b2);
    if s1 < s2 { lemma_before_mono(g, d, s1 + 1, s2); }
    else { lemma_row_mono(g, d, s1, b1 + 1, b2); }
}
/// D01: no two chunks share a location
pub proof fn theorem_injective(g: Geo, s1: int, b1: int, s2: int, b2: int)
    requires g.ok(), valid_pos(g, s1, b1), valid_pos(g, s2, b2),
             g.disk(s1, b1) == g.disk(s2, b2), g.offset(s1, b1) == g.offset(s2, b2)
    ensures s1 == s2, b1 == b2
{
    if s1 < s2 || (s1 == s2 && b1 < b2) { theorem_monotone(g, s1, b1, s2, b2); }
    if s2 < s1 || (s1 == s2 && b2 < b1) { theorem_monotone(g, s2, b2, s1, b1); }
}
