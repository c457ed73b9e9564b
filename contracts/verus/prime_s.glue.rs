// ---------------------------------------------------------------------------
// Connects the mathematics in prime_s.lemmas.rs with the data structures of
// prime_s.rs: representation invariants, and the lemmas that the contracts'
// proof hints call.  Nothing here is assumed.
// ---------------------------------------------------------------------------
spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
spec fn geo_of(n: int, k: int, f: int) -> Geo { Geo { n, k, f } }

// --- chunk identities ----------------------------------------------------------
impl ChunkId {
    spec fn addr(self) -> int {
        match self { ChunkId::Data(a) => a as int, ChunkId::Parity(a, _) => a as int }
    }
    spec fn valid(self, g: Geo) -> bool {
        match self { ChunkId::Data(_) => true,
                     ChunkId::Parity(a, i) => a as int % g.m() == 0 && 0 <= i < g.f }
    }
    spec fn stripe(self, g: Geo) -> int { self.addr() / g.m() }
    spec fn pos(self, g: Geo) -> int {
        match self { ChunkId::Data(a) => a as int % g.m(), ChunkId::Parity(_, i) => g.m() + i }
    }
    /// position in the stripe order
    spec fn rank(self, g: Geo) -> int { self.stripe(g) * g.k + self.pos(g) }
    /// the next chunk in stripe order, from the property statement
    spec fn succ(self, g: Geo) -> ChunkId {
        match self {
            ChunkId::Data(a) => if a as int % g.m() < g.m() - 1 { ChunkId::Data((a + 1) as u64) }
                                else { ChunkId::Parity((a - (g.m() - 1)) as u64, 0) },
            ChunkId::Parity(a, i) => if i < g.f - 1 { ChunkId::Parity(a, (i + 1) as i16) }
                                else { ChunkId::Data((a + g.m()) as u64) },
        }
    }
}
spec fn is_loc(g: Geo, id: ChunkId, disk: int, offset: int) -> bool {
    disk == g.disk(id.stripe(g), id.pos(g)) && offset == g.offset(id.stripe(g), id.pos(g))
}
impl Chunkloc {
    spec fn is_loc(self, g: Geo, id: ChunkId) -> bool { is_loc(g, id, self.disk as int, self.offset as int) }
}
impl PrimeS {
    spec fn geo(self) -> Geo { geo_of(self.n as int, self.k as int, self.f as int) }
    spec fn wf(self) -> bool {
        let g = self.geo();
        &&& g.ok() && self.m == g.m() && 0 < self.m_inv < self.n
        &&& eqm(self.m * self.m_inv, 1, g.n)
        &&& self.datachunks == g.datachunks() && self.stripes == g.spr() && self.depth == g.depth()
    }
}
impl ChunklocInt {
    spec fn ok2(self, g: Geo) -> bool {
        &&& 0 <= self.s < g.spr() && self.z == self.s as int / g.n && self.y == self.z + 1
        &&& 0 <= self.z < g.n - 1
    }
    spec fn ok(self, g: Geo, addr: int) -> bool {
        &&& self.ok2(g)
        &&& self.a == addr % g.datachunks() && self.r == addr / g.datachunks()
        &&& self.s == self.a as int / g.m()
    }
}
spec fn tset(g: Geo, c: int, minv: int, kk: int) -> Set<int>
    decreases kk
{
    if kk <= 0 { Set::empty() } else { tset(g, c, minv, kk - 1).insert(g.t(c, minv, kk - 1)) }
}
/// chunks on disk d counted by PrimeSIter::new's outer loop before round s
spec fn iter_cnt(g: Geo, d: int, z: int, s: int, s_z: int, b: int) -> int {
    if s <= s_z { g.beforez(d, z, s, g.k) } else { g.beforez(d, z, s_z, g.k) + g.rowz(d, z, s_z, b) }
}
impl PrimeSIter {
    spec fn geo(self) -> Geo { geo_of(self.n as int, self.m + self.f, self.f as int) }
    spec fn wf(self) -> bool {
        let g = self.geo();
        let s = self.id.stripe(g);
        &&& g.ok() && self.m == g.m() && self.depth == g.depth()
        &&& self.id.valid(g) && self.end.valid(g)
        &&& self.r == s / g.spr() && self.stripe == s % g.spr()
        &&& self.z == g.z_of(s) && self.stripe_iter == g.sz_of(s) && self.y == self.z + 1
        &&& self.a == self.stripe * g.m() + (if self.id is Data { self.id.pos(g) } else { 0 })
        &&& self.o@.len() == self.n
        &&& forall|d: int| 0 <= d < self.n ==> #[trigger] self.o@[d] ==
                self.z * g.k + g.beforez(d, self.z as int, self.stripe_iter as int, g.k)
                + g.rowz(d, self.z as int, self.stripe_iter as int, self.id.pos(g))
    }
}

// --- primality -------------------------------------------------------------------
spec fn no_divisor_below(n: int, i: int) -> bool { forall|d: int| 1 < d < i ==> #[trigger] (n % d) != 0 }
proof fn lemma_prime_small(n: int)
    ensures n <= 1 ==> !prime(n), (n == 2 || n == 3) ==> prime(n),
            (n > 3 && n % 2 == 0) ==> !prime(n), (n > 3 && n % 3 == 0) ==> !prime(n)
{
    if n == 3 { assert(3int % 2 != 0); assert forall|d: int| 1 < d < 3 implies #[trigger] (n % d) != 0 by { assert(d == 2); } }
    if n == 2 { assert forall|d: int| 1 < d < 2 implies #[trigger] (n % d) != 0 by {} }
    if n > 3 && n % 2 == 0 && prime(n) { assert(1 < 2 < n); assert(n % 2 != 0); }
    if n > 3 && n % 3 == 0 && prime(n) { assert(1 < 3 < n); assert(n % 3 != 0); }
}
proof fn lemma_prime_init(n: int)
    requires n % 2 != 0, n % 3 != 0
    ensures no_divisor_below(n, 5)
{
    assert forall|d: int| 1 < d < 5 implies #[trigger] (n % d) != 0 by {
        if d == 4 { if n % 4 == 0 { lemma_fundamental_div_mod(n, 4); assert(n == 2 * (2 * (n / 4))); } }
        else if d == 2 { assert(n % 2 != 0); } else { assert(d == 3); }
    }
}
/// d divides n and e divides d: e divides n
proof fn lemma_divides_trans(n: int, d: int, e: int)
    requires d > 0, e > 0, n % d == 0, d % e == 0
    ensures n % e == 0
{
    lemma_fundamental_div_mod(n, d);
    lemma_fundamental_div_mod(d, e);
    assert(n == (d / e * (n / d)) * e) by(nonlinear_arith) requires n == d * (n / d), d == e * (d / e);
    lemma_mod_multiples_basic(d / e * (n / d), e);
}
proof fn lemma_prime_step(n: int, i: int)
    requires n > 3, n % 2 != 0, n % 3 != 0, i >= 5, i % 6 == 5, no_divisor_below(n, i), i * i <= n
    ensures i + 2 < n, (n % i == 0 || n % (i + 2) == 0) ==> !prime(n),
            !(n % i == 0 || n % (i + 2) == 0) ==> no_divisor_below(n, i + 6),
            (i + 6) % 6 == 5
{
    assert(i + 2 < n) by(nonlinear_arith) requires i * i <= n, i >= 5;
    if n % i == 0 || n % (i + 2) == 0 {
        if prime(n) { assert(1 < i < n); assert(1 < i + 2 < n); assert(n % i != 0); assert(n % (i + 2) != 0); }
    } else {
        assert forall|d: int| 1 < d < i + 6 implies #[trigger] (n % d) != 0 by {
            if d >= i && n % d == 0 {
                if d == i + 1 { assert(d % 2 == 0); lemma_divides_trans(n, d, 2); }
                if d == i + 3 { assert(d % 2 == 0); lemma_divides_trans(n, d, 2); }
                if d == i + 4 { assert(d % 3 == 0); lemma_divides_trans(n, d, 3); }
                if d == i + 5 { assert(d % 2 == 0); lemma_divides_trans(n, d, 2); }
            }
        }
    }
}
proof fn lemma_prime_sqrt(n: int, i: int)
    requires n > 3, i >= 5, no_divisor_below(n, i), i * i > n
    ensures prime(n)
{
    assert forall|d: int| 1 < d < n implies #[trigger] (n % d) != 0 by {
        if n % d == 0 {
            let e = n / d;
            lemma_fundamental_div_mod(n, d);
            assert(n == d * e);
            assert(e > 1) by(nonlinear_arith) requires n == d * e, 1 < d < n, n > 3;
            assert(e < n) by(nonlinear_arith) requires n == d * e, 1 < d, n > 3, e > 1;
            if d < i { assert(n % d != 0); }
            else {
                assert(e < i) by(nonlinear_arith) requires n == d * e, d >= i, i * i > n, i >= 5, e > 1;
                lemma_mul_is_commutative(d, e);
                lemma_mod_multiples_basic(d, e);
                assert(n % e != 0);
            }
        }
    }
}
/// trial divisors stay far below the i16 range
proof fn lemma_trial_bound(n: int, i: int)
    requires i >= 5, i * i <= n, n <= 32000, i % 6 == 5
    ensures i <= 173, (i + 6) * (i + 6) <= 32041
{
    assert(i <= 178) by(nonlinear_arith) requires i * i <= 32000, i >= 5;
    assert(i <= 173);
    assert((i + 6) * (i + 6) <= 32041) by(nonlinear_arith) requires 0 <= i <= 173;
}

// --- extended Euclid -----------------------------------------------------------
proof fn lemma_invmod_init(a: int, n: int)
    requires 0 < a < n
    ensures eqm(a * 1, a, n), eqm(a * 0, n, n)
{
    lemma_eqm_refl(a, n);
    lemma_mod_multiples_basic(-1, n);
    assert(a * 0 - n == (-1) * n) by(nonlinear_arith);
    assert(a * 1 == a);
}
spec fn inv_inv(a: int, n: int, t: int, newt: int, r: int, newr: int) -> bool {
    &&& 0 <= newr < r <= n
    &&& eqm(a * newt, newr, n) && eqm(a * t, r, n)
    &&& iabs(t) * newr + iabs(newt) * r == n
    &&& t * newt <= 0 && -n <= t <= n
    &&& newt != 0 && (t == 0 ==> r == n)
    &&& exists|u: int, v: int| #[trigger] lincomb(u, v, r, newr) == a
    &&& exists|u: int, v: int| #[trigger] lincomb(u, v, r, newr) == n
}
spec fn lincomb(u: int, v: int, r: int, newr: int) -> int { u * r + v * newr }
proof fn lemma_inv_start(a: int, n: int)
    requires 0 < a < n
    ensures inv_inv(a, n, 0, 1, n, a)
{
    lemma_invmod_init(a, n);
    assert(lincomb(0, 1, n, a) == a);
    assert(lincomb(1, 0, n, a) == n);
}
proof fn lemma_inv_bounds(a: int, n: int, t: int, newt: int, r: int, newr: int)
    requires inv_inv(a, n, t, newt, r, newr), 0 < a < n
    ensures -n <= newt <= n, newr > 0 ==> -n < t < n
{
    let x = iabs(t); let y = iabs(newt);
    assert(y <= n) by(nonlinear_arith) requires x * newr + y * r == n, r >= 1, x >= 0, y >= 0, newr >= 0;
    if newr > 0 {
        assert(x < n) by(nonlinear_arith) requires x * newr + y * r == n, r >= 1, x >= 0, y >= 1, newr >= 1;
    }
}
proof fn lemma_invmod_step(a: int, n: int, t: int, newt: int, r: int, newr: int)
    requires inv_inv(a, n, t, newt, r, newr), 0 < a < n, newr > 0
    ensures ({ let q = r / newr;
        &&& 0 < q <= n && q == r / newr
        &&& -n <= newt <= n && -n <= newt * q <= n && -n <= t - newt * q <= n
        &&& 0 <= newr * q <= r && r - newr * q == r % newr && 0 <= r % newr < newr
        &&& inv_inv(a, n, newt, t - newt * q, newr, r - newr * q) })
{
    let q = r / newr;
    lemma_fundamental_div_mod(r, newr);
    lemma_eqm_rem(r, newr);
    let nr = r % newr;
    assert(r == newr * q + nr);
    assert(0 < q <= r) by(nonlinear_arith) requires r == newr * q + nr, newr < r, 0 <= nr < newr, newr > 0;
    let x = iabs(t); let y = iabs(newt);
    let nt = t - newt * q;
    // signs: t and -newt*q have the same sign, so |nt| = x + y*q
    assert(iabs(nt) == x + y * q) by(nonlinear_arith)
        requires t * newt <= 0, x == iabs(t), y == iabs(newt), nt == t - newt * q, q > 0, newt != 0;
    assert(y * newr + (x + y * q) * newr == y * newr + (x * newr + y * (newr * q))) by(nonlinear_arith);
    assert(y * nr + (x + y * q) * newr == n) by(nonlinear_arith)
        requires x * newr + y * r == n, r == newr * q + nr;
    lemma_inv_bounds(a, n, t, newt, r, newr);
    assert(x + y * q <= n && y * q <= n) by(nonlinear_arith)
        requires y * nr + (x + y * q) * newr == n, newr >= 1, y >= 0, nr >= 0, x >= 0, q > 0;
    assert(-n <= newt * q <= n) by(nonlinear_arith) requires y * q <= n, y == iabs(newt), q > 0;
    assert(newt * nt <= 0) by(nonlinear_arith)
        requires t * newt <= 0, nt == t - newt * q, q > 0;
    // congruences
    lemma_eqm_mul(a * newt, newr, q, n);
    assert(a * newt * q == a * (newt * q)) by(nonlinear_arith);
    lemma_eqm_add(a * t, r, a * newt * q, newr * q, n);
    assert(a * nt == a * t - a * (newt * q)) by(nonlinear_arith) requires nt == t - newt * q;
    assert(nt != 0) by {
        assert(x + y * q > 0) by(nonlinear_arith) requires x >= 0, y >= 1, q >= 1;
    }
    // r and newr are still combinations of the new pair
    let (u, v) = choose|u: int, v: int| #[trigger] lincomb(u, v, r, newr) == a;
    assert(lincomb(u * q + v, u, newr, nr) == a) by(nonlinear_arith)
        requires lincomb(u, v, r, newr) == u * r + v * newr, lincomb(u, v, r, newr) == a, r == newr * q + nr,
                 lincomb(u * q + v, u, newr, nr) == (u * q + v) * newr + u * nr;
    let (u2, v2) = choose|u: int, v: int| #[trigger] lincomb(u, v, r, newr) == n;
    assert(lincomb(u2 * q + v2, u2, newr, nr) == n) by(nonlinear_arith)
        requires lincomb(u2, v2, r, newr) == u2 * r + v2 * newr, lincomb(u2, v2, r, newr) == n, r == newr * q + nr,
                 lincomb(u2 * q + v2, u2, newr, nr) == (u2 * q + v2) * newr + u2 * nr;
}
proof fn lemma_invmod_end(a: int, n: int, t: int, newt: int, r: int, newr: int)
    requires prime(n), 0 < a < n, inv_inv(a, n, t, newt, r, newr), newr == 0
    ensures r == 1, eqm(a * t, 1, n), -n < t < n, t != 0,
            t < 0 ==> eqm(a * (t + n), 1, n)
{
    let (u, v) = choose|u: int, v: int| #[trigger] lincomb(u, v, r, newr) == a;
    assert(a == u * r) by(nonlinear_arith) requires a == u * r + v * newr, newr == 0;
    let (u2, v2) = choose|u: int, v: int| #[trigger] lincomb(u, v, r, newr) == n;
    assert(n == u2 * r) by(nonlinear_arith) requires n == u2 * r + v2 * newr, newr == 0;
    lemma_mod_multiples_basic(u, r);
    lemma_mod_multiples_basic(u2, r);
    lemma_divides_le(r, a);
    if r > 1 { lemma_prime_no_divisor(r, n); }
    assert(r == 1);
    lemma_inv_bounds(a, n, t, newt, r, newr);
    // t = +-n would make a*t = 0 mod n; so would t = 0
    if t == n || t == -n || t == 0 {
        let w = if t == n { 1int } else if t == 0 { 0int } else { -1int };
        assert(a * t == (a * w) * n) by(nonlinear_arith) requires t == w * n;
        lemma_mod_multiples_basic(a * w, n);
        assert(eqm(a * t, 0, n));
        lemma_eqm_sym(a * t, 0, n);
        lemma_eqm_trans(0, a * t, 1, n);
        lemma_eqm_small(0, 1, n);
    }
    assert(a * (t + n) == a * t + a * n) by(nonlinear_arith);
    lemma_eqm_multiple(a * t, a, n);
    lemma_eqm_trans(a * t + a * n, a * t, 1, n);
}

// --- geometry bounds -------------------------------------------------------------
proof fn lemma_geo_bounds(g: Geo)
    requires g.ok()
    ensures 0 < g.m() < g.n, 0 < g.spr() <= 46010, 0 < g.depth() <= 46010,
            0 < g.datachunks() <= 9_846_140, g.datachunks() == g.spr() * g.m(), g.depth() <= g.datachunks(),
            0 < g.m() * g.n <= 46010, g.datachunks() == (g.m() * g.n) * (g.n - 1),
            g.n >= 2, g.datachunks() <= 215 * g.depth()
{
    let n = g.n; let m = g.m(); let k = g.k;
    assert(0 < n * (n - 1) <= 46010) by(nonlinear_arith) requires 1 < n <= 215;
    assert(0 < k * (n - 1) <= n * (n - 1)) by(nonlinear_arith) requires 1 < k <= n;
    assert(0 < n * (n - 1) * m <= 9_846_140) by(nonlinear_arith) requires 0 < n * (n - 1) <= 46010, 0 < m <= 214;
    assert(0 < m * n <= 46010) by(nonlinear_arith) requires 0 < m <= n - 1, n <= 215;
    assert(n * (n - 1) * m == (m * n) * (n - 1)) by(nonlinear_arith);
    assert(k * (n - 1) <= n * (n - 1) * m) by(nonlinear_arith) requires k <= n, m >= 1, n > 1;
    assert(n * (n - 1) * m <= 215 * (k * (n - 1))) by(nonlinear_arith) requires m <= k, n <= 215, n > 1, m > 0, k > 0;
}
proof fn lemma_new(n: int, k: int, f: int)
    requires geo_of(n, k, f).ok()
    ensures ({ let g = geo_of(n, k, f);
        &&& 0 < g.m() < g.n && 0 < g.spr() <= 46010 && 0 < g.depth() <= 46010 && 0 < g.datachunks() <= 9_846_140
        &&& g.datachunks() == g.spr() * g.m() && g.m() == k - f && g.depth() == k * (n - 1) && g.spr() == n * (n - 1) })
{ lemma_geo_bounds(geo_of(n, k, f)); }
proof fn lemma_rep_iter(g: Geo, addr: int)
    requires g.ok(), addr >= 0
    ensures ({ let dc = g.datachunks(); let a = addr % dc; let s = a / g.m(); let z = a / (g.m() * g.n);
        &&& 0 < dc <= 9_846_140 && 0 <= a < dc && 0 < g.m() < g.n && 0 < g.m() * g.n <= 46010 && addr / dc >= 0
        &&& 0 <= s < g.spr() && s / g.n == z && 0 <= z < g.n - 1 && z % (g.n - 1) == z
        &&& addr / g.m() == (addr / dc) * g.spr() + s && addr % g.m() == a % g.m()
        &&& a == s * g.m() + a % g.m() && 0 <= a % g.m() < g.m()
        &&& (addr / dc) * g.depth() <= addr && 0 <= (addr / dc) * g.depth() })
{
    lemma_geo_bounds(g);
    let n = g.n; let m = g.m(); let dc = g.datachunks(); let a = addr % dc; let s = a / m; let r = addr / dc;
    lemma_eqm_rem(addr, dc);
    lemma_fundamental_div_mod(addr, dc);
    lemma_div_pos_is_pos(addr, dc);
    lemma_eqm_rem(a, m);
    lemma_fundamental_div_mod(a, m);
    lemma_div_pos_is_pos(a, m);
    lemma_mul_is_commutative(m, s);
    lemma_div_denominator(a, m, n);
    let z = a / (m * n);
    lemma_div_pos_is_pos(a, m * n);
    lemma_fundamental_div_mod(a, m * n);
    lemma_eqm_rem(a, m * n);
    assert(z < n - 1) by(nonlinear_arith) requires a == (m * n) * z + a % (m * n), a % (m * n) >= 0, a < (m * n) * (n - 1), m * n > 0;
    assert(s < g.spr()) by(nonlinear_arith) requires a == s * m + a % m, a % m >= 0, a < g.spr() * m, m > 0;
    if n > 2 { lemma_small_mod(z as nat, (n - 1) as nat); } 
    else { assert(z == 0); lemma_small_mod(0, 1); }
    assert(addr == (r * g.spr() + s) * m + a % m) by(nonlinear_arith)
        requires addr == dc * r + a, dc == g.spr() * m, a == s * m + a % m;
    lemma_divmod_unique(addr, m, r * g.spr() + s, a % m);
    assert(r * g.depth() <= dc * r) by(nonlinear_arith) requires r >= 0, g.depth() <= dc;
    assert(0 <= r * g.depth()) by(nonlinear_arith) requires r >= 0, g.depth() > 0;
}
/// stripe-in-repetition to iteration
proof fn lemma_s_parts(g: Geo, s: int)
    requires g.ok(), 0 <= s < g.spr()
    ensures s == (s / g.n) * g.n + s % g.n, 0 <= s % g.n < g.n, 0 <= s / g.n < g.n - 1
{
    let n = g.n;
    lemma_fundamental_div_mod(s, n);
    lemma_eqm_rem(s, n);
    lemma_div_pos_is_pos(s, n);
    lemma_mul_is_commutative(n, s / n);
    let z = s / n;
    assert(z < n - 1) by(nonlinear_arith) requires s == z * n + s % n, s % n >= 0, s < n * (n - 1), n > 0;
}
/// the disk formula depends only on the stripe within the iteration
proof fn lemma_disk_mod(g: Geo, s: int, b: int, y: int)
    requires g.ok(), 0 <= s < g.spr(), 0 <= b < g.k, 0 < y < g.n
    ensures ((s * g.m() + b) * y) % g.n == ((s % g.n * g.m() + b) * y) % g.n,
            0 <= ((s * g.m() + b) * y) % g.n < g.n,
            0 <= s * g.m() + b <= 9_846_400, 0 <= (s * g.m() + b) * y <= 2_107_200_000,
            0 <= s * g.m()
{
    lemma_geo_bounds(g);
    let n = g.n; let m = g.m(); let sz = s % n; let z = s / n;
    lemma_s_parts(g, s);
    assert((s * m + b) * y == (sz * m + b) * y + (z * m * y) * n) by(nonlinear_arith) requires s == z * n + sz;
    lemma_eqm_multiple((sz * m + b) * y, z * m * y, n);
    lemma_eqm_iff((s * m + b) * y, (sz * m + b) * y, n);
    lemma_eqm_rem((s * m + b) * y, n);
    assert(0 <= s * m <= 46010 * 214) by(nonlinear_arith) requires 0 <= s < 46010, 0 < m <= 214;
    let w = s * m + b;
    assert(0 <= w * y <= 2_107_200_000) by(nonlinear_arith) requires 0 <= w <= 9_846_400, 0 < y <= 214;
}

// --- offset_within_iteration -------------------------------------------------------
proof fn lemma_owi(g: Geo, d: int, z: int, s: int, b: int, yinv: int, minv: int)
    requires g.ok(), 0 <= s < g.spr(), z == s / g.n, 0 <= b < g.k, d == g.disk_z(z, s % g.n, b),
             eqm((z + 1) * yinv, 1, g.n), eqm(g.m() * minv, 1, g.n), 0 < yinv < g.n, 0 < minv < g.n
    ensures ({ let c = d * yinv; let sz = s % g.n;
        &&& ctx(g, d, z, c, yinv, minv)
        &&& 0 <= s * g.m() && s * g.m() + b <= 9_846_400
        &&& (s * g.m() + b) / g.n == z * g.m() + g.tc(c, minv, g.m(), sz)
        &&& g.beforez(d, z, sz, g.k) == g.tc(c, minv, g.m(), sz) + g.tcr(c, minv, g.m(), g.f, sz)
        &&& 0 <= g.beforez(d, z, sz, g.k) < g.k
        &&& 0 <= g.tc(c, minv, g.m(), sz) <= g.m()
        &&& g.f * z + z * g.m() == z * g.k && 0 <= g.f * z <= 46010 && 0 <= z * g.k <= 46010 && 0 <= z * g.m()
        &&& 0 <= d * yinv <= 46010 })
{
    lemma_geo_bounds(g);
    lemma_s_parts(g, s);
    let n = g.n; let m = g.m(); let sz = s % n; let c = d * yinv;
    lemma_eqm_rem((sz * m + b) * (z + 1), n);
    lemma_disk_mod(g, s, b, 1);
    assert(ctx(g, d, z, c, yinv, minv));
    lemma_data_closed_form(g, d, z, c, yinv, minv, sz, b);
    lemma_exchange(g, d, z, c, yinv, minv, sz, g.k);
    lemma_tc_split(g, c, minv, m, g.f, sz);
    lemma_hit_t(g, d, z, c, yinv, minv, sz, b);
    lemma_tc_lt(g, c, minv, g.k, sz, b);
    lemma_tc_bounds(g, c, minv, m, sz);
    let q = (sz * m + b) / n;
    let x = (sz * m + b) % n;
    lemma_fundamental_div_mod(sz * m + b, n);
    lemma_eqm_rem(sz * m + b, n);
    assert(s * m + b == (z * m + q) * n + x) by(nonlinear_arith) requires s == z * n + sz, sz * m + b == n * q + x;
    lemma_divmod_unique(s * m + b, n, z * m + q, x);
    assert(g.f * z + z * m == z * g.k) by(nonlinear_arith) requires m == g.k - g.f;
    assert(0 <= g.f * z && 0 <= z * m && g.f * z <= z * g.k) by(nonlinear_arith) requires z >= 0, m > 0, 0 < g.f <= g.k;
    assert(z * g.k <= 46010) by(nonlinear_arith) requires 0 <= z <= 213, 0 < g.k <= 215;
    assert(0 <= d * yinv <= 46010) by(nonlinear_arith) requires 0 <= d <= 214, 0 < yinv <= 214;
}
proof fn lemma_owi_step(g: Geo, d: int, yinv: int, minv: int, j: int)
    requires g.ok(), 0 <= d < g.n, 0 < yinv < g.n, 0 < minv < g.n, eqm(g.m() * minv, 1, g.n), 0 <= j < g.f
    ensures 0 <= d * yinv <= 46010, -46010 <= d * yinv - j <= 46010,
            -9_900_000 <= (d * yinv - j) * minv <= 9_900_000,
            ((d * yinv - j) * minv - 1) % g.n == g.t(d * yinv, minv, g.m() + j),
            0 <= g.t(d * yinv, minv, g.m() + j) < g.n
{
    let n = g.n; let m = g.m(); let c = d * yinv;
    assert(0 <= d * yinv <= 46010) by(nonlinear_arith) requires 0 <= d <= 214, 0 < yinv <= 214;
    let w = c - j;
    assert(-9_900_000 <= w * minv <= 9_900_000) by(nonlinear_arith) requires -46010 <= w <= 46010, 0 < minv <= 214;
    assert((c - (m + j)) * minv == w * minv - m * minv) by(nonlinear_arith) requires w == c - j;
    lemma_eqm_refl(w * minv, n);
    lemma_eqm_add(w * minv, w * minv, m * minv, 1, n);
    lemma_eqm_iff(w * minv - m * minv, w * minv - 1, n);
    lemma_eqm_rem((c - (m + j)) * minv, n);
}

// --- id2loc ------------------------------------------------------------------------
proof fn lemma_id2loc_pre(g: Geo, id: ChunkId, cli: ChunklocInt)
    requires g.ok(), id.valid(g), cli.ok(g, id.addr())
    ensures id.stripe(g) == cli.r * g.spr() + cli.s,
            g.z_of(id.stripe(g)) == cli.z, g.sz_of(id.stripe(g)) == cli.s as int % g.n,
            id.stripe(g) / g.spr() == cli.r, id.stripe(g) % g.spr() == cli.s,
            0 <= id.pos(g) < g.k,
            id is Data ==> id.pos(g) == cli.a as int % g.m(),
            cli.a == cli.s * g.m() + cli.a as int % g.m(),
            id is Parity ==> cli.a as int == cli.s * g.m(),
            0 <= cli.a < 10_000_000, 0 < g.m() < 215,
            0 <= cli.r * g.depth() <= id.addr()
{
    lemma_geo_bounds(g);
    lemma_rep_iter(g, id.addr());
    lemma_s_parts(g, cli.s as int);
    lemma_eqm_rem(id.addr(), g.m());
    lemma_stripe_parts(g, id.stripe(g), cli.r as int, cli.z as int, cli.s as int % g.n);
}
proof fn lemma_id2loc_disk(g: Geo, id: ChunkId, cli: ChunklocInt, b: int)
    requires g.ok(), id.valid(g), cli.ok(g, id.addr()), b == id.pos(g)
    ensures 0 <= cli.s * g.m() + b <= 9_846_400, 0 <= (cli.s * g.m() + b) * cli.y <= 2_107_200_000, 0 <= cli.s * g.m(),
            ((cli.s * g.m() + b) * cli.y) % g.n == g.disk_z(cli.z as int, cli.s as int % g.n, b),
            0 <= g.disk_z(cli.z as int, cli.s as int % g.n, b) < g.n,
            g.disk(id.stripe(g), b) == g.disk_z(cli.z as int, cli.s as int % g.n, b)
{
    lemma_id2loc_pre(g, id, cli);
    lemma_disk_mod(g, cli.s as int, b, cli.y as int);
}
proof fn lemma_id2loc(g: Geo, id: ChunkId, cli: ChunklocInt, b: int, d: int)
    requires g.ok(), id.valid(g), cli.ok(g, id.addr()), b == id.pos(g), d == g.disk_z(cli.z as int, cli.s as int % g.n, b)
    ensures g.offset(id.stripe(g), b) == cli.r * g.depth() + cli.z * g.k + g.beforez(d, cli.z as int, cli.s as int % g.n, g.k),
            cli.z * g.k + g.k <= 50_000
{
    lemma_id2loc_disk(g, id, cli, b);
    lemma_id2loc_pre(g, id, cli);
    lemma_s_parts(g, cli.s as int);
    let z = cli.z as int; let sz = cli.s as int % g.n;
    let (c, yinv, minv) = lemma_ctx(g, d, z);
    lemma_offset(g, cli.r as int, z, sz, b, d, c, yinv, minv);
    lemma_exchange(g, d, z, c, yinv, minv, sz, g.k);
    assert(z * g.k + g.k <= 50_000) by(nonlinear_arith) requires 0 <= z <= 213, 0 < g.k <= 215;
}

// --- loc2id -------------------------------------------------------------------------
proof fn lemma_loc2id_pre(g: Geo, off: int)
    requires g.ok(), off >= 0
    ensures ({ let o = off % g.depth(); let z = o / g.k;
        &&& 0 < g.depth() <= 46010 && 0 <= o < g.depth() && 0 <= z < g.n - 1 && z % (g.n - 1) == z
        &&& 0 <= g.k * z <= o && 0 <= o - g.k * z < g.k && off / g.depth() >= 0
        &&& off == (off / g.depth()) * g.depth() + o })
{
    lemma_geo_bounds(g);
    let n = g.n; let k = g.k;
    lemma_eqm_rem(off, g.depth());
    lemma_fundamental_div_mod(off, g.depth());
    lemma_div_pos_is_pos(off, g.depth());
    lemma_mul_is_commutative(g.depth(), off / g.depth());
    let o = off % g.depth();
    lemma_fundamental_div_mod(o, k);
    lemma_eqm_rem(o, k);
    lemma_div_pos_is_pos(o, k);
    let z = o / k;
    assert(z < n - 1) by(nonlinear_arith) requires o == k * z + o % k, o % k >= 0, o < k * (n - 1), k > 0;
    assert(0 <= k * z) by(nonlinear_arith) requires z >= 0, k > 0;
    if n > 2 { lemma_small_mod(z as nat, (n - 1) as nat); } else { lemma_small_mod(0, 1); }
}
proof fn lemma_loc2id_step(g: Geo, d: int, yinv: int, minv: int, i: int)
    requires g.ok(), 0 <= d < g.n, 0 < yinv < g.n, 0 < minv < g.n, 0 <= i < g.k
    ensures 0 <= d * yinv <= 46010, -9_900_000 <= (d * yinv - i) * minv <= 9_900_000,
            0 <= ((d * yinv - i) * minv) % g.n < g.n,
            ((d * yinv - i) * minv) % g.n == g.t(d * yinv, minv, i)
{
    let c = d * yinv; let w = c - i;
    assert(0 <= d * yinv <= 46010) by(nonlinear_arith) requires 0 <= d <= 214, 0 < yinv <= 214;
    assert(-9_900_000 <= w * minv <= 9_900_000) by(nonlinear_arith) requires -46010 <= w <= 46010, 0 < minv <= 214;
    lemma_eqm_rem(w * minv, g.n);
}
proof fn lemma_tset(g: Geo, d: int, z: int, c: int, yinv: int, minv: int, kk: int, s: int)
    requires ctx(g, d, z, c, yinv, minv), 0 <= kk <= g.k
    ensures tset(g, c, minv, kk).len() == kk,
            tset(g, c, minv, kk).filter(|x: int| x < s).len() == g.tc(c, minv, kk, s),
            forall|x: int| #[trigger] tset(g, c, minv, kk).contains(x) <==> (exists|i: int| 0 <= i < kk && #[trigger] g.t(c, minv, i) == x)
    decreases kk
{
    let p = |x: int| x < s;
    if kk > 0 {
        lemma_tset(g, d, z, c, yinv, minv, kk - 1, s);
        let a = tset(g, c, minv, kk - 1);
        let t = g.t(c, minv, kk - 1);
        if a.contains(t) {
            let i = choose|i: int| 0 <= i < kk - 1 && #[trigger] g.t(c, minv, i) == t;
            lemma_t_inj(g, d, z, c, yinv, minv, i, kk - 1);
        }
        if t < s { assert(a.insert(t).filter(p) =~= a.filter(p).insert(t)); }
        else { assert(a.insert(t).filter(p) =~= a.filter(p)); }
        assert forall|x: int| #[trigger] tset(g, c, minv, kk).contains(x) implies (exists|i: int| 0 <= i < kk && #[trigger] g.t(c, minv, i) == x) by {
            if x == t { assert(g.t(c, minv, kk - 1) == x); }
            else { let i = choose|i: int| 0 <= i < kk - 1 && #[trigger] g.t(c, minv, i) == x; assert(g.t(c, minv, i) == x); }
        }
    } else {
        assert(tset(g, c, minv, kk).filter(p) =~= Set::<int>::empty());
    }
}
proof fn lemma_loc2id_nth(g: Geo, d: int, z: int, yinv: int, minv: int)
    requires ctx(g, d, z, d * yinv, yinv, minv)
    ensures tset(g, d * yinv, minv, g.k).len() == g.k, 0 <= g.n * z <= 46010,
            forall|x: int| #[trigger] tset(g, d * yinv, minv, g.k).contains(x) ==> 0 <= x < g.n
{
    let c = d * yinv;
    assert(0 <= g.n * z <= 46010) by(nonlinear_arith) requires 0 <= z <= 213, 0 < g.n <= 215;
    lemma_tset(g, d, z, c, yinv, minv, g.k, 0);
    assert forall|x: int| #[trigger] tset(g, c, minv, g.k).contains(x) implies 0 <= x < g.n by {
        let i = choose|i: int| 0 <= i < g.k && #[trigger] g.t(c, minv, i) == x;
        lemma_eqm_rem((c - i) * minv, g.n);
    }
}
proof fn lemma_loc2id_s(g: Geo, d: int, z: int, yinv: int, minv: int, j: int, s: int, r: int, off: int)
    requires ctx(g, d, z, d * yinv, yinv, minv), 0 <= r, 0 < yinv < g.n,
             tset(g, d * yinv, minv, g.k).contains(s - g.n * z),
             tset(g, d * yinv, minv, g.k).filter(|x: int| x < s - g.n * z).len() == j,
             off == r * g.depth() + g.k * z + j, off < 0x10_0000_0000_0000
    ensures ({ let bb = (d * yinv - s * g.m()) % g.n; let st = r * g.spr() + s; let m = g.m();
        &&& 0 <= s < g.spr() && 0 <= bb < g.k && st >= 0
        &&& g.disk(st, bb) == d && g.offset(st, bb) == off
        &&& 0 <= d * yinv <= 46010 && 0 <= s * m <= 9_846_140
        &&& r * g.datachunks() + s * m == st * m && 0 <= st * m <= 0xf00_0000_0000_0000
        &&& 0 <= r * g.datachunks() 
        &&& (st * m) / m == st && (st * m) % m == 0
        &&& (bb < m ==> (st * m + bb) / m == st && (st * m + bb) % m == bb) })
{
    lemma_geo_bounds(g);
    let c = d * yinv; let n = g.n; let m = g.m(); let sz = s - n * z;
    lemma_tset(g, d, z, c, yinv, minv, g.k, sz);
    let i = choose|i: int| 0 <= i < g.k && #[trigger] g.t(c, minv, i) == sz;
    lemma_hit_t(g, d, z, c, yinv, minv, sz, i);
    lemma_eqm_rem((c - i) * minv, n);
    lemma_hit_c(g, d, z, c, yinv, minv, sz, i);
    // i == (c - s*m) % n
    lemma_eqm_sym(sz * m + i, c, n);
    lemma_eqm_refl(s * m, n);
    assert(s * m == sz * m + (z * m) * n) by(nonlinear_arith) requires sz == s - n * z;
    lemma_eqm_multiple(sz * m, z * m, n);
    lemma_eqm_add(c, sz * m + i, s * m, sz * m, n);
    let bb = (c - s * m) % n;
    lemma_eqm_rem(c - s * m, n);
    lemma_eqm_trans(bb, c - s * m, i, n);
    lemma_eqm_small(bb, i, n);
    lemma_offset(g, r, z, sz, i, d, c, yinv, minv);
    let st = r * g.spr() + s;
    lemma_mul_is_commutative(n, z);
    assert(st == r * g.spr() + z * n + sz);
    lemma_mul_is_commutative(g.k, z);
    assert(0 <= z * n <= n * (n - 2)) by(nonlinear_arith) requires 0 <= z <= n - 2, n > 0;
    assert(n * (n - 2) + n == n * (n - 1)) by(nonlinear_arith);
    assert(0 <= s * m <= 9_846_140) by(nonlinear_arith) requires 0 <= s < 46010, 0 < m <= 214;
    assert(r * g.datachunks() + s * m == st * m) by(nonlinear_arith) requires g.datachunks() == g.spr() * m, st == r * g.spr() + s;
    assert(0 <= r * g.datachunks() <= 215 * off) by(nonlinear_arith)
        requires r >= 0, off >= r * g.depth(), 0 < g.datachunks() <= 215 * g.depth();
    assert(0 <= d * yinv <= 46010) by(nonlinear_arith) requires 0 <= d <= 214, 0 < yinv <= 214;
    lemma_divmod_unique(st * m, m, st, 0);
    if bb < m { lemma_divmod_unique(st * m + bb, m, st, bb); }
}

// --- the iterator -------------------------------------------------------------------
/// o[] entries stay small
proof fn lemma_cnt_bounds(g: Geo, z: int, sz: int, b: int)
    requires g.ok(), 0 <= z < g.n - 1, 0 <= sz < g.n, 0 <= b <= g.k
    ensures forall|d: int| 0 <= d < g.n ==> 0 <= #[trigger] g.beforez(d, z, sz, g.k) <= g.k,
            forall|d: int| 0 <= d < g.n ==> 0 <= #[trigger] g.rowz(d, z, sz, b) <= 1,
            0 <= z * g.k <= 46010
{
    assert forall|d: int| 0 <= d < g.n implies 0 <= #[trigger] g.beforez(d, z, sz, g.k) <= g.k by {
        let (c, yinv, minv) = lemma_ctx(g, d, z);
        lemma_exchange(g, d, z, c, yinv, minv, sz, g.k);
        lemma_tc_bounds(g, c, minv, g.k, sz);
    }
    assert forall|d: int| 0 <= d < g.n implies 0 <= #[trigger] g.rowz(d, z, sz, b) <= 1 by {
        let (c, yinv, minv) = lemma_ctx(g, d, z);
        lemma_row_le1(g, d, z, c, yinv, minv, sz, b);
    }
    assert(0 <= z * g.k <= 46010) by(nonlinear_arith) requires 0 <= z <= 213, 0 < g.k <= 215;
}
proof fn lemma_iter_disk(g: Geo, z: int, s: int, b: int)
    requires g.ok(), 0 <= z < g.n - 1, 0 <= s < g.n, 0 <= b < g.k
    ensures 0 <= s * g.m(), 0 <= s * g.m() + b <= 9_846_400, 0 <= (s * g.m() + b) * (z + 1) <= 2_107_200_000,
            ((s * g.m() + b) * (z + 1)) % g.n == g.disk_z(z, s, b), 0 <= g.disk_z(z, s, b) < g.n,
            forall|d: int| 0 <= d < g.n ==> 0 <= #[trigger] g.beforez(d, z, s, g.k) <= g.k,
            forall|d: int| 0 <= d < g.n ==> 0 <= #[trigger] g.rowz(d, z, s, b) <= 1,
            0 <= z * g.k <= 46010
{
    lemma_geo_bounds(g);
    lemma_cnt_bounds(g, z, s, b);
    assert(s < g.spr()) by(nonlinear_arith) requires s < g.n, g.spr() == g.n * (g.n - 1), g.n >= 2;
    lemma_disk_mod(g, s, b, z + 1);
}
/// everything PrimeSIter::next needs about the current element
proof fn lemma_next_elem(it: PrimeSIter)
    requires it.wf()
    ensures ({ let g = it.geo(); let s = it.id.stripe(g); let b = it.id.pos(g); let d = g.disk(s, b);
        &&& s >= 0 && 0 <= b < g.k && 0 <= d < g.n && 0 < g.m() < g.n
        &&& 0 <= it.a <= 9_846_140 && it.a == it.stripe * g.m() + it.a as int % g.m() && it.stripe == it.a as int / g.m()
        &&& 0 <= it.stripe < g.spr() && it.stripe + 1 <= 46010 && 0 <= it.z < g.n - 1 && 0 <= it.stripe_iter < g.n
        &&& it.id is Data ==> it.a as int % g.m() == b
        &&& it.id is Parity ==> it.a == it.stripe * g.m()
        &&& 0 <= it.stripe * g.m() && it.stripe * g.m() + b <= 9_846_400
        &&& 0 <= (it.stripe * g.m() + b) * it.y <= 2_107_200_000
        &&& ((it.stripe * g.m() + b) * it.y) % g.n == d
        &&& d == g.disk_z(it.z as int, it.stripe_iter as int, b)
        &&& it.o@[d] + it.r * g.depth() == g.offset(s, b)
        &&& 0 <= it.r * g.depth() <= it.id.addr() && it.r <= it.id.addr()
        &&& forall|x: int| 0 <= x < g.n ==> 0 <= #[trigger] it.o@[x] <= 50_000
        &&& s == it.r * g.spr() + it.stripe && it.stripe == it.z * g.n + it.stripe_iter
        &&& (it.stripe + 1) * g.m() == it.stripe * g.m() + g.m() && (it.stripe + 1) * g.m() <= 9_846_140
        &&& 0 < g.spr() <= 46010 })
{
    let g = it.geo(); let s = it.id.stripe(g); let b = it.id.pos(g);
    lemma_geo_bounds(g);
    let addr = it.id.addr(); let m = g.m();
    lemma_div_pos_is_pos(addr, m);
    lemma_eqm_rem(addr, m);
    lemma_fundamental_div_mod(addr, m);
    lemma_mul_is_commutative(m, s);
    let (r, z, sz) = lemma_stripe_decompose(g, s);
    lemma_eqm_rem(s, g.spr());
    lemma_fundamental_div_mod(s, g.spr());
    lemma_mul_is_commutative(r, g.spr());
    let stripe = it.stripe as int;
    assert(stripe == z * g.n + sz);
    lemma_divmod_unique(stripe, g.n, z, sz);
    lemma_disk_mod(g, stripe, b, z + 1);
    let d = g.disk(s, b);
    let off = if it.id is Data { b } else { 0int };
    lemma_divmod_unique(stripe * m + off, m, stripe, off);
    let (c, yinv, minv) = lemma_ctx(g, d, z);
    lemma_offset(g, r, z, sz, b, d, c, yinv, minv);
    lemma_exchange(g, d, z, c, yinv, minv, sz, g.k);
    lemma_row_le1(g, d, z, c, yinv, minv, sz, b + 1);
    lemma_cnt_bounds(g, z, sz, b);
    assert((stripe + 1) * m == stripe * m + m) by(nonlinear_arith);
    assert((stripe + 1) * m <= 46010 * 214) by(nonlinear_arith) requires 0 <= stripe + 1 <= 46010, 0 < m <= 214;
    // r * depth <= r * spr * m <= addr
    assert(r * g.spr() * m <= addr) by(nonlinear_arith) requires s * m <= addr, s == r * g.spr() + stripe, stripe >= 0, m > 0;
    assert(r * g.depth() <= r * g.spr() * m) by(nonlinear_arith) requires r >= 0, g.depth() <= g.spr() * m;
    assert(0 <= r * g.depth() && r <= r * g.depth()) by(nonlinear_arith) requires r >= 0, g.depth() >= 1;
    assert(it.o@[d] == z * g.k + g.beforez(d, z, sz, g.k) + g.rowz(d, z, sz, b));
    assert(g.rowz(d, z, sz, b) == 0);
}
/// start state: after PrimeSIter::new's loops
proof fn lemma_iter_bounds(g: Geo, cli: ChunklocInt, id: ChunkId)
    requires g.ok(), id.valid(g), cli.ok(g, id.addr())
    ensures 0 <= g.k * cli.z <= 46010, g.k * cli.z == cli.z * g.k, 0 <= cli.s as int % g.n < g.n,
            cli.y < 256, 0 <= cli.z < 256
{
    lemma_id2loc_pre(g, id, cli);
    lemma_s_parts(g, cli.s as int);
    lemma_cnt_bounds(g, cli.z as int, 0, 0);
    lemma_mul_is_commutative(g.k, cli.z as int);
}
/// the successor of a chunk: next position in the stripe, or the next stripe
proof fn lemma_succ(g: Geo, id: ChunkId)
    requires g.ok(), id.valid(g), id.addr() < 0x1000_0000_0000_0000
    ensures id.succ(g).valid(g), id.succ(g).rank(g) == id.rank(g) + 1,
            id.pos(g) < g.k - 1 ==> id.succ(g).stripe(g) == id.stripe(g) && id.succ(g).pos(g) == id.pos(g) + 1,
            id.pos(g) == g.k - 1 ==> id.succ(g).stripe(g) == id.stripe(g) + 1 && id.succ(g).pos(g) == 0 && id.succ(g) is Data,
            0 <= id.pos(g) < g.k,
            id is Data ==> id.addr() >= id.pos(g) && (id.addr() - id.pos(g)) % g.m() == 0,
            id.succ(g).addr() <= id.addr() + g.m()
{
    lemma_geo_bounds(g);
    let m = g.m(); let a = id.addr();
    lemma_fundamental_div_mod(a, m);
    lemma_eqm_rem(a, m);
    let q = a / m;
    lemma_div_pos_is_pos(a, m);
    lemma_mul_is_commutative(m, q);
    let x = a % m;
    assert(0 <= q * m) by(nonlinear_arith) requires q >= 0, m > 0;
    lemma_divmod_unique(q * m, m, q, 0);
    if x < m - 1 { lemma_divmod_unique(a + 1, m, q, x + 1); }
    assert((q + 1) * m == q * m + m) by(nonlinear_arith);
    lemma_divmod_unique(q * m + m, m, q + 1, 0);
    assert((q + 1) * g.k == q * g.k + g.k) by(nonlinear_arith);
}
/// stripe parts of the next stripe
proof fn lemma_next_stripe(g: Geo, s: int)
    requires g.ok(), s >= 0
    ensures
        g.sz_of(s) < g.n - 1 ==> (s + 1) / g.spr() == s / g.spr() && (s + 1) % g.spr() == s % g.spr() + 1
            && g.z_of(s + 1) == g.z_of(s) && g.sz_of(s + 1) == g.sz_of(s) + 1,
        g.sz_of(s) == g.n - 1 && g.z_of(s) < g.n - 2 ==> (s + 1) / g.spr() == s / g.spr() && (s + 1) % g.spr() == s % g.spr() + 1
            && g.z_of(s + 1) == g.z_of(s) + 1 && g.sz_of(s + 1) == 0,
        g.sz_of(s) == g.n - 1 && g.z_of(s) == g.n - 2 ==> (s + 1) / g.spr() == s / g.spr() + 1 && (s + 1) % g.spr() == 0
            && g.z_of(s + 1) == 0 && g.sz_of(s + 1) == 0,
        0 <= g.z_of(s) < g.n - 1, 0 <= g.sz_of(s) < g.n,
{
    let (r, z, sz) = lemma_stripe_decompose(g, s);
    let n = g.n;
    assert((z + 1) * n == z * n + n) by(nonlinear_arith);
    assert((r + 1) * g.spr() == r * g.spr() + g.spr()) by(nonlinear_arith);
    lemma_stripe_parts(g, s, r, z, sz);
    if sz < n - 1 { lemma_stripe_parts(g, s + 1, r, z, sz + 1); }
    else if z < n - 2 { lemma_stripe_parts(g, s + 1, r, z + 1, 0); }
    else {
        assert(s + 1 == (r + 1) * g.spr()) by(nonlinear_arith)
            requires s == r * g.spr() + z * n + sz, z == n - 2, sz == n - 1, g.spr() == n * (n - 1);
        assert(0 * n == 0);
        lemma_stripe_parts(g, s + 1, r + 1, 0, 0);
    }
}
/// PrimeSIter::next re-establishes the invariant
proof fn lemma_next(it: PrimeSIter)
    requires it.wf(), it.id.addr() < 0x1000_0000_0000_0000 - 1000
    ensures ({ let g = it.geo(); let s = it.id.stripe(g); let b = it.id.pos(g); let z = it.z as int; let sz = it.stripe_iter as int;
        let d = g.disk(s, b); let nid = it.id.succ(g);
        &&& nid.valid(g) && 0 <= b < g.k
        &&& b < g.k - 1 ==> nid.stripe(g) == s && nid.pos(g) == b + 1
        &&& b == g.k - 1 ==> nid.stripe(g) == s + 1 && nid.pos(g) == 0 && nid is Data
        &&& g.z_of(s) == z && g.sz_of(s) == sz
        &&& z % (g.n - 1) == z
        &&& (z + 1 < g.n - 1 ==> (z + 1) % (g.n - 1) == z + 1)
        &&& (sz < g.n - 1 ==> (s + 1) / g.spr() == s / g.spr() && (s + 1) % g.spr() == s % g.spr() + 1 && g.z_of(s + 1) == z && g.sz_of(s + 1) == sz + 1)
        &&& (sz == g.n - 1 && z < g.n - 2 ==> (s + 1) / g.spr() == s / g.spr() && (s + 1) % g.spr() == s % g.spr() + 1 && g.z_of(s + 1) == z + 1 && g.sz_of(s + 1) == 0)
        &&& (sz == g.n - 1 && z == g.n - 2 ==> (s + 1) / g.spr() == s / g.spr() + 1 && (s + 1) % g.spr() == 0 && g.z_of(s + 1) == 0 && g.sz_of(s + 1) == 0)
        &&& forall|x: int| #[trigger] g.rowz(x, z, sz, b + 1) == g.rowz(x, z, sz, b) + if x == d { 1int } else { 0 }
        &&& forall|x: int| #[trigger] g.beforez(x, z, sz + 1, g.k) == g.beforez(x, z, sz, g.k) + g.rowz(x, z, sz, g.k)
        &&& forall|x: int| 0 <= x < g.n ==> #[trigger] g.beforez(x, z, g.n, g.k) == g.k
        &&& forall|x: int, zz: int| #[trigger] g.beforez(x, zz, 0, g.k) == 0
        &&& forall|x: int, zz: int, ss: int| #[trigger] g.rowz(x, zz, ss, 0) == 0
        &&& (z + 1) * g.k == z * g.k + g.k && 0 * g.k == 0 && 0 * g.m() == 0
        &&& (it.id is Data ==> it.id.addr() >= b && (it.a < (it.stripe + 1) * g.m() - 1 <==> b < g.m() - 1))
        &&& (it.stripe + 1) * g.m() == it.stripe * g.m() + g.m()
      })
{
    let g = it.geo(); let s = it.id.stripe(g); let z = it.z as int;
    lemma_next_elem(it);
    lemma_succ(g, it.id);
    lemma_next_stripe(g, s);
    assert forall|x: int| 0 <= x < g.n implies #[trigger] g.beforez(x, z, g.n, g.k) == g.k by { lemma_iteration_total(g, x, z); }
    assert((z + 1) * g.k == z * g.k + g.k) by(nonlinear_arith);
    if g.n > 2 {
        lemma_small_mod(z as nat, (g.n - 1) as nat);
        if z + 1 < g.n - 1 { lemma_small_mod((z + 1) as nat, (g.n - 1) as nat); }
    } else { lemma_small_mod(0, 1); }
}

// --- the properties, over the contracts alone ------------------------------------------
proof fn lemma_id_unique(g: Geo, x: ChunkId, y: ChunkId)
    requires g.ok(), x.valid(g), y.valid(g), x.stripe(g) == y.stripe(g), x.pos(g) == y.pos(g)
    ensures x == y
{
    lemma_geo_bounds(g);
    lemma_fundamental_div_mod(x.addr(), g.m());
    lemma_fundamental_div_mod(y.addr(), g.m());
    lemma_eqm_rem(x.addr(), g.m());
    lemma_eqm_rem(y.addr(), g.m());
}
proof fn lemma_valid_pos(g: Geo, x: ChunkId)
    requires g.ok(), x.valid(g)
    ensures valid_pos(g, x.stripe(g), x.pos(g))
{
    lemma_geo_bounds(g);
    lemma_div_pos_is_pos(x.addr(), g.m());
    lemma_eqm_rem(x.addr(), g.m());
}
/// D01: chunk -> location -> chunk
fn prop_d01_round_trip_id(p: &PrimeS, id: ChunkId) -> (ret: ChunkId)
    requires p.wf(), id.valid(p.geo()), id.addr() < 0x8_0000_0000_0000
    ensures ret == id
{
    let loc = p.id2loc(id);
    let ret = p.loc2id(loc.clone_loc());
    proof {
        let g = p.geo();
        lemma_valid_pos(g, id); lemma_valid_pos(g, ret);
        theorem_injective(g, id.stripe(g), id.pos(g), ret.stripe(g), ret.pos(g));
        lemma_id_unique(g, id, ret);
    }
    ret
}
impl Chunkloc { fn clone_loc(&self) -> (ret: Chunkloc) ensures ret == *self { Chunkloc { disk: self.disk, offset: self.offset } } }
/// D01: location -> chunk -> location (so every slot of every disk holds a chunk)
fn prop_d01_round_trip_loc(p: &PrimeS, loc: Chunkloc) -> (ret: Chunkloc)
    requires p.wf(), 0 <= loc.disk < p.n, loc.offset < 0x10_0000_0000_0000
    ensures ret == loc
{
    let id = p.loc2id(loc);
    p.id2loc(id)
}
/// D01: two different chunks have different locations
fn prop_d01_injective(p: &PrimeS, id1: ChunkId, id2: ChunkId) -> (ret: (Chunkloc, Chunkloc))
    requires p.wf(), id1.valid(p.geo()), id2.valid(p.geo()), id1 != id2,
        id1.addr() < 0x1000_0000_0000_0000, id2.addr() < 0x1000_0000_0000_0000
    ensures ret.0 != ret.1, 0 <= ret.0.disk < p.n
{
    let a = p.id2loc(id1);
    let b = p.id2loc(id2);
    proof {
        let g = p.geo();
        lemma_valid_pos(g, id1); lemma_valid_pos(g, id2);
        if a == b {
            theorem_injective(g, id1.stripe(g), id1.pos(g), id2.stripe(g), id2.pos(g));
            lemma_id_unique(g, id1, id2);
        }
    }
    (a, b)
}
/// D02: two chunks of one stripe are on different disks
fn prop_d02_distinct_disks(p: &PrimeS, id1: ChunkId, id2: ChunkId) -> (ret: (Chunkloc, Chunkloc))
    requires p.wf(), id1.valid(p.geo()), id2.valid(p.geo()), id1 != id2, id1.stripe(p.geo()) == id2.stripe(p.geo()),
        id1.addr() < 0x1000_0000_0000_0000, id2.addr() < 0x1000_0000_0000_0000
    ensures ret.0.disk != ret.1.disk
{
    let a = p.id2loc(id1);
    let b = p.id2loc(id2);
    proof {
        let g = p.geo();
        lemma_valid_pos(g, id1); lemma_valid_pos(g, id2);
        if id1.pos(g) == id2.pos(g) { lemma_id_unique(g, id1, id2); }
        theorem_distinct_disks(g, id1.stripe(g), id1.pos(g), id2.pos(g));
    }
    (a, b)
}
/// D03: an iterator yields every chunk from start up to (not including) end,
/// in stripe order, each with the location id2loc gives; then stays finished.
fn prop_d03_iterate(p: &PrimeS, start: ChunkId, end: ChunkId) -> (ret: Vec<(ChunkId, Chunkloc)>)
    requires p.wf(), start.valid(p.geo()), end.valid(p.geo()), start.rank(p.geo()) <= end.rank(p.geo()),
        start.addr() < 0x1000_0000_0000_0000, end.addr() < 0x1000_0000_0000_0000 - 2000
    ensures ret@.len() == end.rank(p.geo()) - start.rank(p.geo()),
        forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i]).0.rank(p.geo()) == start.rank(p.geo()) + i
            && ret@[i].0.valid(p.geo()) && ret@[i].1.is_loc(p.geo(), ret@[i].0)
{
    let ghost g = p.geo();
    let mut it = PrimeSIter::new(p, start, end);
    let mut out: Vec<(ChunkId, Chunkloc)> = Vec::new();
    loop
        invariant it.wf(), it.geo() == g, g == p.geo(), p.wf(), it.end == end, end.valid(g),
            end.addr() < 0x1000_0000_0000_0000 - 2000, it.id.rank(g) <= end.rank(g),
            it.id.rank(g) == start.rank(g) + out@.len(),
            forall|i: int| 0 <= i < out@.len() ==> (#[trigger] out@[i]).0.rank(g) == start.rank(g) + i
                && out@[i].0.valid(g) && out@[i].1.is_loc(g, out@[i].0)
        ensures out@.len() == end.rank(g) - start.rank(g)
        decreases end.rank(g) - it.id.rank(g)
    {
        proof {
            lemma_rank_addr(g, it.id, end);
            if it.id.rank(g) == end.rank(g) { lemma_rank_unique(g, it.id, end); }
            lemma_succ(g, it.id);
        }
        match it.next() {
            None => { 
                let again = it.next();
                assert(again is None);
                break;
            }
            Some(e) => { out.push(e); }
        }
    }
    out
}
proof fn lemma_rank_addr(g: Geo, x: ChunkId, y: ChunkId)
    requires g.ok(), x.valid(g), y.valid(g), x.rank(g) <= y.rank(g)
    ensures x.addr() <= y.addr() + 215
{
    lemma_geo_bounds(g);
    lemma_valid_pos(g, x); lemma_valid_pos(g, y);
    let m = g.m(); let k = g.k;
    let sx = x.stripe(g); let sy = y.stripe(g); let px = x.pos(g); let py = y.pos(g);
    assert(sx <= sy) by(nonlinear_arith) requires sx * k + px <= sy * k + py, 0 <= px, py < k, k > 0;
    lemma_fundamental_div_mod(x.addr(), m);
    lemma_fundamental_div_mod(y.addr(), m);
    lemma_eqm_rem(x.addr(), m);
    lemma_eqm_rem(y.addr(), m);
    assert(m * sx <= m * sy) by(nonlinear_arith) requires sx <= sy, m > 0;
}
proof fn lemma_rank_unique(g: Geo, x: ChunkId, y: ChunkId)
    requires g.ok(), x.valid(g), y.valid(g), x.rank(g) == y.rank(g)
    ensures x == y
{
    lemma_valid_pos(g, x); lemma_valid_pos(g, y);
    lemma_divmod_unique(x.rank(g), g.k, x.stripe(g), x.pos(g));
    lemma_divmod_unique(y.rank(g), g.k, y.stripe(g), y.pos(g));
    lemma_id_unique(g, x, y);
}
/// D04: on one disk, slots are handed out in stripe order: 0, 1, 2, ...
fn prop_d04_monotone(p: &PrimeS, id1: ChunkId, id2: ChunkId) -> (ret: (Chunkloc, Chunkloc))
    requires p.wf(), id1.valid(p.geo()), id2.valid(p.geo()), id1.rank(p.geo()) < id2.rank(p.geo()),
        id1.addr() < 0x1000_0000_0000_0000, id2.addr() < 0x1000_0000_0000_0000
    ensures ret.0.disk == ret.1.disk ==> ret.0.offset < ret.1.offset
{
    let a = p.id2loc(id1);
    let b = p.id2loc(id2);
    proof {
        let g = p.geo();
        lemma_valid_pos(g, id1); lemma_valid_pos(g, id2);
        let s1 = id1.stripe(g); let s2 = id2.stripe(g); let b1 = id1.pos(g); let b2 = id2.pos(g);
        assert(s1 < s2 || (s1 == s2 && b1 < b2)) by(nonlinear_arith)
            requires s1 * g.k + b1 < s2 * g.k + b2, 0 <= b1 < g.k, 0 <= b2 < g.k;
        if a.disk == b.disk { theorem_monotone(g, s1, b1, s2, b2); }
    }
    (a, b)
}
/// D04: gap-freeness.  Walking the chunks in stripe order, the next chunk that
/// goes to disk d gets the slot after the last one; the first gets slot 0.
/// (filled(d, s, b) = number of slots of disk d used by the chunks before (s, b))
spec fn filled(g: Geo, d: int, s: int, b: int) -> int { g.before(d, s) + g.row(d, s, b) }
fn prop_d04_gap_free(p: &PrimeS, id: ChunkId) -> (ret: Chunkloc)
    requires p.wf(), id.valid(p.geo()), id.addr() < 0x1000_0000_0000_0000
    ensures ({ let g = p.geo(); let s = id.stripe(g); let b = id.pos(g); let n = id.succ(g);
        &&& ret.offset == filled(g, ret.disk as int, s, b)
        &&& filled(g, ret.disk as int, n.stripe(g), n.pos(g)) == ret.offset + 1
        &&& forall|d: int| 0 <= d < g.n && d != ret.disk ==> #[trigger] filled(g, d, n.stripe(g), n.pos(g)) == filled(g, d, s, b) }),
        forall|d: int| #[trigger] filled(p.geo(), d, 0, 0) == 0
{
    let a = p.id2loc(id);
    proof {
        let g = p.geo();
        lemma_valid_pos(g, id);
        lemma_succ(g, id);
        let s = id.stripe(g); let b = id.pos(g); let n = id.succ(g);
        assert forall|d: int| 0 <= d < g.n implies #[trigger] filled(g, d, n.stripe(g), n.pos(g)) == filled(g, d, s, b) + if d == a.disk { 1int } else { 0 } by {
            if b == g.k - 1 {
                assert(g.row(d, s, g.k) == g.row(d, s, b) + if g.disk(s, b) == d { 1int } else { 0 });
                assert(g.row(d, s + 1, 0) == 0);
            }
        }
    }
    a
}
/// D04: one repetition puts exactly depth() chunks on every disk, and holds
/// datachunks() data chunks
fn prop_d04_repetition(p: &PrimeS, disk: u8) -> (ret: (u64, u32))
    requires p.wf(), disk < p.n
    ensures ret.0 == p.geo().spr() * p.geo().m(), ret.1 == p.geo().before(disk as int, p.geo().spr())
{
    proof {
        let g = p.geo();
        lemma_geo_bounds(g);
        assert(0 * g.k == 0 && 0 * g.n == 0);
        assert(1 * g.spr() == g.spr() && 1 * g.depth() == g.depth());
        lemma_before(g, disk as int, 1, 0, 0);
    }
    (p.datachunks(), p.depth())
}
