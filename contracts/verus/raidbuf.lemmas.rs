pub open spec fn flat(s: Seq<IoVec>) -> Seq<u8> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last()@ } }
pub open spec fn nonempty(s: Seq<IoVec>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@.len() > 0 }
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
/// zero-padded to whole blocks
pub open spec fn padded(s: Seq<u8>) -> Seq<u8> { s + zeros((4096 - s.len() as int % 4096) % 4096) }
#[verifier::external_body] pub struct Mem { x: u8 }
impl Mem { pub uninterp spec fn got(&self) -> Seq<Option<u8>>; }
pub open spec fn fill_at(m: Seq<Option<u8>>, at: int, d: Seq<u8>) -> Seq<Option<u8>> { Seq::new(m.len(), |i: int| if at <= i < at + d.len() { Some(d[i - at]) } else { m[i] }) }
pub open spec fn all_ops(l: Seq<BoxVdevFut>) -> Seq<Op> decreases l.len() { if l.len() == 0 { Seq::empty() } else { all_ops(l.drop_last()) + l.last().ops() } }
impl StripeBuffer {
    pub open spec fn bytes(&self) -> Seq<u8> { flat(self.buf@) }
    /// the next block to be written to this zone
    pub open spec fn next(&self) -> int { self.lba + self.bytes().len() / 4096 }
    pub open spec fn wf(&self) -> bool {
        &&& nonempty(self.buf@)
        &&& self.stripesize > 0 && self.stripesize % 4096 == 0
        &&& self.bytes().len() <= self.stripesize
        &&& self.bytes().len() % 4096 == 0
        &&& self.lba + self.stripesize / 4096 <= u64::MAX
    }
}
/// how much of a piece the buffer takes
pub open spec fn taken(s: StripeBuffer, d: Seq<u8>) -> int { if s.stripesize - s.bytes().len() < d.len() { s.stripesize - s.bytes().len() } else { d.len() as int } }
pub proof fn lemma_bpl() ensures forall|x: int| #[trigger] (x % (BYTES_PER_LBA as int)) == x % 4096, forall|x: int| #[trigger] (x / (BYTES_PER_LBA as int)) == x / 4096, forall|x: int| #[trigger] (x * (BYTES_PER_LBA as int)) == x * 4096 {}
pub proof fn lemma_take(s: Seq<IoVec>, i: int) requires 0 <= i < s.len()
    ensures flat(s.take(i + 1)) == flat(s.take(i)) + s[i]@, flat(s.take(i + 1)).len() <= flat(s).len()
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); lemma_flat_le(s, i + 1); }
pub proof fn lemma_flat_le(s: Seq<IoVec>, i: int) requires 0 <= i <= s.len() ensures flat(s.take(i)).len() <= flat(s).len() decreases s.len() - i
{ if i == s.len() { assert(s.take(i) =~= s); } else { lemma_flat_le(s, i + 1); assert(s.take(i + 1).drop_last() =~= s.take(i)); } }
pub proof fn lemma_nonempty(s: Seq<IoVec>) requires nonempty(s) ensures flat(s).len() == 0 <==> s.len() == 0 {}
pub proof fn lemma_push_all(s: Seq<IoVec>) ensures forall|b: IoVec| flat(#[trigger] s.push(b)) == flat(s) + b@
{ assert forall|b: IoVec| flat(#[trigger] s.push(b)) == flat(s) + b@ by { assert(s.push(b).drop_last() =~= s); } }

pub proof fn lemma_zero_bufs(n: int, z: int) requires n > 0, z > 0 ensures ((n + z - 1) / z) * z >= n, ((n + z - 1) / z - 1) * z < n, (n + z - 1) / z >= 1
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n + z - 1, z); vstd::arithmetic::div_mod::lemma_mod_bound(n + z - 1, z); let q = (n + z - 1) / z; let r = (n + z - 1) % z;
  assert(n + z - 1 == z * q + r); assert(q * z == z * q) by (nonlinear_arith); assert((q - 1) * z == z * q - z) by (nonlinear_arith); if q <= 0 { assert(z * q <= 0) by (nonlinear_arith) requires q <= 0, z > 0; } }
pub proof fn lemma_zcat(a: int, b: int) requires a >= 0, b >= 0 ensures zeros(a) + zeros(b) == zeros(a + b) { assert(zeros(a) + zeros(b) =~= zeros(a + b)); }
pub proof fn lemma_pad_step(b: Seq<u8>, i: int, k: int, n: int) requires 0 <= i < k, k * ZERO_REGION_LEN < n, ZERO_REGION_LEN % 4096 == 0
    ensures (i + 1) * ZERO_REGION_LEN == i * ZERO_REGION_LEN + ZERO_REGION_LEN, (i + 1) * ZERO_REGION_LEN <= k * ZERO_REGION_LEN, i * ZERO_REGION_LEN >= 0,
        padded(zeros(ZERO_REGION_LEN as int).subrange(0, ZERO_REGION_LEN as int)) == zeros(ZERO_REGION_LEN as int), (b + zeros(i * ZERO_REGION_LEN)) + zeros(ZERO_REGION_LEN as int) == b + zeros((i + 1) * ZERO_REGION_LEN)
{
    let z = ZERO_REGION_LEN as int;
    assert((i + 1) * z == i * z + z) by (nonlinear_arith); assert((i + 1) * z <= k * z) by (nonlinear_arith) requires i < k, z >= 0; assert(i * z >= 0) by (nonlinear_arith) requires i >= 0, z >= 0;
    assert(padded(zeros(z).subrange(0, z)) =~= zeros(z)); assert((b + zeros(i * z)) + zeros(z) =~= b + zeros((i + 1) * z));
}
pub proof fn lemma_pad_end(b: Seq<u8>, k: int, n: int) requires 0 <= k, 0 <= k * ZERO_REGION_LEN < n, n % 4096 == 0, ZERO_REGION_LEN % 4096 == 0, n - k * ZERO_REGION_LEN <= ZERO_REGION_LEN
    ensures ({ let r = n - k * ZERO_REGION_LEN; let d = zeros(ZERO_REGION_LEN as int).subrange(0, r); d.len() == r && padded(d.subrange(0, r)) == zeros(r) && r % 4096 == 0 && (b + zeros(k * ZERO_REGION_LEN)) + zeros(r) == b + zeros(n) })
{
    let z = ZERO_REGION_LEN as int; let r = n - k * z; let d = zeros(z).subrange(0, r);
    assert(k * z % 4096 == 0) by { assert(z == 4096 * (z / 4096)); assert(k * z == 4096 * (k * (z / 4096))) by (nonlinear_arith) requires z == 4096 * (z / 4096); assert((4096 * (k * (z / 4096))) % 4096 == 0); }
    assert(d.subrange(0, r) =~= zeros(r)); assert(padded(zeros(r)) =~= zeros(r)); assert((b + zeros(k * z)) + zeros(r) =~= b + zeros(n));
}

impl VdevRaid {
    pub open spec fn m(&self) -> int { self.inner.i.codec.k - self.inner.i.codec.f }
    pub open spec fn stripe_lbas(&self) -> int { self.m() * self.chunksize }
    pub open spec fn stripe_bytes(&self) -> int { self.m() * self.chunksize * 4096 }
    pub open spec fn wf(&self) -> bool { &&& 0 <= self.inner.i.codec.f < self.inner.i.codec.k &&& self.chunksize > 0 &&& self.chunksize * 4096 <= usize::MAX &&& self.stripe_bytes() + ZERO_REGION_LEN <= usize::MAX }
}
pub open spec fn buf_ok(v: VdevRaid, s: StripeBuffer) -> bool { s.wf() && s.stripesize == v.stripe_bytes() && s.lba as int % v.stripe_lbas() == 0 && s.bytes().len() < s.stripesize }
pub open spec fn bufs_ok(v: VdevRaid, m: Map<ZoneT, StripeBuffer>) -> bool { forall|z: ZoneT| #[trigger] m.dom().contains(z) ==> buf_ok(v, m[z]) }
pub open spec fn roomy(v: VdevRaid, m: Map<ZoneT, StripeBuffer>) -> bool { forall|z: ZoneT| #[trigger] m.dom().contains(z) ==> m[z].lba + 2 * v.stripe_lbas() <= u64::MAX }
pub open spec fn some_present(c: Seq<Child>) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]) is Present }
pub open spec fn first_present(c: Seq<Child>, m: Mirror) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]) == Child::Present(m) && forall|j: int| 0 <= j < i ==> !((#[trigger] c[j]) is Present) }
pub open spec fn finishes(c: Seq<Child>, a: int, b: int) -> Seq<Op> decreases c.len() { if c.len() == 0 { Seq::empty() } else { finishes(c.drop_last(), a, b) + match c.last() { Child::Present(m) => seq![Op::Finish(m.id(), a, b)], _ => Seq::empty() } } }
pub open spec fn erases(c: Seq<Child>, a: int, b: int) -> Seq<Op> decreases c.len() { if c.len() == 0 { Seq::empty() } else { erases(c.drop_last(), a, b) + match c.last() { Child::Present(m) => seq![Op::Erase(m.id(), a, b)], _ => Seq::empty() } } }
pub proof fn lemma_finishes(c: Seq<Child>, i: int, a: int, b: int) requires 0 <= i < c.len() ensures finishes(c.take(i + 1), a, b) == finishes(c.take(i), a, b) + match c[i] { Child::Present(m) => seq![Op::Finish(m.id(), a, b)], _ => Seq::empty() } { assert(c.take(i + 1).drop_last() =~= c.take(i)); }
pub proof fn lemma_erases(c: Seq<Child>, i: int, a: int, b: int) requires 0 <= i < c.len() ensures erases(c.take(i + 1), a, b) == erases(c.take(i), a, b) + match c[i] { Child::Present(m) => seq![Op::Erase(m.id(), a, b)], _ => Seq::empty() } { assert(c.take(i + 1).drop_last() =~= c.take(i)); }
pub proof fn lemma_push_ops(l: Seq<BoxVdevFut>) ensures forall|f: BoxVdevFut| all_ops(#[trigger] l.push(f)) == all_ops(l) + f.ops() { assert forall|f: BoxVdevFut| all_ops(#[trigger] l.push(f)) == all_ops(l) + f.ops() by { assert(l.push(f).drop_last() =~= l); } }
/// flushing zero-fills the stripe that is held and writes it; the next block to write is the next stripe's first
pub open spec fn flushed(v: VdevRaid, m0: Map<ZoneT, StripeBuffer>, m1: Map<ZoneT, StripeBuffer>, z: ZoneT, pad: int, ops: Seq<Op>) -> bool {
    if m0.dom().contains(z) && m0[z].bytes().len() > 0 {
        &&& m1.dom() =~= m0.dom() && m1.remove(z) =~= m0.remove(z)
        &&& buf_ok(v, m1[z]) && m1[z].bytes().len() == 0 && m1[z].lba == m0[z].lba + v.stripe_lbas()
        &&& pad * 4096 == v.stripe_bytes() - m0[z].bytes().len()
        &&& ops =~= seq![Op::Stripes(m0[z].lba as int, m0[z].bytes() + zeros(pad * 4096))]
    } else { m1 =~= m0 && pad == 0 && ops.len() == 0 }
}
pub proof fn lemma_flushed(v: VdevRaid, m0: Map<ZoneT, StripeBuffer>, m1: Map<ZoneT, StripeBuffer>, z: ZoneT, pad: int, ops: Seq<Op>) requires v.wf()
    ensures m0[z].lba as int % v.stripe_lbas() == 0 ==> (m0[z].lba + v.stripe_lbas()) % v.stripe_lbas() == 0
{ lemma_stripe(v); lemma_add_mod(m0[z].lba as int, 1, v.stripe_lbas()); }
/// finishing does that, then finishes the zone on every present child
pub open spec fn finished(v: VdevRaid, m0: Map<ZoneT, StripeBuffer>, z: ZoneT, ops: Seq<Op>) -> bool {
    let s = m0[z]; let n = s.bytes().len();
    exists|m: Mirror| first_present(v.inner.i.children@, m) && ops =~= (if n > 0 { seq![Op::Stripes(s.lba as int, s.bytes() + zeros(v.stripe_bytes() - n))] } else { Seq::empty() }) + #[trigger] finishes(v.inner.i.children@, m.zl(z).0 as int, m.zl(z).1 - 1)
}
pub proof fn lemma_finished(v: VdevRaid, m0: Map<ZoneT, StripeBuffer>, z: ZoneT, ops: Seq<Op>) {}
pub open spec fn at(o: Op, a: int) -> Option<u8> { match o { Op::Stripes(l, d) => if l * 4096 <= a < l * 4096 + d.len() { Some(d[a - l * 4096]) } else { None }, _ => None } }
pub open spec fn total(s: Seq<Op>) -> int decreases s.len() { if s.len() == 0 { 0 } else { total(s.drop_last()) + match s.last() { Op::Stripes(l, d) => d.len() as int, _ => 0 } } }
/// the writes put exactly these bytes there, each once
pub open spec fn covers(s: Seq<Op>, lba: int, d: Seq<u8>) -> bool {
    &&& total(s) == d.len()
    &&& forall|i: int| 0 <= i < d.len() ==> wrote(s, lba * 4096 + i, #[trigger] d[i])
}
pub open spec fn wrote(s: Seq<Op>, a: int, b: u8) -> bool { exists|k: int| 0 <= k < s.len() && at(#[trigger] s[k], a) == Some(b) }
/// the zone's stream (what is held, then the new data padded to whole blocks) is cut at a stripe's end: what comes before goes to the disks, the rest is held
pub open spec fn written(v: VdevRaid, m0: Map<ZoneT, StripeBuffer>, m1: Map<ZoneT, StripeBuffer>, z: ZoneT, d: Seq<u8>, ops: Seq<Op>) -> bool {
    let all = m0[z].bytes() + padded(d); let k = all.len() - m1[z].bytes().len();
    &&& m1.dom() =~= m0.dom() && m1.remove(z) =~= m0.remove(z)
    &&& buf_ok(v, m1[z])
    &&& k >= 0 && k % v.stripe_bytes() == 0
    &&& m1[z].bytes() =~= all.subrange(k, all.len() as int)
    &&& m1[z].lba == m0[z].lba + k / 4096
    &&& covers(ops, m0[z].lba as int, all.subrange(0, k))
}
pub proof fn lemma_stripe(v: VdevRaid) requires v.wf() ensures v.stripe_bytes() == v.stripe_lbas() * 4096, v.stripe_bytes() / 4096 == v.stripe_lbas(), v.stripe_lbas() > 0, v.stripe_bytes() > 0, v.stripe_bytes() % 4096 == 0, (v.chunksize * 4096) * v.m() == v.stripe_bytes(), v.chunksize * v.m() == v.stripe_lbas()
{ assert(v.chunksize * v.m() == v.m() * v.chunksize) by (nonlinear_arith); let a = v.m(); let c = v.chunksize as int; assert(a * c * 4096 == (a * c) * 4096); assert(a * c > 0) by (nonlinear_arith) requires a > 0, c > 0; assert((c * 4096) * a == a * c * 4096) by (nonlinear_arith); }
pub proof fn lemma_add_mod(l: int, n: int, s: int) requires s > 0 ensures (l + n * s) % s == l % s, (n * s) % s == 0 { vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(n, l, s); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(n, s); assert(n * s + l == l + n * s); assert(s * n == n * s) by (nonlinear_arith); }
/// whole stripes in a length
pub proof fn lemma_whole(v: VdevRaid, len: int, n: int, lba: int) requires v.wf(), len >= 0, n == len / v.stripe_bytes()
    ensures n >= 0, 0 <= n * v.stripe_bytes() <= len, len - n * v.stripe_bytes() < v.stripe_bytes(), (n * v.stripe_bytes()) % v.stripe_bytes() == 0, (n * v.m()) * v.chunksize == n * v.stripe_lbas(), n * v.stripe_bytes() == (n * v.stripe_lbas()) * 4096, 0 <= n * v.m() <= n * v.stripe_lbas(), n * v.stripe_lbas() <= len / 4096,
        (lba + n * v.stripe_lbas()) % v.stripe_lbas() == lba % v.stripe_lbas(), n == 1 ==> n * v.stripe_bytes() == v.stripe_bytes(), (lba + n * v.stripe_lbas() + v.stripe_lbas()) % v.stripe_lbas() == lba % v.stripe_lbas()
{
    lemma_stripe(v); let s = v.stripe_bytes(); let sl = v.stripe_lbas(); let m = v.m(); let c = v.chunksize as int;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(len, s); vstd::arithmetic::div_mod::lemma_mod_bound(len, s); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(len, s);
    assert(s * n == n * s) by (nonlinear_arith); assert(n * s >= 0) by (nonlinear_arith) requires n >= 0, s > 0;
    lemma_add_mod(lba, n, sl); lemma_add_mod(0, n, s); lemma_add_mod(lba, n + 1, sl); assert((n + 1) * sl == n * sl + sl) by (nonlinear_arith); if n == 1 { assert(1 * s == s); }
    assert((n * m) * c == n * (m * c)) by (nonlinear_arith); assert(n * (sl * 4096) == (n * sl) * 4096) by (nonlinear_arith);
    assert(0 <= n * m <= (n * m) * c) by (nonlinear_arith) requires n >= 0, m > 0, c > 0;
}
pub open spec fn seg(p: bool, l: int, d: Seq<u8>) -> Seq<Op> { if p { seq![Op::Stripes(l, d)] } else { Seq::empty() } }
// what write_at makes of the bytes it is given: the stripe that is completed (a), whole stripes (w), a tail which padding makes a whole stripe (t), and what stays
pub open spec fn first_fill(v: VdevRaid, s0: StripeBuffer, d: Seq<u8>) -> bool { s0.bytes().len() > 0 || d.len() < v.stripe_bytes() }
pub open spec fn held1(v: VdevRaid, s0: StripeBuffer, d: Seq<u8>) -> Seq<u8> { if first_fill(v, s0, d) { s0.bytes() + padded(d.subrange(0, taken(s0, d))) } else { Seq::empty() } }
pub open spec fn pa(v: VdevRaid, s0: StripeBuffer, d: Seq<u8>) -> bool { held1(v, s0, d).len() == v.stripe_bytes() }
pub open spec fn seg_a(v: VdevRaid, s0: StripeBuffer, d: Seq<u8>) -> Seq<u8> { if pa(v, s0, d) { held1(v, s0, d) } else { Seq::empty() } }
pub open spec fn rest1(v: VdevRaid, s0: StripeBuffer, d: Seq<u8>) -> Seq<u8> { if first_fill(v, s0, d) { d.subrange(taken(s0, d), d.len() as int) } else { d } }
pub open spec fn nwhole(v: VdevRaid, s0: StripeBuffer, d: Seq<u8>) -> int { rest1(v, s0, d).len() as int / v.stripe_bytes() }
pub open spec fn seg_w(v: VdevRaid, s0: StripeBuffer, d: Seq<u8>) -> Seq<u8> { rest1(v, s0, d).subrange(0, nwhole(v, s0, d) * v.stripe_bytes()) }
pub open spec fn rest2(v: VdevRaid, s0: StripeBuffer, d: Seq<u8>) -> Seq<u8> { let r = rest1(v, s0, d); r.subrange(nwhole(v, s0, d) * v.stripe_bytes(), r.len() as int) }
pub open spec fn pt(v: VdevRaid, s0: StripeBuffer, d: Seq<u8>) -> bool { padded(rest2(v, s0, d)).len() == v.stripe_bytes() }
pub open spec fn seg_t(v: VdevRaid, s0: StripeBuffer, d: Seq<u8>) -> Seq<u8> { if pt(v, s0, d) { padded(rest2(v, s0, d)) } else { Seq::empty() } }
pub open spec fn kept(v: VdevRaid, s0: StripeBuffer, d: Seq<u8>) -> Seq<u8> { if rest1(v, s0, d).len() == 0 { if pa(v, s0, d) { Seq::empty() } else { held1(v, s0, d) } } else { if pt(v, s0, d) { Seq::empty() } else { padded(rest2(v, s0, d)) } } }
pub open spec fn the_ops(v: VdevRaid, s0: StripeBuffer, d: Seq<u8>) -> Seq<Op> {
    let l1 = s0.lba + seg_a(v, s0, d).len() / 4096; let p = rest1(v, s0, d).len() > 0;
    seg(pa(v, s0, d), s0.lba as int, seg_a(v, s0, d)) + seg(p && pt(v, s0, d), l1 + nwhole(v, s0, d) * v.stripe_lbas(), seg_t(v, s0, d)) + seg(p, l1, seg_w(v, s0, d))
}
pub proof fn lemma_padded(d: Seq<u8>) ensures padded(d).len() >= d.len(), padded(d).len() < d.len() + 4096, padded(d).len() % 4096 == 0, d.len() % 4096 == 0 ==> padded(d) == d, forall|t: int| 0 <= t <= d.len() && t % 4096 == 0 ==> padded(d) == d.subrange(0, t) + #[trigger] padded(d.subrange(t, d.len() as int))
{
    if d.len() % 4096 == 0 { assert(padded(d) =~= d); }
    assert forall|t: int| 0 <= t <= d.len() && t % 4096 == 0 implies padded(d) == d.subrange(0, t) + #[trigger] padded(d.subrange(t, d.len() as int)) by { assert(padded(d) =~= d.subrange(0, t) + padded(d.subrange(t, d.len() as int))); }
}
pub proof fn lemma_first(v: VdevRaid, s0: StripeBuffer, d: Seq<u8>) requires v.wf(), buf_ok(v, s0), d.len() > 0
    ensures s0.bytes() + padded(d) == held1(v, s0, d) + padded(rest1(v, s0, d)), held1(v, s0, d).len() <= v.stripe_bytes(), rest1(v, s0, d).len() > 0 ==> (pa(v, s0, d) || held1(v, s0, d).len() == 0), held1(v, s0, d).len() % 4096 == 0, pa(v, s0, d) && rest1(v, s0, d).len() > 0 ==> (d.len() - rest1(v, s0, d).len()) / 4096 * 4096 == v.stripe_bytes() - s0.bytes().len() && taken(s0, d) % 4096 == 0,
        (s0.lba + v.stripe_lbas()) % v.stripe_lbas() == 0, s0.bytes().len() == 0 ==> s0.bytes() == Seq::<u8>::empty()
{
    lemma_stripe(v); lemma_add_mod(s0.lba as int, 1, v.stripe_lbas()); let t = taken(s0, d);
    if s0.bytes().len() == 0 { assert(s0.bytes() =~= Seq::<u8>::empty()); }
    lemma_padded(d); lemma_padded(d.subrange(0, t));
    if first_fill(v, s0, d) {
        if t == d.len() { assert(d.subrange(0, t) =~= d); assert(padded(rest1(v, s0, d)) =~= Seq::<u8>::empty()); assert(held1(v, s0, d) + padded(rest1(v, s0, d)) =~= s0.bytes() + padded(d)); }
        else { assert(s0.bytes() + padded(d) =~= held1(v, s0, d) + padded(rest1(v, s0, d))); }
    } else { assert(s0.bytes() + padded(d) =~= held1(v, s0, d) + padded(rest1(v, s0, d))); }
}
pub proof fn lemma_seg_total(a: Seq<Op>, p: bool, l: int, d: Seq<u8>) ensures total(a + seg(p, l, d)) == total(a) + if p { d.len() as int } else { 0 }
{ if p { assert((a + seg(p, l, d)).drop_last() =~= a); } else { assert(a + seg(p, l, d) =~= a); } }
pub proof fn lemma_covers(lba: int, a: Seq<u8>, qa: bool, w: Seq<u8>, qw: bool, t: Seq<u8>, qt: bool)
    requires a.len() % 4096 == 0, w.len() % 4096 == 0, !qa ==> a.len() == 0, !qw ==> w.len() == 0, !qt ==> t.len() == 0
    ensures covers(seg(qa, lba, a) + seg(qt, lba + a.len() / 4096 + w.len() / 4096, t) + seg(qw, lba + a.len() / 4096, w), lba, a + w + t)
{
    let l1 = lba + a.len() as int / 4096; let l2 = l1 + w.len() as int / 4096; let sa = seg(qa, lba, a); let st = seg(qt, l2, t); let sw = seg(qw, l1, w); let s = sa + st + sw; let d = a + w + t;
    assert(Seq::<Op>::empty() + sa =~= sa); lemma_seg_total(Seq::empty(), qa, lba, a); lemma_seg_total(sa, qt, l2, t); lemma_seg_total(sa + st, qw, l1, w);
    assert forall|i: int| 0 <= i < d.len() implies wrote(s, lba * 4096 + i, #[trigger] d[i]) by {
        if i < a.len() { assert(s[0] == sa[0]); assert(at(s[0], lba * 4096 + i) == Some(d[i])); }
        else if i < a.len() + w.len() { let k = s.len() - 1; assert(s[k] == sw[0]); assert(at(s[k], lba * 4096 + i) == Some(d[i])); }
        else { let k = sa.len() as int; assert(s[k] == st[0]); assert(at(s[k], lba * 4096 + i) == Some(d[i])); }
    }
}
pub proof fn lemma_written(v: VdevRaid, m0: Map<ZoneT, StripeBuffer>, m1: Map<ZoneT, StripeBuffer>, z: ZoneT, d: Seq<u8>, ops: Seq<Op>)
    requires v.wf(), bufs_ok(v, m0), m0.dom().contains(z), d.len() > 0, m1.dom() =~= m0.dom(), m1.remove(z) =~= m0.remove(z), buf_ok(v, m1[z]), ops =~= the_ops(v, m0[z], d), m1[z].bytes() == kept(v, m0[z], d),
        m1[z].lba == m0[z].lba + seg_a(v, m0[z], d).len() / 4096 + if rest1(v, m0[z], d).len() > 0 { nwhole(v, m0[z], d) * v.stripe_lbas() + seg_t(v, m0[z], d).len() / 4096 } else { 0 }
    ensures written(v, m0, m1, z, d, ops)
{
    let s0 = m0[z]; let a = seg_a(v, s0, d); let w = seg_w(v, s0, d); let r1 = rest1(v, s0, d); let r2 = rest2(v, s0, d); let t = seg_t(v, s0, d); let n = nwhole(v, s0, d); let h = kept(v, s0, d); let s = v.stripe_bytes();
    lemma_stripe(v); lemma_first(v, s0, d); lemma_whole(v, r1.len() as int, n, 0); lemma_padded(r1); lemma_padded(r2); lemma_add_mod(0, n, s); lemma_add_mod(0, n + 1, s); lemma_add_mod(0, n + 2, s); lemma_add_mod(0, 1, s); lemma_add_mod(0, 0, s);
    let all = s0.bytes() + padded(d); let k = all.len() - h.len();
    assert((n + 1) * s == n * s + s) by (nonlinear_arith); assert((n + 2) * s == n * s + s + s) by (nonlinear_arith); assert(1 * s == s); 
    assert(s / 4096 * 4096 == s);
    if r1.len() == 0 {
        assert(padded(r1) =~= Seq::<u8>::empty()); assert(all =~= held1(v, s0, d));
        assert(n == 0) by { vstd::arithmetic::div_mod::lemma_small_mod(0, s as nat); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(0, s); }
        lemma_covers(s0.lba as int, a, pa(v, s0, d), Seq::empty(), false, Seq::empty(), false);
        assert(a + Seq::<u8>::empty() + Seq::<u8>::empty() =~= a);
        assert(the_ops(v, s0, d) =~= seg(pa(v, s0, d), s0.lba as int, a) + seg(false, s0.lba + a.len() as int / 4096 + 0, Seq::empty()) + seg(false, s0.lba + a.len() as int / 4096, Seq::empty()));
        assert(all =~= a + h); assert(all.subrange(0, k) =~= a); assert(all.subrange(k, all.len() as int) =~= h);
    } else {
        assert(w.len() as int == n * s); assert(w.len() as int / 4096 == n * v.stripe_lbas());
        assert(padded(r1) == w + padded(r2));
        assert(a =~= held1(v, s0, d));
        lemma_covers(s0.lba as int, a, pa(v, s0, d), w, true, t, pt(v, s0, d));
        assert(padded(r2) =~= t + h); assert(all =~= a + w + t + h);
        assert(all.subrange(0, k) =~= a + w + t); assert(all.subrange(k, all.len() as int) =~= h);
        assert((n * v.stripe_lbas()) * 4096 == n * s);
    }
}

/// the buffer holds some of these blocks (both ends included)
pub open spec fn hits(s: StripeBuffer, lba: int, end: int) -> bool { s.bytes().len() > 0 && lba < s.next() && end >= s.lba }
/// only one buffer does, and it holds everything from its start to the end of the read (a zone's blocks past its buffer have not been written)
pub open spec fn fits(m: Map<ZoneT, StripeBuffer>, lba: int, end: int) -> bool {
    &&& forall|z: ZoneT| #[trigger] m.dom().contains(z) && hits(m[z], lba, end) ==> end < m[z].next()
    &&& forall|y: ZoneT, z: ZoneT| #[trigger] m.dom().contains(y) && #[trigger] m.dom().contains(z) && hits(m[y], lba, end) && hits(m[z], lba, end) ==> y == z
}
/// what the buffer holds is copied from it, what comes before is read from the disks; otherwise everything is
pub open spec fn served(s: StripeBuffer, lba: int, pos: int, n: int, g0: Seq<Option<u8>>, g1: Seq<Option<u8>>, ops: Seq<Op>) -> bool {
    let d = if s.lba > lba { (s.lba - lba) * 4096 } else { 0 }; let from = if s.lba > lba { 0 } else { (lba - s.lba) * 4096 };
    &&& ops =~= if d > 0 { seq![Op::Read(lba, pos, d)] } else { Seq::empty() }
    &&& g1 =~= fill_at(g0, pos + d, s.bytes().subrange(from, from + n - d))
}
pub open spec fn fetched(m: Map<ZoneT, StripeBuffer>, lba: int, pos: int, n: int, g0: Seq<Option<u8>>, g1: Seq<Option<u8>>, ops: Seq<Op>) -> bool {
    &&& forall|z: ZoneT| #[trigger] m.dom().contains(z) && hits(m[z], lba, lba + n / 4096 - 1) ==> served(m[z], lba, pos, n, g0, g1, ops)
    &&& (forall|z: ZoneT| #[trigger] m.dom().contains(z) ==> !hits(m[z], lba, lba + n / 4096 - 1)) ==> ops =~= seq![Op::Read(lba, pos, n)] && g1 == g0
}
// ---- the property
/// everything written to the zone since its first block: what has been given to the disks, then what is held
pub open spec fn stored(v: VdevRaid, m: Map<ZoneT, StripeBuffer>, z: ZoneT, start: int, all: Seq<u8>) -> bool {
    let k = all.len() - m[z].bytes().len();
    m.dom().contains(z) && k >= 0 && k % v.stripe_bytes() == 0 && m[z].lba * 4096 == start * 4096 + k && m[z].bytes() =~= all.subrange(k, all.len() as int)
}
/// a write appends its data, padded to whole blocks; the disks are given exactly the next whole stripes of the stream, in their place
pub proof fn prop_b01_write(v: VdevRaid, m0: Map<ZoneT, StripeBuffer>, m1: Map<ZoneT, StripeBuffer>, z: ZoneT, d: Seq<u8>, ops: Seq<Op>, start: int, all: Seq<u8>)
    requires v.wf(), stored(v, m0, z, start, all), written(v, m0, m1, z, d, ops)
    ensures stored(v, m1, z, start, all + padded(d)), m1[z].bytes().len() < v.stripe_bytes(), forall|y: ZoneT| y != z ==> (m1.dom().contains(y) <==> m0.dom().contains(y)) && (m0.dom().contains(y) ==> #[trigger] m1[y] == m0[y]),
        covers(ops, m0[z].lba as int, (all + padded(d)).subrange(all.len() - m0[z].bytes().len(), (all + padded(d)).len() - m1[z].bytes().len()))
{
    lemma_stripe(v); let s = v.stripe_bytes(); let x = all + padded(d); let k0 = all.len() - m0[z].bytes().len(); let here = m0[z].bytes() + padded(d); let k = here.len() - m1[z].bytes().len();
    assert(x.subrange(k0, x.len() as int) =~= here); assert(x.subrange(k0, k0 + k) =~= here.subrange(0, k)); assert(x.subrange(k0 + k, x.len() as int) =~= here.subrange(k, here.len() as int));
    vstd::arithmetic::div_mod::lemma_add_mod_noop(k0, k, s); vstd::arithmetic::div_mod::lemma_small_mod(0, s as nat);
    assert(k % 4096 == 0) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, s); let q = k / s; assert(s * q == 4096 * (v.stripe_lbas() * q)) by (nonlinear_arith) requires s == v.stripe_lbas() * 4096; assert((4096 * (v.stripe_lbas() * q)) % 4096 == 0); }
    assert forall|y: ZoneT| y != z implies (m1.dom().contains(y) <==> m0.dom().contains(y)) && (m0.dom().contains(y) ==> #[trigger] m1[y] == m0[y]) by { if m0.dom().contains(y) { assert(m1.remove(z)[y] == m0.remove(z)[y]); } }
}
/// a flush appends zeros up to a stripe's end and gives the disks that stripe
pub proof fn prop_b01_flush(v: VdevRaid, m0: Map<ZoneT, StripeBuffer>, m1: Map<ZoneT, StripeBuffer>, z: ZoneT, pad: int, ops: Seq<Op>, start: int, all: Seq<u8>)
    requires v.wf(), bufs_ok(v, m0), stored(v, m0, z, start, all), flushed(v, m0, m1, z, pad, ops)
    ensures stored(v, m1, z, start, all + zeros(pad * 4096)), m1[z].bytes().len() == 0, m0[z].bytes().len() > 0 ==> ops =~= seq![Op::Stripes(m0[z].lba as int, (all + zeros(pad * 4096)).subrange(all.len() - m0[z].bytes().len(), all.len() + pad * 4096))], m0[z].bytes().len() == 0 ==> ops.len() == 0
{
    lemma_stripe(v); let s = v.stripe_bytes(); let x = all + zeros(pad * 4096); let k0 = all.len() - m0[z].bytes().len();
    if m0[z].bytes().len() > 0 {
        assert(m0[z].bytes() + zeros(pad * 4096) =~= x.subrange(k0, all.len() + pad * 4096)); lemma_add_mod(k0, 1, s); assert(m1[z].bytes() =~= x.subrange(x.len() as int, x.len() as int));
    } else { assert(zeros(0) =~= Seq::<u8>::empty()); assert(x =~= all); }
}
/// a read of what was written: each byte comes either from the buffer, and is the byte written, or from blocks that were given to the disks
pub proof fn prop_b01_read(v: VdevRaid, m: Map<ZoneT, StripeBuffer>, z: ZoneT, start: int, all: Seq<u8>, lba: int, pos: int, n: int, g0: Seq<Option<u8>>, g1: Seq<Option<u8>>, ops: Seq<Op>, i: int)
    requires v.wf(), bufs_ok(v, m), stored(v, m, z, start, all), fetched(m, lba, pos, n, g0, g1, ops), n > 0, n % 4096 == 0, start <= lba, lba + n / 4096 <= start + all.len() / 4096, 0 <= pos, pos + n <= g0.len(), 0 <= i < n, all.len() % 4096 == 0,
        forall|y: ZoneT| #[trigger] m.dom().contains(y) && y != z ==> !hits(m[y], lba, lba + n / 4096 - 1)
    ensures g1[pos + i] == Some(all[(lba - start) * 4096 + i]) || (ops.len() == 1 && ops[0] is Read && ops[0]->Read_0 == lba && ops[0]->Read_1 == pos && i < ops[0]->Read_2 && lba * 4096 + i < m[z].lba * 4096), ops.len() <= 1
{
    let s = m[z]; let end = lba + n / 4096 - 1;
    if hits(s, lba, end) { assert(served(s, lba, pos, n, g0, g1, ops)); }
    else { assert forall|y: ZoneT| #[trigger] m.dom().contains(y) implies !hits(m[y], lba, end) by {} }
}
