pub open spec fn flat(s: Seq<IoVec>) -> Seq<u8> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last()@ } }
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
/// bytes waiting in the accumulator after a list
pub open spec fn acc(s: Seq<IoVec>) -> int decreases s.len()
{
    if s.len() == 0 { 0 } else {
        let p = acc(s.drop_last()); let l = s.last()@.len() as int;
        if p > 0 { if (p + l) % 4096 == 0 { 0 } else { p + l } } else { l % 4096 }
    }
}
pub open spec fn acc_seq(a: Option<Vec<u8>>) -> Option<Seq<u8>> { if a is Some { Some(a->0@) } else { None } }
pub open spec fn acc_bytes(a: Option<Seq<u8>>) -> Seq<u8> { if a is Some { a->0 } else { Seq::empty() } }
pub open spec fn allwhole(s: Seq<IoVec>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@.len() % 4096 == 0 }
/// the loop invariant: what was emitted, then what is waiting, is what was consumed
#[verifier::opaque]
pub open spec fn inv(s: Seq<IoVec>, i: int, out: Seq<IoVec>, a: Option<Seq<u8>>) -> bool {
    &&& 0 <= i <= s.len()
    &&& allwhole(out)
    &&& (a is Some <==> acc(s.take(i)) > 0)
    &&& (a is Some ==> a->0.len() == acc(s.take(i)) && a->0.len() % 4096 != 0)
    &&& flat(out) + acc_bytes(a) == flat(s.take(i))
}
pub proof fn lemma_take(s: Seq<IoVec>, i: int) requires 0 <= i < s.len()
    ensures s.take(i + 1).drop_last() == s.take(i), s.take(i + 1).last() == s[i], flat(s.take(i + 1)) == flat(s.take(i)) + s[i]@,
        flat(s.take(i + 1)).len() <= flat(s).len()
{
    assert(s.take(i + 1).drop_last() == s.take(i));
    lemma_flat_le(s, i + 1);
}
pub proof fn lemma_flat_le(s: Seq<IoVec>, i: int) requires 0 <= i <= s.len() ensures flat(s.take(i)).len() <= flat(s).len() decreases s.len() - i
{
    if i == s.len() { assert(s.take(i) == s); } else { lemma_flat_le(s, i + 1); assert(s.take(i + 1).drop_last() == s.take(i)); }
}
pub proof fn lemma_mask(n: int) requires 0 <= n <= usize::MAX ensures (n as usize) & !(4095usize) == n - n % 4096
{
    let m = n as u64;
    assert(m & !(4095u64) == m - m % 4096) by (bit_vector);
    assert((n as usize) & !(4095usize) == ((n as u64) & !(4095u64)) as usize) by { 
       let u = n as usize; assert((u & !(4095usize)) as u64 == (u as u64) & !(4095u64)) by (bit_vector); }
}
pub proof fn lemma_mask_all() ensures forall|n: usize| #[trigger] (n & !(4095usize)) == n - n % 4096
{ assert forall|n: usize| #[trigger] (n & !(4095usize)) == n - n % 4096 by { lemma_mask(n as int); } }
pub proof fn lemma_push_all(s: Seq<IoVec>) ensures forall|b: IoVec| flat(#[trigger] s.push(b)) == flat(s) + b@
{ assert forall|b: IoVec| flat(#[trigger] s.push(b)) == flat(s) + b@ by { assert(s.push(b).drop_last() == s); } }


pub proof fn lemma_inv0(s: Seq<IoVec>, out: Seq<IoVec>) requires out.len() == 0 ensures inv(s, 0, out, None)
{ reveal(inv); assert(s.take(0).len() == 0); assert(flat(out) + Seq::<u8>::empty() =~= flat(s.take(0))); }
pub proof fn lemma_acc1(s: Seq<IoVec>, i: int) requires 0 <= i < s.len() ensures
    acc(s.take(i + 1)) == (if acc(s.take(i)) > 0 { if (acc(s.take(i)) + s[i]@.len()) % 4096 == 0 { 0 } else { acc(s.take(i)) + s[i]@.len() } } else { s[i]@.len() as int % 4096 })
{ assert(s.take(i + 1).drop_last() == s.take(i)); }
pub proof fn lemma_t1(s: Seq<IoVec>, i: int, out: Seq<IoVec>, b: IoVec)
    requires inv(s, i, out, None), 0 <= i < s.len(), s[i]@.len() % 4096 == 0, b@ == s[i]@
    ensures inv(s, i + 1, out.push(b), None)
{
    reveal(inv); lemma_take(s, i); lemma_acc1(s, i); lemma_push_all(out);
    assert(flat(out) + Seq::<u8>::empty() =~= flat(out)); assert(flat(out.push(b)) + Seq::<u8>::empty() =~= flat(out.push(b)));
}
pub proof fn lemma_t2(s: Seq<IoVec>, i: int, out: Seq<IoVec>, a: Seq<u8>, b: IoVec)
    requires inv(s, i, out, Some(a)), 0 <= i < s.len(), (a + s[i]@).len() % 4096 == 0, b@ == a + s[i]@
    ensures inv(s, i + 1, out.push(b), None)
{
    reveal(inv); lemma_take(s, i); lemma_acc1(s, i); lemma_push_all(out);
    assert((flat(out) + a) + s[i]@ =~= flat(out) + (a + s[i]@)); assert(flat(out.push(b)) + Seq::<u8>::empty() =~= flat(out.push(b)));
}
pub proof fn lemma_t3(s: Seq<IoVec>, i: int, out: Seq<IoVec>, a: Seq<u8>)
    requires inv(s, i, out, Some(a)), 0 <= i < s.len(), (a + s[i]@).len() % 4096 != 0
    ensures inv(s, i + 1, out, Some(a + s[i]@))
{
    reveal(inv); lemma_take(s, i); lemma_acc1(s, i);
    assert((flat(out) + a) + s[i]@ =~= flat(out) + (a + s[i]@));
}
pub proof fn lemma_t4(s: Seq<IoVec>, i: int, out: Seq<IoVec>)
    requires inv(s, i, out, None), 0 <= i < s.len(), s[i]@.len() % 4096 != 0, s[i]@.len() < 4096
    ensures inv(s, i + 1, out, Some(s[i]@))
{
    reveal(inv); lemma_take(s, i); lemma_acc1(s, i);
    assert(flat(out) + Seq::<u8>::empty() =~= flat(out));
}
pub proof fn lemma_t5(s: Seq<IoVec>, i: int, out: Seq<IoVec>, k: int, b: IoVec)
    requires inv(s, i, out, None), 0 <= i < s.len(), s[i]@.len() % 4096 != 0, s[i]@.len() > 4096, k == s[i]@.len() - s[i]@.len() % 4096, b@ == s[i]@.subrange(0, k)
    ensures inv(s, i + 1, out.push(b), Some(s[i]@.subrange(k, s[i]@.len() as int)))
{
    reveal(inv); lemma_take(s, i); lemma_acc1(s, i); lemma_push_all(out);
    let d = s[i]@;
    assert(flat(out) + Seq::<u8>::empty() =~= flat(out));
    assert((flat(out) + d.subrange(0, k)) + d.subrange(k, d.len() as int) =~= flat(out) + d);
}
pub proof fn lemma_step(s: Seq<IoVec>, i: int, out: Seq<IoVec>, a: Option<Seq<u8>>)
    requires inv(s, i, out, a), 0 <= i < s.len()
    ensures
        // the ways on
        a is None && s[i]@.len() % 4096 == 0 ==> forall|b: IoVec| b@ == s[i]@ ==> inv(s, i + 1, #[trigger] out.push(b), None),
        a is Some && (a->0 + s[i]@).len() % 4096 == 0 ==> forall|b: IoVec| b@ == a->0 + s[i]@ ==> inv(s, i + 1, #[trigger] out.push(b), None),
        a is Some && (a->0 + s[i]@).len() % 4096 != 0 ==> inv(s, i + 1, out, Some(a->0 + s[i]@)),
        a is None && s[i]@.len() % 4096 != 0 && s[i]@.len() < 4096 ==> inv(s, i + 1, out, Some(s[i]@)),
        a is None && s[i]@.len() % 4096 != 0 && s[i]@.len() > 4096 ==> forall|b: IoVec| b@ == s[i]@.subrange(0, s[i]@.len() - s[i]@.len() % 4096)
            ==> inv(s, i + 1, #[trigger] out.push(b), Some(s[i]@.subrange(s[i]@.len() - s[i]@.len() % 4096, s[i]@.len() as int))),
{
    reveal(inv);
    if a is None && s[i]@.len() % 4096 == 0 { assert forall|b: IoVec| b@ == s[i]@ implies inv(s, i + 1, #[trigger] out.push(b), None) by { lemma_t1(s, i, out, b); } }
    if a is Some {
        if (a->0 + s[i]@).len() % 4096 == 0 { assert forall|b: IoVec| b@ == a->0 + s[i]@ implies inv(s, i + 1, #[trigger] out.push(b), None) by { lemma_t2(s, i, out, a->0, b); } }
        else { lemma_t3(s, i, out, a->0); }
    } else if s[i]@.len() % 4096 != 0 {
        if s[i]@.len() < 4096 { lemma_t4(s, i, out); }
        else {
            let k = s[i]@.len() - s[i]@.len() % 4096;
            assert forall|b: IoVec| b@ == s[i]@.subrange(0, k) implies inv(s, i + 1, #[trigger] out.push(b), Some(s[i]@.subrange(k, s[i]@.len() as int))) by { lemma_t5(s, i, out, k, b); }
        }
    }
}
/// what S03 says of the result
#[verifier::opaque]
pub open spec fn padded(s: Seq<IoVec>, out: Seq<IoVec>) -> bool {
    &&& allwhole(out)
    &&& 0 <= flat(out).len() - flat(s).len() < 4096
    &&& flat(out) == flat(s) + zeros(flat(out).len() - flat(s).len())
    &&& allwhole(s) ==> out == s
}
pub proof fn lemma_padded_self(s: Seq<IoVec>) requires allwhole(s) ensures padded(s, s)
{ reveal(padded); assert(flat(s) + zeros(0) =~= flat(s)); }
pub proof fn lemma_acc_small(s: Seq<IoVec>) ensures 0 <= acc(s), acc(s) <= flat(s).len() decreases s.len()
{ if s.len() > 0 { let d = s.drop_last(); lemma_acc_small(d); let l = s.last()@.len() as int; assert(flat(s).len() == flat(d).len() + l); lemma_small_rem(l); } }
proof fn lemma_small_rem(l: int) requires l >= 0 ensures 0 <= l % 4096 <= l {}
/// out, followed by one more buffer with bytes c, pads s
#[verifier::opaque]
pub open spec fn padded_with(s: Seq<IoVec>, out: Seq<IoVec>, c: Seq<u8>) -> bool { forall|b: IoVec| b@ == c ==> padded(s, #[trigger] out.push(b)) }
pub proof fn lemma_use(s: Seq<IoVec>, out: Seq<IoVec>, c: Seq<u8>, b: IoVec) requires padded_with(s, out, c), b@ == c ensures padded(s, out.push(b)) { reveal(padded_with); }
pub proof fn lemma_end(s: Seq<IoVec>, out: Seq<IoVec>, a: Option<Seq<u8>>)
    requires inv(s, s.len() as int, out, a), !allwhole(s)
    ensures
        a is Some ==> 0 < a->0.len() <= flat(s).len(),
        a is None ==> padded(s, out),
{
    reveal(inv); reveal(padded);
    assert(s.take(s.len() as int) == s);
    lemma_acc_small(s);
    let o = flat(out);
    if a is None { assert(o + Seq::<u8>::empty() =~= o); assert(o + zeros(0) =~= o); }
}
pub proof fn lemma_padded_with(s: Seq<IoVec>, out: Seq<IoVec>, a: Seq<u8>, l: int)
    requires inv(s, s.len() as int, out, Some(a)), !allwhole(s), a.len() <= l < a.len() + 4096, l % 4096 == 0
    ensures padded_with(s, out, a + zeros(l - a.len()))
{
    reveal(inv); reveal(padded); reveal(padded_with);
    assert(s.take(s.len() as int) == s);
    lemma_push_all(out);
    let o = flat(out); let n = l - a.len();
    assert forall|b: IoVec| b@ == a + zeros(n) implies padded(s, #[trigger] out.push(b)) by {
        assert(o + (a + zeros(n)) =~= (o + a) + zeros(n));
        assert forall|j: int| 0 <= j < out.push(b).len() implies (#[trigger] out.push(b)[j])@.len() % 4096 == 0 by { if j < out.len() { assert(out.push(b)[j] == out[j]); } }
    }
}
pub proof fn lemma_ceil(n: int) requires n >= 0 ensures n <= (n + 4095) / 4096 * 4096 < n + 4096, ((n + 4095) / 4096 * 4096) % 4096 == 0 {}

pub open spec fn total<T: Deref>(s: Seq<T>) -> int decreases s.len()
{ if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last().bytes().len() } }
pub proof fn lemma_total0<T: Deref>(s: Seq<T>) ensures total(s.take(0)) == 0 {}
pub proof fn lemma_total<T: Deref>(s: Seq<T>, i: int) requires 0 <= i < s.len()
    ensures total(s.take(i + 1)) == total(s.take(i)) + s[i].bytes().len(), total(s.take(i + 1)) <= total(s) decreases s.len() - i
{
    assert(s.take(i + 1).drop_last() == s.take(i));
    if i + 1 < s.len() { lemma_total(s, i + 1); assert(s.take(i + 2).drop_last() == s.take(i + 1)); } else { assert(s.take(i + 1) == s); }
}
pub proof fn lemma_zero_bufs(n: int, z: int) requires n > 0, z > 0
    ensures 0 < n - ((n + z - 1) / z - 1) * z <= z, (n + z - 1) / z >= 1, ((n + z - 1) / z - 1) * z < n
{
    let q = (n + z - 1) / z;
    assert(n + z - 1 == q * z + (n + z - 1) % z && 0 <= (n + z - 1) % z < z) by (nonlinear_arith) requires z > 0, q == (n + z - 1) / z;
    assert((q - 1) * z == q * z - z) by (nonlinear_arith);
    assert(q >= 1) by (nonlinear_arith) requires q * z > 0, z > 0, q * z == n + z - 1 - (n + z - 1) % z;
}
pub proof fn lemma_zeros_add(c: int, z: int) requires c >= 0, z >= 0 ensures zeros(c * z) + zeros(z) == zeros((c + 1) * z)
{
    assert((c + 1) * z == c * z + z && c * z >= 0) by (nonlinear_arith) requires c >= 0, z >= 0;
    assert(zeros(c * z) + zeros(z) =~= zeros((c + 1) * z));
}
pub proof fn lemma_zeros_sub() ensures forall|z: int, k: int| 0 <= k <= z ==> #[trigger] zeros(z).subrange(0, k) == zeros(k)
{ assert forall|z: int, k: int| 0 <= k <= z implies #[trigger] zeros(z).subrange(0, k) == zeros(k) by { assert(zeros(z).subrange(0, k) =~= zeros(k)); } }
