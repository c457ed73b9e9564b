// ---- bytes of a big-endian word
pub open spec fn be8(x: u64) -> Seq<u8> { seq![(x >> 56) as u8, ((x >> 48) & 0xff) as u8, ((x >> 40) & 0xff) as u8, ((x >> 32) & 0xff) as u8, ((x >> 24) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 8) & 0xff) as u8, (x & 0xff) as u8] }
pub open spec fn unbe(s: Seq<u8>) -> u64 {
    (s[0] as u64) << 56 | (s[1] as u64) << 48 | (s[2] as u64) << 40 | (s[3] as u64) << 32 | (s[4] as u64) << 24 | (s[5] as u64) << 16 | (s[6] as u64) << 8 | (s[7] as u64)
}
proof fn lemma_unbe(x: u64) ensures unbe(be8(x)) == x, be8(x).len() == 8 {
    assert(((((x >> 56) as u8) as u64) << 56 | (((x >> 48) & 0xff) as u8 as u64) << 48 | (((x >> 40) & 0xff) as u8 as u64) << 40 | (((x >> 32) & 0xff) as u8 as u64) << 32 | (((x >> 24) & 0xff) as u8 as u64) << 24 | (((x >> 16) & 0xff) as u8 as u64) << 16 | (((x >> 8) & 0xff) as u8 as u64) << 8 | ((x & 0xff) as u8 as u64)) == x) by (bit_vector);
}
proof fn lemma_be(s: Seq<u8>) requires s.len() == 8 ensures be8(unbe(s)) == s {
    let (a, b, c, d, e, f, g, h) = (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]);
    let x = unbe(s);
    assert(x == (a as u64) << 56 | (b as u64) << 48 | (c as u64) << 40 | (d as u64) << 32 | (e as u64) << 24 | (f as u64) << 16 | (g as u64) << 8 | (h as u64));
    assert((x >> 56) as u8 == a && ((x >> 48) & 0xff) as u8 == b && ((x >> 40) & 0xff) as u8 == c && ((x >> 32) & 0xff) as u8 == d && ((x >> 24) & 0xff) as u8 == e && ((x >> 16) & 0xff) as u8 == f && ((x >> 8) & 0xff) as u8 == g && (x & 0xff) as u8 == h) by (bit_vector)
        requires x == (a as u64) << 56 | (b as u64) << 48 | (c as u64) << 40 | (d as u64) << 32 | (e as u64) << 24 | (f as u64) << 16 | (g as u64) << 8 | (h as u64);
    assert(be8(x) =~= s);
}
/// the checksum of a stream of bytes (MetroHash64)
pub uninterp spec fn metro(s: Seq<u8>) -> u64;
/// the magic number, sum, length and contents of a label as they lie on disk
spec fn magic() -> Seq<u8> { MAGIC@ }
spec fn sum_of(b: Seq<u8>) -> u64 { unbe(b.subrange(16, 24)) }
spec fn len_of(b: Seq<u8>) -> u64 { unbe(b.subrange(24, 32)) }
spec fn contents_of(b: Seq<u8>) -> Seq<u8> { b.subrange(32, 32 + len_of(b)) }
spec fn wellformed(b: Seq<u8>) -> bool { b.len() >= 32 && b.subrange(0, 16) == magic() && 32 + len_of(b) <= b.len() }
/// a label is intact when it is complete and its checksum covers its length and contents
spec fn intact(b: Seq<u8>) -> bool { wellformed(b) && sum_of(b) == metro(be8(len_of(b)) + contents_of(b)) }
spec fn encoded(contents: Seq<u8>) -> Seq<u8> { magic() + be8(metro(be8(contents.len() as u64) + contents)) + be8(contents.len() as u64) + contents }
pub open spec fn cat(s: Seq<IoVec>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last().bytes() } }
/// what was serialized, the last first
pub open spec fn stacked(s: Seq<IoVec>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { s.last().bytes() + stacked(s.drop_last()) } }
pub open spec fn rev(s: Seq<IoVec>) -> Seq<IoVec> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
proof fn lemma_cat_cons(x: IoVec, s: Seq<IoVec>) ensures cat(seq![x] + s) == x.bytes() + cat(s) decreases s.len() {
    let t = seq![x] + s;
    if s.len() == 0 { assert(t.drop_last() =~= Seq::empty()); assert(t.last() == x); assert(cat(t.drop_last()) =~= Seq::<u8>::empty()); assert(cat(t) =~= x.bytes() + cat(s)); }
    else { lemma_cat_cons(x, s.drop_last()); assert(t.drop_last() =~= seq![x] + s.drop_last()); assert(cat(t) =~= x.bytes() + cat(s)); }
}
proof fn lemma_rev(s: Seq<IoVec>) ensures cat(rev(s)) == stacked(s) decreases s.len() {
    if s.len() > 0 {
        lemma_rev(s.drop_last());
        assert(rev(s) =~= seq![s.last()] + rev(s.drop_last()));
        lemma_cat_cons(s.last(), rev(s.drop_last()));
    } else { assert(rev(s) =~= Seq::empty()); }
}
spec fn total(s: Seq<IoVec>) -> int { cat(s).len() as int }
proof fn lemma_total(s: Seq<IoVec>, i: int) requires 0 <= i < s.len() ensures total(s.take(i + 1)) == total(s.take(i)) + s[i].bytes().len(), total(s.take(i + 1)) <= total(s) decreases s.len() {
    assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]);
    lemma_total_mono(s, i + 1);
}
proof fn lemma_total_mono(s: Seq<IoVec>, i: int) requires 0 <= i <= s.len() ensures total(s.take(i)) <= total(s) decreases s.len() {
    if i < s.len() { lemma_total_mono(s.drop_last(), i); assert(s.drop_last().take(i) =~= s.take(i)); } else { assert(s.take(i) =~= s); }
}
proof fn lemma_cat_add(a: Seq<IoVec>, b: Seq<IoVec>) ensures cat(a + b) == cat(a) + cat(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); assert(cat(a) + cat(b) =~= cat(a)); }
    else { lemma_cat_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); assert(cat(a) + cat(b) =~= cat(a) + cat(b.drop_last()) + b.last().bytes()); }
}
/// a label that was encoded is intact, whatever follows it on disk
proof fn lemma_encoded(c: Seq<u8>, pad: Seq<u8>) requires c.len() <= u64::MAX, magic().len() == 16
    ensures intact(encoded(c) + pad), contents_of(encoded(c) + pad) == c, len_of(encoded(c) + pad) == c.len(), (encoded(c) + pad).subrange(32, (encoded(c) + pad).len() as int) == c + pad
{
    let b = encoded(c) + pad; let n = c.len() as u64; let m = metro(be8(n) + c);
    lemma_unbe(n); lemma_unbe(m);
    assert(b.subrange(0, 16) =~= magic());
    assert(b.subrange(16, 24) =~= be8(m));
    assert(b.subrange(24, 32) =~= be8(n));
    assert(b.subrange(32, 32 + n) =~= c);
    assert(b.subrange(32, b.len() as int) =~= c + pad);
}
/// corruption: a label that is still accepted after its bytes changed has either the same length and contents, or
/// a checksum that matches the other contents too (a collision of the hash, or a forged checksum)
proof fn lemma_corrupt(a: Seq<u8>, b: Seq<u8>) requires intact(a), intact(b)
    ensures (len_of(a) == len_of(b) && contents_of(a) == contents_of(b))
        || (be8(len_of(a)) + contents_of(a) != be8(len_of(b)) + contents_of(b) && (sum_of(a) != sum_of(b) || metro(be8(len_of(a)) + contents_of(a)) == metro(be8(len_of(b)) + contents_of(b))))
{
    let (x, y) = (be8(len_of(a)) + contents_of(a), be8(len_of(b)) + contents_of(b));
    lemma_unbe(len_of(a)); lemma_unbe(len_of(b));
    if x == y {
        assert(x.subrange(0, 8) =~= be8(len_of(a))); assert(y.subrange(0, 8) =~= be8(len_of(b)));
        assert(x.subrange(8, x.len() as int) =~= contents_of(a)); assert(y.subrange(8, y.len() as int) =~= contents_of(b));
    }
}
proof fn lemma_magic() ensures magic().len() == 16 {}
/// the disk address, in bytes, of a label, and what a read of it yields
spec fn label_at(j: int) -> int { j * 4 * 4096 }
spec fn label_of(f: fs::File, j: int) -> Option<Seq<u8>> { f.area(label_at(j), LABEL_SIZE as int) }
spec fn good(f: fs::File, j: int) -> bool { label_of(f, j) is Some && intact(label_of(f, j)->0) }
proof fn lemma_two(s: Seq<IoVec>, a: Seq<u8>, b: Seq<u8>) requires s.len() == 2, s[1].bytes() == a, s[0].bytes() == b ensures stacked(s) == a + b {
    reveal_with_fuel(stacked, 3); assert(s.drop_last().drop_last() =~= Seq::empty()); assert(stacked(s) =~= a + b);
}
#[verifier::external_body] fn vp_disk(s: &Vec<IoVec>, Ghost(pad): Ghost<Seq<u8>>) -> (r: Vec<u8>) ensures r@ == cat(s@) + pad { unimplemented!() }
