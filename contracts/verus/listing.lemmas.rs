// ---- the listing: which entries, in which order, each with the cookie that continues right behind it
pub open spec fn cur_off(x: u64) -> u64 { x >> 8u64 }
pub open spec fn cur_idx(x: u64) -> u8 { (x & 0xff) as u8 }
pub open spec fn cursor(off: u64, idx: int) -> u64 { (off << 8u64) | (idx as u64) }
/// entries of a bucket of which some have been shown: the rest, from the end
pub open spec fn bucket_rest(b: Seq<Dirent>, kofs: u64, returned: int) -> Seq<(Dirent, u64)> {
    Seq::new(b.len(), |j: int| (b[b.len() - 1 - j], if j == b.len() - 1 { cursor((kofs + 1) as u64, 0) } else { cursor(kofs, returned + j + 1) }))
}
pub open spec fn entries(x: (FSKey, FSValue), skip: int) -> Seq<(Dirent, u64)> {
    match x.1 {
        FSValue::DirEntry(d) => seq![(d, cursor((x.0.off() + 1) as u64, 0))],
        FSValue::DirEntries(v) => if skip < v@.len() { bucket_rest(v@.take(v@.len() - skip), x.0.off(), skip) } else { seq![] },
        FSValue::Other => seq![],
    }
}
pub open spec fn list(s: Items) -> Seq<(Dirent, u64)> decreases s.len() { if s.len() == 0 { seq![] } else { entries(s[0], 0) + list(s.drop_first()) } }
/// the part of the tree's items at or behind an offset
pub open spec fn at(s: Items, off: u64) -> Items decreases s.len() { if s.len() == 0 { s } else if s[0].0.off() < off { at(s.drop_first(), off) } else { s } }
/// the listing of items of which the first, if it is at that offset, is shown in part
pub open spec fn list_skip(s: Items, off: u64, skip: int) -> Seq<(Dirent, u64)> { if s.len() > 0 && s[0].0.off() == off { entries(s[0], skip) + list(s.drop_first()) } else { list(s) } }
/// what a listing continued from a cookie shows
pub open spec fn list_from(s: Items, c: u64) -> Seq<(Dirent, u64)> { list_skip(at(s, cur_off(c)), cur_off(c), cur_idx(c) as int) }
/// a directory: sorted by hash, buckets of two to 255 entries, no name with the highest hash
pub open spec fn good(s: Items) -> bool {
    (forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i].0.off() < #[trigger] s[j].0.off())
    && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.off() < 0xff_ffff_ffff_ffff && ok_value(s[i].1))
}
pub open spec fn ok_value(v: FSValue) -> bool { match v { FSValue::DirEntry(_) => true, FSValue::DirEntries(b) => 0 < b@.len() <= 255, FSValue::Other => false } }
pub open spec fn shows(d: LibcDirent, x: (Dirent, u64)) -> bool { d.of@ == x.0 && d.d_off == x.1 as i64 }
impl ReaddirStream {
    pub open spec fn inv(&self) -> bool { good(self.rq@) && (forall|i: int| 0 <= i < self.rq@.len() ==> (#[trigger] self.rq@[i]).0.off() >= self.offset) && (self.bucketing matches Some(b) ==> 0 < b.bucket@.len() && b.returned + b.bucket@.len() <= 255 && b.kofs < 0xff_ffff_ffff_ffff) }
    /// what this stream has still to show
    pub open spec fn rest(&self) -> Seq<(Dirent, u64)> { (match self.bucketing { Some(b) => bucket_rest(b.bucket@, b.kofs, b.returned as int), None => seq![] }) + list_skip(self.rq@, self.offset, self.bucket_idx as int) }
}
pub open spec fn same_skip(a: ReaddirStream, b: ReaddirStream) -> bool { a.offset == b.offset && a.bucket_idx == b.bucket_idx }

pub proof fn lemma_pop(b: Seq<Dirent>, kofs: u64, ret: int)
    requires b.len() > 0
    ensures bucket_rest(b, kofs, ret).len() == b.len(), bucket_rest(b, kofs, ret)[0] == (b.last(), if b.len() == 1 { cursor((kofs + 1) as u64, 0) } else { cursor(kofs, ret + 1) }),
        bucket_rest(b, kofs, ret).drop_first() =~= bucket_rest(b.drop_last(), kofs, ret + 1), b.len() == 1 ==> bucket_rest(b, kofs, ret).drop_first() =~= seq![]
{}
/// one step of the tree's stream
pub proof fn lemma_step(s: Items, off: u64, skip: int)
    requires good(s), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.off() >= off, 0 <= skip
    ensures s.len() > 0 ==> good(s.drop_first()) && (forall|i: int| 0 <= i < s.drop_first().len() ==> (#[trigger] s.drop_first()[i]).0.off() > s[0].0.off())
            && list_skip(s, off, skip) == entries(s[0], if s[0].0.off() == off { skip } else { 0 }) + list(s.drop_first())
            && (forall|k: int| #[trigger] list_skip(s.drop_first(), off, k) == list(s.drop_first())),
        s.len() == 0 ==> list_skip(s, off, skip) == Seq::<(Dirent, u64)>::empty()
{
    if s.len() > 0 {
        let t = s.drop_first();
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).0.off() > s[0].0.off() && t[i].0.off() < 0xff_ffff_ffff_ffff && ok_value(t[i].1) by { assert(t[i] == s[i + 1]); }
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] t[i].0.off() < #[trigger] t[j].0.off() by { assert(t[i] == s[i + 1] && t[j] == s[j + 1]); }
    }
}
pub proof fn lemma_cursor(o: u64, i: int)
    requires o < 0x100_0000_0000_0000, 0 <= i <= 255
    ensures cur_off(cursor(o, i)) == o, cur_idx(cursor(o, i)) as int == i
{
    let k = i as u64;
    assert(((o << 8u64) | k) >> 8u64 == o && (((o << 8u64) | k) & 0xff) == k) by (bit_vector) requires o < 0x100_0000_0000_0000, k <= 255;
}
pub proof fn lemma_at(s: Items, off: u64)
    requires good(s)
    ensures good(at(s, off)), forall|i: int| 0 <= i < at(s, off).len() ==> (#[trigger] at(s, off)[i]).0.off() >= off
    decreases s.len()
{
    if s.len() > 0 {
        lemma_step(s, 0, 0);
        if s[0].0.off() < off { lemma_at(s.drop_first(), off); }
        else { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0.off() >= off by { if i > 0 { assert(s[0].0.off() < s[i].0.off()); } } }
    }
}
/// every cookie of a listing lies at or behind its first item
pub proof fn lemma_cookies(s: Items, i: int)
    requires good(s), 0 <= i < list(s).len()
    ensures s.len() > 0, cur_off(list(s)[i].1) >= s[0].0.off()
    decreases s.len()
{
    lemma_step(s, 0, 0);
    let e = entries(s[0], 0); let k = s[0].0.off();
    assert(ok_value(s[0].1));
    if i < e.len() {
        assert(list(s)[i] == e[i]);
        lemma_cursor((k + 1) as u64, 0);
        if s[0].1 is DirEntries { lemma_whole(s[0].1->DirEntries_0@, k); if i + 1 < e.len() { lemma_cursor(k, i + 1); } }
    } else {
        assert(list(s)[i] == list(s.drop_first())[i - e.len()]);
        lemma_cookies(s.drop_first(), i - e.len());
    }
}
pub proof fn lemma_whole(b: Seq<Dirent>, k: u64)
    ensures b.take(b.len() - 0) =~= b, bucket_rest(b.take(b.len() - 0), k, 0) == bucket_rest(b, k, 0)
{}
/// N02: a listing continued from the cookie of any entry shows exactly the entries behind it
pub proof fn prop_n02_continue(s: Items, i: int)
    requires good(s), 0 <= i < list(s).len()
    ensures list_from(s, list(s)[i].1) =~= list(s).skip(i + 1)
    decreases s.len()
{
    lemma_cookies(s, i);
    lemma_step(s, 0, 0);
    let x = s[0]; let t = s.drop_first(); let e = entries(x, 0); let k = x.0.off(); let c = list(s)[i].1;
    assert(ok_value(x.1) && k < 0xff_ffff_ffff_ffff);
    if x.1 is DirEntries { lemma_whole(x.1->DirEntries_0@, k); }
    if i < e.len() {
        assert(list(s)[i] == e[i]);
        if i + 1 == e.len() {
            lemma_cursor((k + 1) as u64, 0);
            assert(at(s, (k + 1) as u64) == at(t, (k + 1) as u64));
            if t.len() > 0 { assert(t[0].0.off() > k); }
            assert(at(t, (k + 1) as u64) == t);
            assert(list(s).skip(i + 1) =~= list(t));
            if t.len() > 0 { assert(list(t) == entries(t[0], 0) + list(t.drop_first())); }
        } else {
            let v = x.1->DirEntries_0@;
            lemma_cursor(k, i + 1);
            assert(at(s, k) == s);
            assert(bucket_rest(v.take(v.len() - (i + 1)), k, i + 1) =~= bucket_rest(v, k, 0).skip(i + 1));
            assert(list_from(s, c) == entries(x, i + 1) + list(t));
            assert(list(s).skip(i + 1) =~= e.skip(i + 1) + list(t));
        }
    } else {
        assert(list(s)[i] == list(t)[i - e.len()]);
        lemma_cookies(t, i - e.len());
        prop_n02_continue(t, i - e.len());
        assert(at(s, cur_off(c)) == at(t, cur_off(c)));
        assert(list(s).skip(i + 1) =~= list(t).skip(i - e.len() + 1));
    }
}
/// the first listing starts from the beginning: cookie 0
pub proof fn prop_n02_start(s: Items)
    requires good(s)
    ensures list_from(s, 0) == list(s)
{
    assert(0u64 >> 8u64 == 0 && (0u64 & 0xff) as u8 == 0) by (bit_vector);
    assert(at(s, 0) == s);
    if s.len() > 0 { assert(list(s) == entries(s[0], 0) + list(s.drop_first())); }
}
/// the listing shows every entry of every item, once
pub proof fn prop_n02_all(s: Items, i: int, j: int)
    requires good(s), 0 <= i < s.len(), 0 <= j < entries(s[i], 0).len()
    ensures exists|n: int| 0 <= n < list(s).len() && #[trigger] list(s)[n] == entries(s[i], 0)[j]
    decreases s.len()
{
    lemma_step(s, 0, 0);
    if i == 0 { assert(list(s)[j] == entries(s[0], 0)[j]); }
    else {
        assert(s[i] == s.drop_first()[i - 1]);
        prop_n02_all(s.drop_first(), i - 1, j);
        let n = choose|n: int| 0 <= n < list(s.drop_first()).len() && #[trigger] list(s.drop_first())[n] == entries(s[i], 0)[j];
        assert(list(s)[n + entries(s[0], 0).len()] == list(s.drop_first())[n]);
    }
}
/// the number of entries shown is the number there are
pub open spec fn total(s: Items) -> nat decreases s.len() { if s.len() == 0 { 0 } else { (match s[0].1 { FSValue::DirEntry(_) => 1, FSValue::DirEntries(v) => v@.len(), FSValue::Other => 0 } + total(s.drop_first())) as nat } }
pub proof fn prop_n02_once(s: Items)
    requires good(s)
    ensures list(s).len() == total(s)
    decreases s.len()
{
    if s.len() > 0 { lemma_step(s, 0, 0); assert(ok_value(s[0].1)); prop_n02_once(s.drop_first()); if s[0].1 is DirEntries { lemma_whole(s[0].1->DirEntries_0@, s[0].0.off()); } }
}

pub proof fn lemma_off(c: u64)
    ensures cur_off(c) < 0x100_0000_0000_0000
{ assert(c >> 8u64 < 0x100_0000_0000_0000) by (bit_vector); }
