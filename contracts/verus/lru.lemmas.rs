/// bytes of the blocks whose keys are in o
pub open spec fn total(o: Seq<Key>, m: Map<Key, LruEntry>) -> nat decreases o.len()
{ if o.len() == 0 { 0 } else { total(o.drop_last(), m) + space_of((*m[o.last()].buf)@) } }
pub open spec fn before(o: Seq<Key>, i: int) -> Option<Key> { if 0 < i <= o.len() { Some(o[i - 1]) } else { None } }
pub open spec fn after(o: Seq<Key>, i: int) -> Option<Key> { if 0 <= i + 1 < o.len() { Some(o[i + 1]) } else { None } }
pub open spec fn linked(o: Seq<Key>, m: Map<Key, LruEntry>) -> bool {
    forall|i: int| 0 <= i < o.len() ==> #[trigger] link_at(o, m, i)
}
pub open spec fn link_at(o: Seq<Key>, m: Map<Key, LruEntry>, i: int) -> bool { m.dom().contains(o[i]) && m[o[i]].lru == before(o, i) && m[o[i]].mru == after(o, i) }
impl LruCache {
    /// o: the keys from least to most recently used
    pub open spec fn wfo(&self, o: Seq<Key>) -> bool {
        &&& o.no_duplicates()
        &&& linked(o, self.store@)
        &&& forall|k: Key| self.store@.dom().contains(k) ==> #[trigger] o.contains(k)
        &&& self.lru == after(o, -1)
        &&& self.mru == before(o, o.len() as int)
        &&& self.size == total(o, self.store@)
        &&& self.size <= self.capacity
    }
    pub open spec fn wf(&self) -> bool { self.capacity <= usize::MAX / 2 && exists|o: Seq<Key>| self.wfo(o) }
    pub open spec fn order(&self) -> Seq<Key> { choose|o: Seq<Key>| self.wfo(o) }
    pub open spec fn has(&self, k: Key) -> bool { self.store@.dom().contains(k) }
    pub open spec fn block(&self, k: Key) -> Block { (*self.store@[k].buf)@ }
    pub open spec fn pos(&self, k: Key) -> int { self.order().index_of(k) }
    proof fn lemma_wf(&self) requires self.wf() ensures self.wfo(self.order()),
        forall|k: Key| self.has(k) <==> #[trigger] self.order().contains(k),
        forall|k: Key| self.has(k) ==> 0 <= #[trigger] self.pos(k) < self.order().len() && self.order()[self.pos(k)] == k,
        self.lru is None <==> self.order().len() == 0,
    {
        let o = self.order();
        assert forall|k: Key| #[trigger] o.contains(k) implies self.has(k) by { let i = o.index_of(k); assert(o[i] == k); assert(link_at(o, self.store@, i)); }
        assert forall|k: Key| self.has(k) implies 0 <= #[trigger] self.pos(k) < o.len() && o[self.pos(k)] == k by { assert(o.contains(k)); }
    }
    /// the order is determined by the links
    proof fn lemma_unique(&self, o: Seq<Key>) requires self.wfo(o) ensures self.wf() || self.capacity > usize::MAX / 2, self.order() == o
    {
        let p = self.order();
        assert(self.wfo(p));
        lemma_same(o, p, *self, 0);
        assert(o =~= p);
    }
}
proof fn lemma_same(o: Seq<Key>, p: Seq<Key>, c: LruCache, n: int)
    requires c.wfo(o), c.wfo(p), 0 <= n <= o.len(), n <= p.len(), forall|i: int| 0 <= i < n ==> o[i] == p[i]
    ensures o.len() == p.len(), forall|i: int| 0 <= i < o.len() ==> o[i] == p[i]
    decreases o.len() - n
{
    if n == 0 {
        assert(after(o, -1) == after(p, -1));
        if o.len() > 0 { assert(o[0] == p[0]); lemma_same(o, p, c, 1); }
    } else {
        assert(o[n - 1] == p[n - 1]);
        assert(link_at(o, c.store@, n - 1));
        assert(link_at(p, c.store@, n - 1));
        if n < o.len() { assert(o[n] == p[n]); lemma_same(o, p, c, n + 1); }
    }
}
proof fn lemma_total_frame(o: Seq<Key>, m: Map<Key, LruEntry>, m2: Map<Key, LruEntry>)
    requires forall|i: int| 0 <= i < o.len() ==> (*m[#[trigger] o[i]].buf)@ == (*m2[o[i]].buf)@
    ensures total(o, m) == total(o, m2) decreases o.len()
{
    if o.len() > 0 {
        assert forall|i: int| 0 <= i < o.drop_last().len() implies (*m[#[trigger] o.drop_last()[i]].buf)@ == (*m2[o.drop_last()[i]].buf)@ by { assert(o.drop_last()[i] == o[i]); }
        lemma_total_frame(o.drop_last(), m, m2);
        assert(o.last() == o[o.len() - 1]);
    }
}
proof fn lemma_total_remove(o: Seq<Key>, m: Map<Key, LruEntry>, i: int)
    requires 0 <= i < o.len()
    ensures total(o.remove(i), m) + space_of((*m[o[i]].buf)@) == total(o, m) decreases o.len()
{
    if i == o.len() - 1 { assert(o.remove(i) =~= o.drop_last()); }
    else {
        assert(o.remove(i).drop_last() =~= o.drop_last().remove(i));
        assert(o.drop_last()[i] == o[i]);
        lemma_total_remove(o.drop_last(), m, i);
        assert(o.remove(i).last() == o.last());
    }
}
proof fn lemma_total_push(o: Seq<Key>, m: Map<Key, LruEntry>, k: Key)
    ensures total(o.push(k), m) == total(o, m) + space_of((*m[k].buf)@)
{ assert(o.push(k).drop_last() =~= o); }

pub open spec fn kept(a: LruCache, b: LruCache) -> bool {
    &&& b.capacity == a.capacity
    &&& forall|k: Key| #[trigger] b.has(k) ==> a.has(k) && b.block(k) == a.block(k)
}
pub open spec fn same(a: LruCache, b: LruCache) -> bool {
    &&& b.wf() && kept(a, b) && kept(b, a) && b.order() == a.order() && b.size == a.size
}
/// k is gone, if it was there; everything else is where it was
pub open spec fn removed(a: LruCache, b: LruCache, k: Key) -> bool {
    if !a.has(k) { same(a, b) }
    else {
        &&& b.wf() && kept(a, b) && !b.has(k)
        &&& b.order() == a.order().remove(a.pos(k))
        &&& b.size == a.size - space_of(a.block(k))
        &&& forall|j: Key| #[trigger] a.has(j) && j != k ==> b.has(j)
    }
}
/// k is the most recently used, the others are in the order they were in
pub open spec fn used(a: LruCache, b: LruCache, k: Key) -> bool {
    if !a.has(k) { same(a, b) }
    else { b.wf() && kept(a, b) && kept(b, a) && b.size == a.size && b.order() == a.order().remove(a.pos(k)).push(k) }
}
/// the n least recently used are gone, and no fewer would have made room for `space` more bytes
pub open spec fn evicted_n(a: LruCache, b: LruCache, space: nat, n: int) -> bool {
    &&& 0 <= n <= a.order().len() && b.wf() && kept(a, b) && b.order() == a.order().skip(n)
    &&& n > 0 ==> total(a.order().skip(n - 1), a.store@) + space > a.capacity
}
pub open spec fn evicted(a: LruCache, b: LruCache, space: nat) -> bool { exists|n: int| evicted_n(a, b, space, n) }
pub open spec fn inserted_n(a: LruCache, b: LruCache, k: Key, v: Block, n: int) -> bool {
    &&& 0 <= n <= a.order().len() && b.wf() && b.capacity == a.capacity && b.order() == a.order().skip(n).push(k)
    &&& n > 0 ==> total(a.order().skip(n - 1), a.store@) + space_of(v) > a.capacity
    &&& b.has(k) && b.block(k) == v
    &&& forall|j: Key| #[trigger] b.has(j) && j != k ==> a.has(j) && b.block(j) == a.block(j)
}
pub open spec fn inserted(a: LruCache, b: LruCache, k: Key, v: Block) -> bool {
    if a.has(k) { same(a, b) } else { exists|n: int| inserted_n(a, b, k, v, n) }
}
proof fn lemma_empty() ensures total(Seq::<Key>::empty(), Map::<Key, LruEntry>::empty()) == 0 {}
proof fn done_empty(c: LruCache) requires c.store@ == Map::<Key, LruEntry>::empty(), c.lru is None, c.mru is None, c.size == 0, c.capacity <= usize::MAX / 2
    ensures c.wf(), c.order().len() == 0
{ assert(c.wfo(Seq::empty())); c.lemma_unique(Seq::empty()); }
proof fn done_same(a: LruCache, b: LruCache) requires a.wf(), b.store@ =~= a.store@, b.lru == a.lru, b.mru == a.mru, b.size == a.size, b.capacity == a.capacity
    ensures same(a, b)
{ a.lemma_wf(); assert(b.wfo(a.order())); b.lemma_unique(a.order()); }
/// after the links of k's neighbours were joined
proof fn done_removed(a: LruCache, b: LruCache, k: Key)
    requires a.wf(), a.has(k), b.capacity == a.capacity, b.size == a.size - space_of(a.block(k)),
        b.store@.dom() =~= a.store@.dom().remove(k),
        b.lru == if a.store@[k].lru is None { a.store@[k].mru } else { a.lru },
        b.mru == if a.store@[k].mru is None { a.store@[k].lru } else { a.mru },
        forall|j: Key| #[trigger] b.has(j) ==> b.block(j) == a.block(j)
            && b.store@[j].mru == (if a.store@[k].lru == Some(j) { a.store@[k].mru } else { a.store@[j].mru })
            && b.store@[j].lru == (if a.store@[k].mru == Some(j) { a.store@[k].lru } else { a.store@[j].lru }),
    ensures removed(a, b, k)
{
    a.lemma_wf();
    let o = a.order(); let i = a.pos(k); let p = o.remove(i);
    assert(o[i] == k);
    assert(link_at(o, a.store@, i));
    assert forall|j: int| 0 <= j < p.len() implies #[trigger] link_at(p, b.store@, j) by {
        let j0 = if j < i { j } else { j + 1 };
        assert(p[j] == o[j0]);
        assert(o[j0] != k);
        assert(link_at(o, a.store@, j0));
        assert(b.has(p[j]));
    }
    assert(p.no_duplicates());
    assert forall|x: Key| b.store@.dom().contains(x) implies #[trigger] p.contains(x) by {
        let jx = a.pos(x); assert(o.contains(x)); assert(o[jx] == x);
        if jx < i { assert(p[jx] == x); } else { assert(p[jx - 1] == x); }
    }
    lemma_total_remove(o, a.store@, i);
    assert forall|j: int| 0 <= j < p.len() implies (*a.store@[#[trigger] p[j]].buf)@ == (*b.store@[p[j]].buf)@ by { assert(link_at(p, b.store@, j)); assert(b.has(p[j])); assert(b.block(p[j]) == a.block(p[j])); }
    lemma_total_frame(p, a.store@, b.store@);
    assert(b.wfo(p));
    b.lemma_unique(p);
    assert forall|x: Key| #[trigger] b.has(x) implies a.has(x) && b.block(x) == a.block(x) by {}
}
/// what the links of k's entry say
proof fn lemma_links(a: LruCache, k: Key) requires a.wf()
    ensures a.has(k) ==> ({
        let e = a.store@[k];
        &&& e.lru is Some ==> a.has(e.lru->0) && e.lru->0 != k && a.store@[e.lru->0].mru == Some(k)
        &&& e.mru is Some ==> a.has(e.mru->0) && e.mru->0 != k && a.store@[e.mru->0].lru == Some(k)
        &&& e.lru is Some && e.mru is Some ==> e.lru != e.mru
        &&& e.lru is None <==> a.lru == Some(k)
        &&& e.mru is None <==> a.mru == Some(k)
        &&& a.mru is Some && a.has(a.mru->0) && a.store@[a.mru->0].mru is None
        &&& a.lru is Some && a.has(a.lru->0) && a.store@[a.lru->0].lru is None
        &&& a.size >= space_of(a.block(k))
    })
{
    a.lemma_wf();
    if a.has(k) {
        let o = a.order(); let i = a.pos(k);
        assert(o[i] == k);
        assert(link_at(o, a.store@, i));
        if i > 0 { assert(link_at(o, a.store@, i - 1)); }
        if i + 1 < o.len() { assert(link_at(o, a.store@, i + 1)); }
        let l = o.len() - 1;
        assert(link_at(o, a.store@, l)); assert(link_at(o, a.store@, 0));
        lemma_total_remove(o, a.store@, i);
    }
}
proof fn lemma_first(a: LruCache, b: LruCache) requires a.wf(), a.order().len() > 0, removed(a, b, a.order()[0])
    ensures b.order() == a.order().skip(1)
{
    a.lemma_wf(); let o = a.order(); assert(o.contains(o[0])); assert(a.has(o[0])); assert(a.pos(o[0]) == 0);
    assert(o.remove(0) =~= o.skip(1));
}
/// k moved from wherever it was to the most recently used end
proof fn done_used(a: LruCache, b: LruCache, k: Key)
    requires a.wf(), a.has(k), b.capacity == a.capacity, b.size == a.size,
        b.store@.dom() =~= a.store@.dom(),
        forall|j: Key| #[trigger] b.has(j) ==> b.block(j) == a.block(j),
        a.store@[k].mru is None ==> b.lru == a.lru && b.mru == a.mru && forall|j: Key| #[trigger] b.has(j) ==> b.store@[j].mru == a.store@[j].mru && b.store@[j].lru == a.store@[j].lru,
        a.store@[k].mru is Some ==> {
            &&& b.mru == Some(k)
            &&& b.lru == if a.store@[k].lru is None { a.store@[k].mru } else { a.lru }
            &&& forall|j: Key| #[trigger] b.has(j) ==> b.store@[j].mru == (if j == k { None } else if a.mru == Some(j) { Some(k) } else if a.store@[k].lru == Some(j) { a.store@[k].mru } else { a.store@[j].mru })
                && b.store@[j].lru == (if j == k { a.mru } else if a.store@[k].mru == Some(j) { a.store@[k].lru } else { a.store@[j].lru })
        },
    ensures used(a, b, k)
{
    a.lemma_wf();
    let o = a.order(); let i = a.pos(k); let q = o.remove(i); let p = q.push(k);
    assert(o[i] == k);
    assert(link_at(o, a.store@, i));
    if i == o.len() - 1 {
        assert(p =~= o);
        assert forall|j: int| 0 <= j < p.len() implies #[trigger] link_at(p, b.store@, j) by {
            assert(link_at(o, a.store@, j)); assert(b.has(o[j]));
        }
        assert forall|j: int| 0 <= j < p.len() implies (*a.store@[#[trigger] p[j]].buf)@ == (*b.store@[p[j]].buf)@ by { assert(link_at(p, b.store@, j)); assert(b.has(p[j])); assert(b.block(p[j]) == a.block(p[j])); }
        lemma_total_frame(o, a.store@, b.store@);
        assert(b.wfo(p));
    } else {
        let l = o.len() - 1;
        assert(a.mru == Some(o[l]));
        assert forall|j: int| 0 <= j < p.len() implies #[trigger] link_at(p, b.store@, j) by {
            if j == p.len() - 1 { assert(p[j] == k); assert(b.has(k)); assert(p[j - 1] == o[l]); }
            else {
                let j0 = if j < i { j } else { j + 1 };
                assert(p[j] == o[j0]);
                assert(o[j0] != k);
                assert(link_at(o, a.store@, j0));
                assert(b.has(p[j]));
            }
        }
        assert(p.no_duplicates());
        assert forall|x: Key| b.store@.dom().contains(x) implies #[trigger] p.contains(x) by {
            let jx = a.pos(x); assert(o.contains(x)); assert(o[jx] == x);
            if jx < i { assert(p[jx] == x); } else if jx > i { assert(p[jx - 1] == x); } else { assert(p[p.len() - 1] == x); }
        }
        lemma_total_remove(o, a.store@, i);
        lemma_total_push(q, a.store@, k);
        assert forall|j: int| 0 <= j < p.len() implies (*a.store@[#[trigger] p[j]].buf)@ == (*b.store@[p[j]].buf)@ by { assert(link_at(p, b.store@, j)); assert(b.has(p[j])); assert(b.block(p[j]) == a.block(p[j])); }
        lemma_total_frame(p, a.store@, b.store@);
        assert(b.wfo(p));
    }
    b.lemma_unique(p);
}
proof fn lemma_evict0(a: LruCache, space: nat) requires a.wf() ensures evicted(a, a, space)
{ assert(a.order().skip(0) =~= a.order()); assert(evicted_n(a, a, space, 0)); }
/// a cache that is over-full has something to evict
proof fn lemma_room(a: LruCache) requires a.wf() ensures a.order().len() == 0 ==> a.size == 0
{ a.lemma_wf(); }
proof fn lemma_tail(a: LruCache) requires a.wf()
    ensures a.mru is Some ==> a.has(a.mru->0) && a.store@[a.mru->0].mru is None, a.lru is None <==> a.mru is None
{ a.lemma_wf(); let o = a.order(); if o.len() > 0 { let l = o.len() - 1; assert(link_at(o, a.store@, l)); } }
proof fn lemma_evict_step(a: LruCache, m: LruCache, c: LruCache, space: nat)
    requires a.wf(), m.wf(), evicted(a, m, space), m.order().len() > 0, removed(m, c, m.order()[0]), c.order() == m.order().skip(1), m.size + space > m.capacity
    ensures evicted(a, c, space)
{
    let n = choose|n: int| evicted_n(a, m, space, n);
    a.lemma_wf(); m.lemma_wf();
    let o = m.order();
    assert(o.contains(o[0])); assert(m.has(o[0])); assert(m.pos(o[0]) == 0);
    assert(o.skip(1) =~= a.order().skip(n + 1));
    assert forall|i: int| 0 <= i < o.len() implies (*m.store@[#[trigger] o[i]].buf)@ == (*a.store@[o[i]].buf)@ by { assert(o.contains(o[i])); assert(m.has(o[i])); assert(m.block(o[i]) == a.block(o[i])); }
    lemma_total_frame(o, m.store@, a.store@);
    assert forall|k: Key| #[trigger] c.has(k) implies a.has(k) && c.block(k) == a.block(k) by { assert(m.has(k)); }
    assert(evicted_n(a, c, space, n + 1));
}
proof fn done_inserted(a: LruCache, m: LruCache, b: LruCache, k: Key, v: Block)
    requires a.wf(), !a.has(k), m.wf(), evicted(a, m, space_of(v)), b.capacity == m.capacity, b.size == m.size + space_of(v), b.size <= b.capacity,
        b.store@.dom() =~= m.store@.dom().insert(k),
        b.block(k) == v, b.store@[k].lru == m.mru, b.store@[k].mru is None,
        forall|j: Key| #[trigger] m.has(j) ==> b.block(j) == m.block(j) && b.store@[j].lru == m.store@[j].lru
            && b.store@[j].mru == (if m.mru == Some(j) { Some(k) } else { m.store@[j].mru }),
        b.mru == Some(k), b.lru == if m.lru is None { Some(k) } else { m.lru },
    ensures inserted(a, b, k, v)
{
    let n = choose|n: int| evicted_n(a, m, space_of(v), n);
    a.lemma_wf(); m.lemma_wf();
    let o = m.order(); let p = o.push(k); let l = o.len() - 1;
    assert(!m.has(k)) by { if m.has(k) { assert(a.has(k)); } }
    assert forall|j: int| 0 <= j < p.len() implies #[trigger] link_at(p, b.store@, j) by {
        if j < o.len() {
            assert(p[j] == o[j]); assert(o.contains(o[j])); assert(m.has(o[j]));
            assert(link_at(o, m.store@, j));
        }
    }
    assert(p.no_duplicates()) by { assert(!o.contains(k)); }
    assert forall|x: Key| b.store@.dom().contains(x) implies #[trigger] p.contains(x) by {
        if x == k { assert(p[o.len() as int] == k); } else { assert(m.has(x)); assert(o.contains(x)); assert(p[m.pos(x)] == x); }
    }
    assert forall|i: int| 0 <= i < o.len() implies (*m.store@[#[trigger] o[i]].buf)@ == (*b.store@[o[i]].buf)@ by { assert(o.contains(o[i])); assert(m.has(o[i])); assert(m.block(o[i]) == b.block(o[i])); }
    lemma_total_frame(o, m.store@, b.store@);
    lemma_total_push(o, b.store@, k);
    assert(b.wfo(p));
    b.lemma_unique(p);
    assert forall|j: Key| #[trigger] b.has(j) && j != k implies a.has(j) && b.block(j) == a.block(j) by { assert(m.has(j)); }
    assert(b.order() =~= a.order().skip(n).push(k));
    assert(inserted_n(a, b, k, v, n));
}
proof fn lemma_total_skip(o: Seq<Key>, m: Map<Key, LruEntry>, n: int) requires 0 <= n <= o.len()
    ensures total(o.skip(n), m) <= total(o, m) decreases n
{
    if n > 0 { lemma_total_skip(o, m, n - 1); let q = o.skip(n - 1); lemma_total_remove(q, m, 0); assert(q.remove(0) =~= o.skip(n)); }
    else { assert(o.skip(0) =~= o); }
}
