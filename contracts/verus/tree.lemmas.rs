// ---- what a leaf holds, and what it occupies in memory
pub open spec fn asum(m: Map<K, V>) -> nat decreases m.dom().len()
{ if m.dom().len() == 0 { 0 } else { let k = m.dom().choose(); alloc(m[k]) + asum(m.remove(k)) } }
/// the memory of a leaf: its entries and what they point to
pub open spec fn space(m: Map<K, V>) -> int { (asum(m) + m.dom().len() * kvs()) as int }
/// the room for what is left to hold in memory is far from the end of the numbers
pub open spec fn small(m: Map<K, V>) -> bool { space(m) < 0x0040_0000_0000_0000 && m.dom().len() < 0x1000_0000 }
/// credit in hand: nothing, where keys need none, and otherwise just what the entries occupy
pub open spec fn credited(c: Credit, m: Map<K, V>) -> bool { c.v() == (if uses_credit() { 2 * space(m) } else { 0 }) }
pub open spec fn sub(a: Map<K, V>, m: Map<K, V>) -> bool { forall|x: K| #[trigger] a.dom().contains(x) ==> m.dom().contains(x) && a[x] == m[x] }
/// `m` is `a` and `b` together
pub open spec fn parts(m: Map<K, V>, a: Map<K, V>, b: Map<K, V>) -> bool {
    &&& sub(a, m) && sub(b, m)
    &&& forall|x: K| #[trigger] m.dom().contains(x) ==> (a.dom().contains(x) <==> !b.dom().contains(x))
}
pub open spec fn below(a: Map<K, V>, m: Map<K, V>, k: K) -> bool { sub(a, m) && forall|x: K| #[trigger] m.dom().contains(x) ==> (a.dom().contains(x) <==> x.0 < k.0) }
pub open spec fn above(a: Map<K, V>, m: Map<K, V>, k: K) -> bool { sub(a, m) && forall|x: K| #[trigger] m.dom().contains(x) ==> (a.dom().contains(x) <==> x.0 >= k.0) }
/// all keys of `a` come before those of `b`
pub open spec fn precedes(a: Map<K, V>, b: Map<K, V>) -> bool { forall|x: K, y: K| #[trigger] a.dom().contains(x) && #[trigger] b.dom().contains(y) ==> x.0 < y.0 }
pub open spec fn least(m: Map<K, V>, k: K) -> bool { m.dom().contains(k) && forall|x: K| #[trigger] m.dom().contains(x) ==> k.0 <= x.0 }
pub open spec fn most(m: Map<K, V>, k: K) -> bool { m.dom().contains(k) && forall|x: K| #[trigger] m.dom().contains(x) ==> x.0 <= k.0 }
pub open spec fn joined(a: Map<K, V>, b: Map<K, V>) -> Map<K, V> { a.union_prefer_right(b) }
pub proof fn lemma_asum(m: Map<K, V>, k: K) requires m.dom().contains(k) ensures asum(m) == alloc(m[k]) + asum(m.remove(k)), m.dom().len() == m.remove(k).dom().len() + 1
    decreases m.dom().len()
{
    let c = m.dom().choose();
    assert(m.dom().contains(c));
    assert(m.dom().len() > 0) by { if m.dom().len() == 0 { assert(m.dom() =~= Set::empty()); } }
    if c != k {
        lemma_asum(m.remove(c), k);
        lemma_asum(m.remove(k), c);
        assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
    }
}
pub proof fn lemma_empty(m: Map<K, V>) requires forall|x: K| !#[trigger] m.dom().contains(x) ensures asum(m) == 0, m.dom().len() == 0, space(m) == 0
{ assert(m.dom() =~= Set::<K>::empty()); }
pub proof fn lemma_put(m: Map<K, V>, k: K, v: V)
    ensures space(m.insert(k, v)) == space(m) + alloc(v) + kvs() - (if m.dom().contains(k) { alloc(m[k]) + kvs() } else { 0 }), small(m) ==> m.insert(k, v).dom().len() <= m.dom().len() + 1
{
    let n = m.insert(k, v);
    lemma_asum(n, k);
    assert(n.remove(k) =~= m.remove(k));
    if m.dom().contains(k) { lemma_asum(m, k); } else { assert(m.remove(k) =~= m); }
    assert((m.remove(k).dom().len() + 1) * kvs() == m.remove(k).dom().len() * kvs() + kvs()) by (nonlinear_arith);
}
pub proof fn lemma_out(m: Map<K, V>, k: K)
    ensures space(m.remove(k)) == space(m) - (if m.dom().contains(k) { alloc(m[k]) + kvs() } else { 0 }), m.remove(k).dom().len() <= m.dom().len(), space(m.remove(k)) >= 0, space(m) >= 0
{
    if m.dom().contains(k) { lemma_asum(m, k); } else { assert(m.remove(k) =~= m); }
    assert((m.remove(k).dom().len() + 1) * kvs() == m.remove(k).dom().len() * kvs() + kvs()) by (nonlinear_arith);
    assert(m.remove(k).dom().len() * kvs() >= 0) by (nonlinear_arith);
}
pub proof fn lemma_parts(m: Map<K, V>, a: Map<K, V>, b: Map<K, V>) requires parts(m, a, b)
    ensures asum(m) == asum(a) + asum(b), m.dom().len() == a.dom().len() + b.dom().len(), space(m) == space(a) + space(b), space(a) >= 0, space(b) >= 0
    decreases b.dom().len()
{
    if b.dom().len() == 0 {
        assert(b.dom() =~= Set::<K>::empty());
        assert(a =~= m) by { assert forall|x: K| a.dom().contains(x) <==> m.dom().contains(x) by { assert(!b.dom().contains(x)); } assert(a.dom() =~= m.dom()); }
    } else {
        let c = b.dom().choose();
        lemma_asum(b, c); lemma_asum(m, c);
        lemma_parts(m.remove(c), a, b.remove(c));
    }
    assert((a.dom().len() + b.dom().len()) * kvs() == a.dom().len() * kvs() + b.dom().len() * kvs()) by (nonlinear_arith);
    assert(a.dom().len() * kvs() >= 0 && b.dom().len() * kvs() >= 0) by (nonlinear_arith);
}
/// what the first i of the keys, in order, point to
pub open spec fn first_keys(m: Map<K, V>, ks: Seq<K>, i: int) -> int decreases i { if i <= 0 { 0 } else { first_keys(m, ks, i - 1) + alloc(m[ks[i - 1]]) } }
pub proof fn lemma_first_keys(m: Map<K, V>, ks: Seq<K>) requires ascending(ks), forall|x: K| ks.contains(x) <==> #[trigger] m.dom().contains(x) ensures first_keys(m, ks, ks.len() as int) == asum(m), ks.len() == m.dom().len()
    decreases ks.len()
{
    if ks.len() == 0 { assert forall|x: K| !#[trigger] m.dom().contains(x) by { assert(!ks.contains(x)); } lemma_empty(m); }
    else {
        let c = ks.last(); let r = ks.drop_last(); let n = m.remove(c);
        assert(ks.contains(c));
        assert forall|x: K| r.contains(x) <==> #[trigger] n.dom().contains(x) by {
            if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(ks[i] == x); assert(ks.contains(x)); assert(ks[i].0 < ks[ks.len() - 1].0); }
            if n.dom().contains(x) { assert(ks.contains(x)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == x; assert(i < ks.len() - 1); assert(r[i] == x); }
        }
        lemma_asum(m, c);
        lemma_first_keys(n, r);
        lemma_first_same(m, n, ks, r, r.len() as int);
    }
}
pub proof fn lemma_first_same(m: Map<K, V>, n: Map<K, V>, ks: Seq<K>, r: Seq<K>, i: int)
    requires r == ks.drop_last(), 0 <= i <= r.len(), n == m.remove(ks.last()), ascending(ks), ks.len() > 0 ensures first_keys(m, ks, i) == first_keys(n, r, i) decreases i
{ if i > 0 { lemma_first_same(m, n, ks, r, i - 1); assert(ks[i - 1].0 < ks[ks.len() - 1].0); } }
pub proof fn lemma_first_max(m: Map<K, V>, ks: Seq<K>, i: int) requires 0 <= i <= ks.len() ensures 0 <= first_keys(m, ks, i) <= first_keys(m, ks, ks.len() as int) decreases ks.len() - i
{ lemma_first_pos(m, ks, i); if i < ks.len() { lemma_first_max(m, ks, i + 1); } }
pub proof fn lemma_first_pos(m: Map<K, V>, ks: Seq<K>, i: int) ensures first_keys(m, ks, i) >= 0 decreases i { if i > 0 { lemma_first_pos(m, ks, i - 1); } }
// ---- the children of an inner node
/// in order of their least keys
pub open spec fn sorted(c: Seq<IntElem>) -> bool { forall|i: int, j: int| 0 <= i < j < c.len() ==> (#[trigger] c[i]).key.0 < (#[trigger] c[j]).key.0 }
/// the oldest transaction among the children's
pub open spec fn oldest(c: Seq<IntElem>, t: TxgT) -> bool { (exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).txgs.start == t) && forall|i: int| 0 <= i < c.len() ==> t.0 <= (#[trigger] c[i]).txgs.start.0 }
/// the child a key belongs to: the last whose least key is not above it (or the first)
pub open spec fn place(c: Seq<IntElem>, k: K, p: int) -> bool {
    &&& 0 <= p && (c.len() > 0 ==> p < c.len())
    &&& (p > 0 ==> c[p].key.0 <= k.0)
    &&& forall|i: int| p < i < c.len() ==> k.0 < (#[trigger] c[i]).key.0
}
pub open spec fn size_of_node(d: NodeData) -> int { match d { NodeData::Leaf(l) => l.items@.dom().len() as int, NodeData::Int(n) => n.children@.len() as int } }
pub open spec fn min_of(d: NodeData, l: Limits) -> int { if d is Leaf { l.min_leaf_fanout as int } else { l.min_int_fanout as int } }
pub open spec fn max_of(d: NodeData, l: Limits) -> int { if d is Leaf { l.max_leaf_fanout as int } else { l.max_int_fanout as int } }
/// a node as it is when nobody is changing it
pub open spec fn sound(d: NodeData) -> bool { match d { NodeData::Leaf(l) => small(l.items@), NodeData::Int(n) => sorted(n.children@) } }
pub open spec fn paid(d: NodeData) -> bool { d is Leaf ==> credited(d->Leaf_0.credit, d->Leaf_0.items@) }
/// `a` and, right of it, `b` hold what `m` held
pub open spec fn cut_in_two(m: NodeData, a: NodeData, b: NodeData) -> bool {
    match (m, a, b) {
        (NodeData::Leaf(m), NodeData::Leaf(a), NodeData::Leaf(b)) => parts(m.items@, a.items@, b.items@) && precedes(a.items@, b.items@),
        (NodeData::Int(m), NodeData::Int(a), NodeData::Int(b)) => m.children@ == a.children@ + b.children@,
        _ => false
    }
}
/// the least key in a node, as its parent knows it
pub open spec fn low(d: NodeData, k: K) -> bool { match d { NodeData::Leaf(l) => least(l.items@, k), NodeData::Int(n) => n.children@.len() > 0 && n.children@[0].key == k } }
/// two siblings, in order
pub open spec fn siblings(a: NodeData, b: NodeData) -> bool {
    match (a, b) {
        (NodeData::Leaf(a), NodeData::Leaf(b)) => precedes(a.items@, b.items@),
        (NodeData::Int(a), NodeData::Int(b)) => sorted(a.children@ + b.children@),
        _ => false
    }
}
/// between them two siblings hold what they did, moved by `n` from one to the other
pub open spec fn together(a: NodeData, b: NodeData, x: NodeData, y: NodeData) -> bool {
    match (a, b, x, y) {
        (NodeData::Leaf(a), NodeData::Leaf(b), NodeData::Leaf(x), NodeData::Leaf(y)) => precedes(x.items@, y.items@) && parts(joined(a.items@, b.items@), x.items@, y.items@),
        (NodeData::Int(a), NodeData::Int(b), NodeData::Int(x), NodeData::Int(y)) => a.children@ + b.children@ == x.children@ + y.children@,
        _ => false
    }
}
pub proof fn lemma_joined(a: Map<K, V>, b: Map<K, V>) requires precedes(a, b) ensures parts(joined(a, b), a, b), space(joined(a, b)) == space(a) + space(b), joined(a, b).dom().len() == a.dom().len() + b.dom().len()
{
    let m = joined(a, b);
    assert forall|x: K| #[trigger] m.dom().contains(x) implies (a.dom().contains(x) <==> !b.dom().contains(x)) by { if a.dom().contains(x) && b.dom().contains(x) { assert(x.0 < x.0); } }
    assert(sub(a, m)) by { assert forall|x: K| #[trigger] a.dom().contains(x) implies m.dom().contains(x) && a[x] == m[x] by { if b.dom().contains(x) { assert(x.0 < x.0); } } }
    assert(sub(b, m));
    lemma_parts(m, a, b);
}
pub proof fn lemma_listing<R: RangeBounds>(e: Seq<(&K, &V)>, a: Seq<(K, V)>, m: Map<K, V>, r: R)
    requires listed(e, m, r), a.len() == e.len(), forall|j: int| 0 <= j < e.len() ==> (#[trigger] a[j]).0 == *e[j].0 && a[j].1 == *e[j].1 ensures listing(a, m, r)
{
    assert forall|k: K| #[trigger] m.dom().contains(k) && inside(r, k) implies exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == k by { let i = choose|i: int| 0 <= i < e.len() && *(#[trigger] e[i]).0 == k; assert(a[i].0 == k); }
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies (#[trigger] a[i]).0.0 < (#[trigger] a[j]).0.0 by { assert(e[i].0.0 < e[j].0.0); }
}
/// what the first i entries point to, and the drops of their values
pub open spec fn esum(e: Seq<(K, V)>, i: int) -> int decreases i { if i <= 0 { 0 } else { esum(e, i - 1) + alloc(e[i - 1].1) } }
pub open spec fn dropping(e: Seq<(K, V)>, t: TxgT, n: int) -> Seq<(V, TxgT)> { Seq::new(n as nat, |i: int| (e[i].1, t)) }
/// every value in the range, and no other, is dropped once
pub open spec fn dropped<R: RangeBounds>(g: Seq<(V, TxgT)>, h: Seq<(V, TxgT)>, m: Map<K, V>, r: R, t: TxgT) -> bool
{ if needs_flush() { exists|e: Seq<(K, V)>| #[trigger] listing(e, m, r) && h == g + dropping(e, t, e.len() as int) } else { h == g } }
pub proof fn lemma_esum(e: Seq<(K, V)>, i: int) requires 0 <= i <= e.len() ensures 0 <= esum(e, i) <= esum(e, e.len() as int) decreases e.len() - i
{ lemma_esum_pos(e, i); if i < e.len() { lemma_esum(e, i + 1); } }
pub proof fn lemma_esum_pos(e: Seq<(K, V)>, i: int) ensures esum(e, i) >= 0 decreases i { if i > 0 { lemma_esum_pos(e, i - 1); } }
pub proof fn lemma_asum_pos(n: int) requires n >= 0 ensures n * kvs() >= 0 { assert(n * kvs() >= 0) by (nonlinear_arith) requires n >= 0; }
pub open spec fn map_of(e: Seq<(K, V)>) -> Map<K, V> decreases e.len() { if e.len() == 0 { Map::empty() } else { map_of(e.drop_last()).insert(e.last().0, e.last().1) } }
pub proof fn lemma_map_of(e: Seq<(K, V)>)
    requires forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0.0 < (#[trigger] e[j]).0.0
    ensures forall|k: K| #[trigger] map_of(e).dom().contains(k) <==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k, forall|i: int| 0 <= i < e.len() ==> map_of(e)[(#[trigger] e[i]).0] == e[i].1,
        asum(map_of(e)) == esum(e, e.len() as int), map_of(e).dom().len() == e.len() decreases e.len()
{
    if e.len() == 0 { lemma_empty(map_of(e)); } else {
        let d = e.drop_last(); let n = e.len() - 1; lemma_map_of(d); lemma_esum_same(e, d, n);
        let m = map_of(e);
        assert forall|k: K| #[trigger] m.dom().contains(k) implies exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k by {
            if k == e[n].0 {} else { assert(map_of(d).dom().contains(k)); let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == k; assert(e[i].0 == k); } }
        assert forall|i: int| 0 <= i < e.len() implies m.dom().contains((#[trigger] e[i]).0) && m[e[i].0] == e[i].1 by { if i < n { assert(d[i] == e[i]); assert(map_of(d).dom().contains(e[i].0)); assert(e[i].0.0 < e[n].0.0); } }
        assert(!map_of(d).dom().contains(e[n].0)) by { if map_of(d).dom().contains(e[n].0) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == e[n].0; assert(e[i].0.0 < e[n].0.0); } }
        lemma_asum(m, e[n].0); assert(m.remove(e[n].0) =~= map_of(d));
    }
}
pub proof fn lemma_esum_same(e: Seq<(K, V)>, d: Seq<(K, V)>, i: int) requires e.len() > 0, d == e.drop_last(), 0 <= i <= d.len() ensures esum(e, i) == esum(d, i) decreases i { if i > 0 { lemma_esum_same(e, d, i - 1); } }
/// what is taken out and what is left make up what there was
pub proof fn lemma_taken<R: RangeBounds>(e: Seq<(K, V)>, m: Map<K, V>, n: Map<K, V>, r: R) requires taken(e, m, n, r), small(m)
    ensures space(n) + esum(e, e.len() as int) + e.len() * kvs() == space(m), small(n), space(n) >= 0, esum(e, e.len() as int) >= 0, e.len() * kvs() >= 0, e.len() <= m.dom().len(), esum(e, e.len() as int) + e.len() * kvs() < 0x0040_0000_0000_0000
{
    lemma_map_of(e); let x = map_of(e);
    assert(parts(m, x, n)) by {
        assert forall|k: K| #[trigger] x.dom().contains(k) implies m.dom().contains(k) && x[k] == m[k] by { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k; }
        assert forall|k: K| #[trigger] m.dom().contains(k) implies (x.dom().contains(k) <==> !n.dom().contains(k)) by { if x.dom().contains(k) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k; } }
    }
    lemma_parts(m, x, n); lemma_esum_pos(e, e.len() as int); lemma_asum_pos(e.len() as int); lemma_asum_pos(n.dom().len() as int);
}
pub proof fn lemma_cut(m: Map<K, V>, a: Map<K, V>, b: Map<K, V>, k: K) requires below(a, m, k), above(b, m, k) ensures parts(m, a, b), precedes(a, b) {}
/// two nodes of one kind, whose sizes are far from the end of the numbers
pub open spec fn roomy(a: NodeData, b: NodeData) -> bool {
    match (a, b) {
        (NodeData::Leaf(a), NodeData::Leaf(b)) => space(a.items@) + space(b.items@) < 0x0040_0000_0000_0000 && a.items@.dom().len() + b.items@.dom().len() < 0x1000_0000,
        (NodeData::Int(a), NodeData::Int(b)) => a.children@.len() + b.children@.len() < 0x1000_0000,
        _ => false
    }
}
/// the larger (b) gives half of what it has more than the smaller (a), and at least one entry
pub open spec fn moved(a: int, b: int, x: int, y: int) -> bool { x + y == a + b && x - a == (if (b - a) / 2 > 1 { (b - a) / 2 } else { 1 }) }
/// the upper part of the left of two siblings goes to the right one
pub proof fn lemma_share_high(a: Map<K, V>, b: Map<K, V>, x: Map<K, V>, h: Map<K, V>) requires precedes(a, b), parts(a, x, h), precedes(x, h)
    ensures precedes(h, b), precedes(x, joined(b, h)), parts(joined(a, b), x, joined(b, h)), space(joined(b, h)) == space(b) + space(h), joined(b, h).dom().len() == b.dom().len() + h.dom().len(), space(a) == space(x) + space(h), a.dom().len() == x.dom().len() + h.dom().len(), space(h) >= 0, space(b) >= 0, space(x) >= 0
{
    lemma_parts(a, x, h); lemma_joined(a, b);
    let y = joined(b, h); let m = joined(a, b);
    assert forall|k: K, l: K| #[trigger] h.dom().contains(k) && #[trigger] b.dom().contains(l) implies k.0 < l.0 by { assert(a.dom().contains(k)); }
    assert(parts(y, b, h)) by { assert forall|k: K| #[trigger] y.dom().contains(k) implies (b.dom().contains(k) <==> !h.dom().contains(k)) by { if b.dom().contains(k) && h.dom().contains(k) { assert(k.0 < k.0); } }
        assert forall|k: K| #[trigger] b.dom().contains(k) implies y.dom().contains(k) && y[k] == b[k] by { if h.dom().contains(k) { assert(k.0 < k.0); } } }
    lemma_parts(y, b, h);
    assert forall|k: K, l: K| #[trigger] x.dom().contains(k) && #[trigger] y.dom().contains(l) implies k.0 < l.0 by { assert(a.dom().contains(k)); if h.dom().contains(l) {} else { assert(b.dom().contains(l)); } }
    assert(parts(m, x, y)) by {
        assert forall|k: K| #[trigger] x.dom().contains(k) implies m.dom().contains(k) && m[k] == x[k] by { assert(a.dom().contains(k)); if b.dom().contains(k) { assert(k.0 < k.0); } }
        assert forall|k: K| #[trigger] y.dom().contains(k) implies m.dom().contains(k) && m[k] == y[k] by { if h.dom().contains(k) { assert(a.dom().contains(k)); if b.dom().contains(k) { assert(k.0 < k.0); } } else { assert(b.dom().contains(k)); } }
        assert forall|k: K| #[trigger] m.dom().contains(k) implies (x.dom().contains(k) <==> !y.dom().contains(k)) by {
            if x.dom().contains(k) && y.dom().contains(k) { assert(k.0 < k.0); }
            if !x.dom().contains(k) { if a.dom().contains(k) { assert(h.dom().contains(k)); } else { assert(b.dom().contains(k)); } assert(y.dom().contains(k)); }
        }
    }
}
/// the lower part of the right of two siblings goes to the left one
pub proof fn lemma_share_low(a: Map<K, V>, b: Map<K, V>, h: Map<K, V>, y: Map<K, V>) requires precedes(a, b), parts(b, h, y), precedes(h, y)
    ensures precedes(a, h), precedes(joined(a, h), y), parts(joined(a, b), joined(a, h), y), space(joined(a, h)) == space(a) + space(h), joined(a, h).dom().len() == a.dom().len() + h.dom().len(), space(b) == space(y) + space(h), b.dom().len() == y.dom().len() + h.dom().len(), space(h) >= 0, space(a) >= 0, space(y) >= 0
{
    lemma_parts(b, h, y); lemma_joined(a, b);
    let x = joined(a, h); let m = joined(a, b);
    assert forall|k: K, l: K| #[trigger] a.dom().contains(k) && #[trigger] h.dom().contains(l) implies k.0 < l.0 by { assert(b.dom().contains(l)); }
    lemma_joined(a, h);
    assert forall|k: K, l: K| #[trigger] x.dom().contains(k) && #[trigger] y.dom().contains(l) implies k.0 < l.0 by { assert(b.dom().contains(l)); if h.dom().contains(k) {} else { assert(a.dom().contains(k)); } }
    assert(parts(m, x, y)) by {
        assert forall|k: K| #[trigger] y.dom().contains(k) implies m.dom().contains(k) && m[k] == y[k] by { assert(b.dom().contains(k)); }
        assert forall|k: K| #[trigger] x.dom().contains(k) implies m.dom().contains(k) && m[k] == x[k] by { if h.dom().contains(k) { assert(b.dom().contains(k)); } else { assert(a.dom().contains(k)); if b.dom().contains(k) { assert(k.0 < k.0); } } }
        assert forall|k: K| #[trigger] m.dom().contains(k) implies (x.dom().contains(k) <==> !y.dom().contains(k)) by {
            if x.dom().contains(k) && y.dom().contains(k) { assert(k.0 < k.0); }
            if !y.dom().contains(k) { if b.dom().contains(k) { assert(h.dom().contains(k)); } else { assert(a.dom().contains(k)); } assert(x.dom().contains(k)); }
        }
    }
}
/// parts of what is in order are in order
pub proof fn lemma_sorted_parts(x: Seq<IntElem>, y: Seq<IntElem>) requires sorted(x + y) ensures sorted(x), sorted(y)
{
    let z = x + y;
    assert forall|i: int, j: int| 0 <= i < j < x.len() implies (#[trigger] x[i]).key.0 < (#[trigger] x[j]).key.0 by { assert(z[i] == x[i] && z[j] == x[j]); }
    assert forall|i: int, j: int| 0 <= i < j < y.len() implies (#[trigger] y[i]).key.0 < (#[trigger] y[j]).key.0 by { assert(z[x.len() + i] == y[i] && z[x.len() + j] == y[j]); }
}
// ---- a whole tree
/// the entry is somewhere below a node that is `h` levels above the leaves
pub open spec fn has(d: NodeData, h: nat, k: K, v: V) -> bool decreases h {
    match d {
        NodeData::Leaf(l) => l.items@.dom().contains(k) && l.items@[k] == v,
        NodeData::Int(n) => h > 0 && exists|i: int| 0 <= i < n.children@.len() && has(target((#[trigger] n.children@[i]).ptr), (h - 1) as nat, k, v)
    }
}
/// the shape of a tree: its leaves are all equally far down, and what is below a child lies between its key and the next child's
pub open spec fn wf(d: NodeData, h: nat) -> bool decreases h {
    match d {
        NodeData::Leaf(l) => h == 0,
        NodeData::Int(n) => {
            &&& h > 0 && n.children@.len() > 0 && sorted(n.children@)
            &&& forall|i: int| 0 <= i < n.children@.len() ==> wf(target((#[trigger] n.children@[i]).ptr), (h - 1) as nat)
            &&& forall|i: int| 0 <= i < n.children@.len() ==> (target((#[trigger] n.children@[i]).ptr) matches NodeData::Int(m) ==> m.children@.len() > 0 && m.children@[0].key.0 >= n.children@[i].key.0)
            &&& forall|i: int, k: K, v: V| 0 <= i < n.children@.len() && #[trigger] has(target(n.children@[i].ptr), (h - 1) as nat, k, v) ==> n.children@[i].key.0 <= k.0 && (i + 1 < n.children@.len() ==> k.0 < n.children@[i + 1].key.0)
        }
    }
}
pub open spec fn some_below(d: NodeData, h: nat) -> bool { exists|k: K, v: V| #[trigger] has(d, h, k, v) }
/// nothing below a node but the root is empty
pub open spec fn peopled(d: NodeData, h: nat) -> bool decreases h {
    match d {
        NodeData::Leaf(l) => true,
        NodeData::Int(n) => h > 0 ==> forall|i: int| 0 <= i < n.children@.len() ==> peopled(target((#[trigger] n.children@[i]).ptr), (h - 1) as nat) && some_below(target(n.children@[i].ptr), (h - 1) as nat)
    }
}
/// the entry a node has for a key is below the one child the key belongs to
pub proof fn lemma_down(d: NodeData, h: nat, k: K, p: int) requires wf(d, h), d is Int, place(d->Int_0.children@, k, p)
    ensures h > 0, 0 <= p < d->Int_0.children@.len(), wf(target(d->Int_0.children@[p].ptr), (h - 1) as nat), forall|v: V| #[trigger] has(d, h, k, v) <==> has(target(d->Int_0.children@[p].ptr), (h - 1) as nat, k, v)
{
    let c = d->Int_0.children@; let g = (h - 1) as nat;
    assert(wf(target(c[p].ptr), g));
    assert forall|v: V| #[trigger] has(d, h, k, v) implies has(target(c[p].ptr), g, k, v) by {
        let i = choose|i: int| 0 <= i < c.len() && has(target((#[trigger] c[i]).ptr), g, k, v);
        if i < p { assert(k.0 < c[i + 1].key.0); if i + 1 < p { assert(c[i + 1].key.0 < c[p].key.0); } }
    }
    assert forall|v: V| has(target(c[p].ptr), g, k, v) implies #[trigger] has(d, h, k, v) by { let ci = c[p]; }
}
/// the greatest key is below the last child
pub proof fn lemma_last(d: NodeData, h: nat, k: K) requires wf(d, h), peopled(d, h), d is Int
    ensures h > 0, d->Int_0.children@.len() > 0, wf(target(d->Int_0.children@.last().ptr), (h - 1) as nat), peopled(target(d->Int_0.children@.last().ptr), (h - 1) as nat),
        some_below(target(d->Int_0.children@.last().ptr), (h - 1) as nat),
        greatest(target(d->Int_0.children@.last().ptr), (h - 1) as nat, k) ==> greatest(d, h, k)
{
    let c = d->Int_0.children@; let g = (h - 1) as nat; let p = c.len() - 1;
    assert(c[p] == c.last()); assert(wf(target(c[p].ptr), g)); assert(peopled(target(c[p].ptr), g));
    if greatest(target(c[p].ptr), g, k) {
        let v = choose|v: V| has(target(c[p].ptr), g, k, v);
        assert(has(d, h, k, v));
        assert forall|x: K, w: V| #[trigger] has(d, h, x, w) implies x.0 <= k.0 by {
            let i = choose|i: int| 0 <= i < c.len() && has(target((#[trigger] c[i]).ptr), g, x, w);
            if i < p { assert(x.0 < c[i + 1].key.0); if i + 1 < p { assert(c[i + 1].key.0 < c[p].key.0); } assert(c[p].key.0 <= k.0); }
        }
    }
}
pub open spec fn greatest(d: NodeData, h: nat, k: K) -> bool { (exists|v: V| has(d, h, k, v)) && forall|x: K, w: V| #[trigger] has(d, h, x, w) ==> x.0 <= k.0 }
// ---- which children a range of keys touches
pub open spec fn after_start<R: RangeBounds>(r: R, k: K) -> bool { match r.sb() { Bound::Included(s) => s.0 <= k.0, Bound::Excluded(s) => s.0 < k.0, Bound::Unbounded => true } }
pub open spec fn before_end<R: RangeBounds>(r: R, k: K) -> bool { match r.eb() { Bound::Included(e) => k.0 <= e.0, Bound::Excluded(e) => k.0 < e.0, Bound::Unbounded => true } }
/// what is inside lies in no child before; a child that is to go entirely has nothing that comes before the range
pub open spec fn from<R: RangeBounds>(c: Seq<IntElem>, r: R, b: Bound<usize>) -> bool {
    &&& match b { Bound::Included(i) => i < c.len() && forall|k: K| c[i as int].key.0 <= k.0 ==> #[trigger] after_start(r, k), Bound::Excluded(i) => i < c.len(), Bound::Unbounded => false }
    &&& forall|k: K, p: int| after_start(r, k) && #[trigger] place(c, k, p) ==> p >= (match b { Bound::Included(i) => i as int, Bound::Excluded(i) => i as int, Bound::Unbounded => 0 })
}
/// what is inside lies in no child from there on; a child that is to go entirely has nothing that comes after the range
pub open spec fn until<R: RangeBounds>(c: Seq<IntElem>, r: R, u: Option<K>, b: Bound<usize>) -> bool {
    match b {
        Bound::Included(i) => i < c.len() && forall|k: K, p: int| before_end(r, k) && #[trigger] place(c, k, p) ==> p <= i,
        Bound::Excluded(i) => i <= c.len() && (forall|k: K, p: int| before_end(r, k) && k.0 >= c[0].key.0 && #[trigger] place(c, k, p) ==> p < i)
            && forall|k: K| 0 < i && (u matches Some(u) ==> k.0 < u.0) && (i < c.len() ==> k.0 < c[i as int].key.0) ==> #[trigger] before_end(r, k),
        Bound::Unbounded => false
    }
}
pub proof fn lemma_leafful(l: Limits) ensures 0 <= leafful(l) < 0x1_0000_0000_0000, leafful(l) == l.max_leaf_fanout * (kvs() + max_alloc())
{ broadcast use {kvs_small, max_alloc_small}; let a = l.max_leaf_fanout as int; let b = (kvs() + max_alloc()) as int; assert(0 <= a * b <= 0xffff * b) by (nonlinear_arith) requires 0 <= a <= 0xffff, b >= 0; }

// ---- scanning a range: `guard` is where the scan is, `next` the node to its right as far as the range goes
/// how far a node is above the leaves
pub open spec fn hh(d: NodeData) -> nat { choose|h: nat| wf(d, h) }
pub open spec fn well(d: NodeData) -> bool { wf(d, hh(d)) && peopled(d, hh(d)) }
pub open spec fn own(d: NodeData, k: K, v: V) -> bool { has(d, hh(d), k, v) }
pub open spec fn owns(d: NodeData, k: K) -> bool { exists|v: V| own(d, k, v) }
pub open spec fn part_of(d: NodeData, m: Map<K, V>) -> bool { forall|k: K, v: V| #[trigger] own(d, k, v) ==> m.dom().contains(k) && m[k] == v }
pub open spec fn past(d: NodeData, k: K) -> bool { forall|x: K, v: V| #[trigger] own(d, x, v) ==> x.0 < k.0 }
pub open spec fn start_of(d: NodeData) -> K { choose|k: K| low(d, k) }
/// the nodes say all there is of what lies in the range: below `guard`, or below `next`, or beyond both
pub open spec fn scanning<R: RangeBounds>(g: NodeData, ng: Option<NodeData>, r: R, m: Map<K, V>) -> bool {
    &&& well(g) && part_of(g, m)
    &&& match ng {
        None => forall|k: K| #[trigger] m.dom().contains(k) && inside(r, k) ==> owns(g, k) || (past(g, k) && exists|x: K, v: V| #[trigger] own(g, x, v) && after_start(r, x)),
        Some(n) => {
            &&& well(n) && part_of(n, m) && low(n, start_of(n)) && size_of_node(n) > 0
            &&& exists|x: K, v: V| #[trigger] own(n, x, v)
            &&& exists|x: K, v: V| #[trigger] own(g, x, v)
            &&& forall|x: K, v: V| #[trigger] own(n, x, v) ==> after_start(r, x)
            &&& forall|x: K, v: V| #[trigger] own(g, x, v) ==> x.0 < start_of(n).0
            &&& forall|k: K| #[trigger] m.dom().contains(k) && inside(r, k) ==> owns(g, k) || (past(g, k) && k.0 >= start_of(n).0 && (owns(n, k) || past(n, k)))
        }
    }
}
pub open spec fn among(e: Seq<(K, V)>, k: K) -> bool { exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k }
/// a piece of the scan: entries of the range in order, none left out before where it is to go on
pub open spec fn scanned<R: RangeBounds>(e: Seq<(K, V)>, b: Option<Bound<K>>, r: R, m: Map<K, V>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0.0 < (#[trigger] e[j]).0.0
    &&& forall|i: int| 0 <= i < e.len() ==> m.dom().contains((#[trigger] e[i]).0) && inside(r, e[i].0) && e[i].1 == m[e[i].0]
    &&& match b {
        None => forall|k: K| #[trigger] m.dom().contains(k) && inside(r, k) ==> among(e, k),
        Some(Bound::Included(x)) => e.len() > 0 && (forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).0.0 < x.0) && forall|k: K| #[trigger] m.dom().contains(k) && inside(r, k) && k.0 < x.0 ==> among(e, k),
        Some(Bound::Excluded(x)) => e.len() > 0 && (forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).0.0 <= x.0) && forall|k: K| #[trigger] m.dom().contains(k) && inside(r, k) && k.0 <= x.0 ==> among(e, k),
        Some(Bound::Unbounded) => false
    }
}
pub proof fn lemma_height(d: NodeData, h: nat, g: nat) requires wf(d, h), wf(d, g) ensures h == g decreases h
{
    match d { NodeData::Leaf(l) => {}, NodeData::Int(n) => { let c = n.children@[0]; assert(wf(target(c.ptr), (h - 1) as nat)); assert(wf(target(c.ptr), (g - 1) as nat)); lemma_height(target(c.ptr), (h - 1) as nat, (g - 1) as nat); } }
}
/// a node with entries has a least key as its parent knows it
pub proof fn lemma_start(d: NodeData) requires well(d), exists|x: K, v: V| #[trigger] own(d, x, v) ensures low(d, start_of(d)), size_of_node(d) > 0, forall|x: K, v: V| #[trigger] own(d, x, v) ==> start_of(d).0 <= x.0
{
    let h = hh(d);
    match d {
        NodeData::Leaf(l) => { let (x, v) = choose|x: K, v: V| #[trigger] own(d, x, v); assert(l.items@.dom().contains(x)); lemma_least(l.items@, x); let z = choose|z: K| least(l.items@, z); assert(low(d, z)); assert(low(d, start_of(d)));
            assert forall|x: K, v: V| #[trigger] own(d, x, v) implies start_of(d).0 <= x.0 by { assert(l.items@.dom().contains(x)); } lemma_nonempty(l.items@, x); }
        NodeData::Int(n) => { let c = n.children@; assert(low(d, c[0].key)); assert(start_of(d) == c[0].key);
            assert forall|x: K, v: V| #[trigger] own(d, x, v) implies start_of(d).0 <= x.0 by {
                let i = choose|i: int| 0 <= i < c.len() && has(target((#[trigger] c[i]).ptr), (h - 1) as nat, x, v); assert(c[i].key.0 <= x.0); if i > 0 { assert(c[0].key.0 < c[i].key.0); } } }
    }
}
pub proof fn lemma_nonempty(m: Map<K, V>, x: K) requires m.dom().contains(x) ensures m.dom().len() > 0 { assert(m.dom().finite()); if m.dom().len() == 0 { assert(m.dom() =~= Set::empty()); } }
/// a map with an entry has a least one
pub proof fn lemma_least(m: Map<K, V>, x: K) requires m.dom().contains(x) ensures exists|k: K| least(m, k) decreases x.0
{
    if !least(m, x) { let y = choose|y: K| #[trigger] m.dom().contains(y) && y.0 < x.0; lemma_least(m, y); }
}
/// what the i-th child of a node is
pub proof fn lemma_child(d: NodeData, i: int, m: Map<K, V>) requires well(d), part_of(d, m), d is Int, 0 <= i < d->Int_0.children@.len()
    ensures ({ let c = d->Int_0.children@; let t = target(c[i].ptr);
        well(t) && part_of(t, m) && (exists|x: K, v: V| #[trigger] own(t, x, v)) && low(t, start_of(t)) && size_of_node(t) > 0 && start_of(t).0 >= c[i].key.0
        && (forall|x: K, v: V| #[trigger] own(t, x, v) ==> own(d, x, v) && c[i].key.0 <= x.0 && start_of(t).0 <= x.0 && (i + 1 < c.len() ==> x.0 < c[i + 1].key.0)) })
{
    let c = d->Int_0.children@; let h = hh(d); let g = (h - 1) as nat; let t = target(c[i].ptr);
    assert(wf(t, g)); lemma_height(t, g, hh(t)); assert(peopled(t, g)); assert(some_below(t, g));
    let (x, v) = choose|x: K, v: V| #[trigger] has(t, g, x, v); assert(own(t, x, v));
    assert forall|x: K, v: V| #[trigger] own(t, x, v) implies own(d, x, v) && c[i].key.0 <= x.0 && (i + 1 < c.len() ==> x.0 < c[i + 1].key.0) by { assert(has(t, g, x, v)); let ci = c[i]; assert(has(target(c[i].ptr), g, x, v)); }
    lemma_start(t);
    match t { NodeData::Leaf(l) => { let k = start_of(t); assert(own(t, k, l.items@[k])); } NodeData::Int(n) => { assert(start_of(t) == n.children@[0].key); let ci = c[i]; } }
}
/// an entry of a node is one of its i-th child, for some i
pub proof fn lemma_whose(d: NodeData, k: K, v: V) -> (i: int) requires well(d), d is Int, own(d, k, v)
    ensures 0 <= i < d->Int_0.children@.len(), own(target(d->Int_0.children@[i].ptr), k, v), d->Int_0.children@[i].key.0 <= k.0, i + 1 < d->Int_0.children@.len() ==> k.0 < d->Int_0.children@[i + 1].key.0
{
    let c = d->Int_0.children@; let g = (hh(d) - 1) as nat;
    let i = choose|i: int| 0 <= i < c.len() && has(target((#[trigger] c[i]).ptr), g, k, v);
    assert(wf(target(c[i].ptr), g)); lemma_height(target(c[i].ptr), g, hh(target(c[i].ptr))); i
}
/// the key belongs to the i-th child
pub open spec fn slot(c: Seq<IntElem>, i: int, x: K) -> bool { 0 <= i < c.len() && c[i].key.0 <= x.0 && (i + 1 < c.len() ==> x.0 < c[i + 1].key.0) }
/// an entry that comes after the start is below child p or a later one
pub proof fn lemma_slot<R: RangeBounds>(c: Seq<IntElem>, r: R, p: int, i: int, x: K) requires sorted(c), at_start(c, r, p), slot(c, i, x), after_start(r, x) ensures i >= p
{
    if i < p { match r.sb() { Bound::Included(k) => { assert(c[p].key.0 <= k.0); } Bound::Excluded(k) => { assert(c[p].key.0 <= k.0); } Bound::Unbounded => {} } if i + 1 < p { assert(c[i + 1].key.0 < c[p].key.0); } }
}
pub open spec fn at_start<R: RangeBounds>(c: Seq<IntElem>, r: R, p: int) -> bool { 0 <= p < c.len() && match r.sb() { Bound::Included(k) => place(c, k, p), Bound::Excluded(k) => place(c, k, p), Bound::Unbounded => p == 0 } }
/// going down to the last child keeps the scan complete
#[verifier::spinoff_prover]
pub proof fn lemma_scan_last<R: RangeBounds>(g: NodeData, ng: Option<NodeData>, r: R, m: Map<K, V>, p: int)
    requires scanning(g, ng, r, m), g is Int, at_start(g->Int_0.children@, r, p), p + 1 == g->Int_0.children@.len()
    ensures scanning(target(g->Int_0.children@[p].ptr), ng, r, m)
{
    let c = g->Int_0.children@; let t = target(c[p].ptr); assert(sorted(c));
    lemma_child(g, p, m);
    assert forall|k: K, v: V| #[trigger] own(g, k, v) && after_start(r, k) implies own(t, k, v) by { let i = lemma_whose(g, k, v); assert(slot(c, i, k)); lemma_slot(c, r, p, i, k); }
    assert forall|k: K| #[trigger] m.dom().contains(k) && inside(r, k) && owns(g, k) implies owns(t, k) by { let v = choose|v: V| own(g, k, v); assert(own(t, k, v)); }
    assert forall|k: K| past(g, k) implies #[trigger] past(t, k) by { assert forall|x: K, w: V| #[trigger] own(t, x, w) implies x.0 < k.0 by { assert(own(g, x, w)); } }
    if ng is None {
        assert forall|k: K| #[trigger] m.dom().contains(k) && inside(r, k) implies owns(t, k) || (past(t, k) && exists|x: K, v: V| #[trigger] own(t, x, v) && after_start(r, x)) by {
            if !owns(g, k) { let (x, v) = choose|x: K, v: V| #[trigger] own(g, x, v) && after_start(r, x); assert(own(t, x, v)); }
        }
    } else {
        let n = ng->0;
        assert forall|k: K| #[trigger] m.dom().contains(k) && inside(r, k) implies owns(t, k) || (past(t, k) && k.0 >= start_of(n).0 && (owns(n, k) || past(n, k))) by { }
    }
}
/// going down to a child and its right neighbour keeps the scan complete
#[verifier::spinoff_prover]
#[verifier::rlimit(80)]
pub proof fn lemma_scan_inner<R: RangeBounds>(g: NodeData, ng: Option<NodeData>, r: R, m: Map<K, V>, p: int)
    requires scanning(g, ng, r, m), g is Int, at_start(g->Int_0.children@, r, p), p + 1 < g->Int_0.children@.len()
    ensures ({ let c = g->Int_0.children@; let t = target(c[p].ptr); let u = target(c[p + 1].ptr); scanning(t, Some(u), r, m) && start_of(u).0 >= c[p + 1].key.0 && size_of_node(u) > 0 })
{
    let c = g->Int_0.children@; let t = target(c[p].ptr); let u = target(c[p + 1].ptr); assert(sorted(c));
    lemma_child(g, p, m); lemma_child(g, p + 1, m);
    assert forall|x: K, v: V| #[trigger] own(u, x, v) implies after_start(r, x) by { match r.sb() { Bound::Included(k) => { assert(k.0 < c[p + 1].key.0); } Bound::Excluded(k) => { assert(k.0 < c[p + 1].key.0); } Bound::Unbounded => {} } }
    let (y, w) = choose|y: K, w: V| #[trigger] own(u, y, w);
    assert forall|k: K| #[trigger] m.dom().contains(k) && inside(r, k) implies owns(t, k) || (past(t, k) && k.0 >= start_of(u).0 && (owns(u, k) || past(u, k))) by {
        if owns(g, k) {
            let v = choose|v: V| own(g, k, v); let i = lemma_whose(g, k, v); assert(slot(c, i, k)); lemma_slot(c, r, p, i, k);
            if i == p { assert(own(t, k, v)); }
            else {
                assert(c[p + 1].key.0 <= k.0) by { if i > p + 1 { assert(c[p + 1].key.0 < c[i].key.0); } }
                assert(past(t, k)) by { assert forall|x: K, z: V| #[trigger] own(t, x, z) implies x.0 < k.0 by {} }
                if i == p + 1 { assert(own(u, k, v)); assert(start_of(u).0 <= k.0); }
                else {
                    assert(c[p + 2].key.0 <= k.0) by { if i > p + 2 { assert(c[p + 2].key.0 < c[i].key.0); } }
                    assert(past(u, k)) by { assert forall|x: K, z: V| #[trigger] own(u, x, z) implies x.0 < k.0 by {} }
                    assert(start_of(u).0 <= y.0);
                }
            }
        } else {
            assert(past(g, k)); assert(own(g, y, w)); assert(start_of(u).0 <= y.0);
            assert(past(t, k)) by { assert forall|x: K, z: V| #[trigger] own(t, x, z) implies x.0 < k.0 by { assert(own(g, x, z)); } }
            assert(past(u, k)) by { assert forall|x: K, z: V| #[trigger] own(u, x, z) implies x.0 < k.0 by { assert(own(g, x, z)); } }
        }
    }
    assert forall|x: K, v: V| #[trigger] own(t, x, v) implies x.0 < start_of(u).0 by {}
}
/// the right neighbour may be left out if it begins behind the range
pub proof fn lemma_scan_drop<R: RangeBounds>(t: NodeData, u: NodeData, r: R, m: Map<K, V>, z: K)
    requires scanning(t, Some(u), r, m), z.0 <= start_of(u).0, !before_end(r, z)
    ensures scanning(t, None, r, m)
{
    assert forall|k: K| #[trigger] m.dom().contains(k) && inside(r, k) implies owns(t, k) by { if !owns(t, k) { assert(k.0 >= z.0); } }
}
#[verifier::spinoff_prover]
pub proof fn lemma_scan_down<R: RangeBounds>(g: NodeData, ng: Option<NodeData>, r: R, m: Map<K, V>, p: int)
    requires scanning(g, ng, r, m), g is Int, at_start(g->Int_0.children@, r, p)
    ensures ({ let c = g->Int_0.children@; let t = target(c[p].ptr);
        &&& p + 1 == c.len() ==> scanning(t, ng, r, m)
        &&& p + 1 < c.len() ==> ({ let u = target(c[p + 1].ptr); size_of_node(u) > 0 && (forall|z: K| #[trigger] low(u, z) ==> z == start_of(u)) && scanning(t, Some(u), r, m)
            && (!before_end(r, c[p + 1].key) || !before_end(r, start_of(u)) ==> scanning(t, None, r, m)) }) })
{
    let c = g->Int_0.children@; let t = target(c[p].ptr);
    if p + 1 == c.len() { lemma_scan_last(g, ng, r, m, p); }
    else {
        let u = target(c[p + 1].ptr); lemma_scan_inner(g, ng, r, m, p);
        if !before_end(r, c[p + 1].key) { lemma_scan_drop(t, u, r, m, c[p + 1].key); }
        if !before_end(r, start_of(u)) { lemma_scan_drop(t, u, r, m, start_of(u)); }
    }
}
/// what is in a leaf answers the scan, or the node to its right does
#[verifier::spinoff_prover]
pub proof fn lemma_scan_leaf<R: RangeBounds>(g: NodeData, ng: Option<NodeData>, r: R, m: Map<K, V>, e: Seq<(K, V)>, more: bool)
    requires scanning(g, ng, r, m), g is Leaf, listing(e, g->Leaf_0.items@, r),
        !more ==> (forall|k: K| (forall|x: K| #[trigger] g->Leaf_0.items@.dom().contains(x) ==> x.0 < k.0) ==> !#[trigger] inside(r, k)) || g->Leaf_0.items@.dom().len() == 0,
        g->Leaf_0.items@.dom().len() == 0 ==> !more
    ensures
        e.len() == 0 && more && ng is Some ==> scanning(ng->0, None, r, m),
        e.len() == 0 && !(more && ng is Some) ==> scanned(e, None, r, m),
        e.len() > 0 && !more ==> scanned(e, None, r, m),
        e.len() > 0 && more && ng is Some ==> scanned(e, Some(Bound::Included(start_of(ng->0))), r, m),
        e.len() > 0 && more && ng is None ==> forall|l: K| #[trigger] most(g->Leaf_0.items@, l) ==> scanned(e, Some(Bound::Excluded(l)), r, m),
{
    let s = g->Leaf_0.items@;
    if s.dom().len() == 0 { assert(s.dom().finite()); assert(s.dom() =~= Set::empty()); if e.len() > 0 { assert(s.dom().contains(e[0].0)); } }
    assert forall|x: K| #[trigger] s.dom().contains(x) implies own(g, x, s[x]) by {}
    assert forall|x: K, v: V| #[trigger] own(g, x, v) implies s.dom().contains(x) && s[x] == v by {}
    assert forall|i: int| 0 <= i < e.len() implies m.dom().contains((#[trigger] e[i]).0) && inside(r, e[i].0) && e[i].1 == m[e[i].0] by { assert(own(g, e[i].0, s[e[i].0])); }
    assert forall|k: K| #[trigger] m.dom().contains(k) && inside(r, k) && owns(g, k) implies among(e, k) by { assert(s.dom().contains(k)); }
    assert forall|x: K, k: K| #[trigger] s.dom().contains(x) && after_start(r, x) && #[trigger] inside(r, k) && x.0 < k.0 implies e.len() > 0 by { assert(inside(r, x)); assert(among(e, x)); }
    assert forall|k: K| #[trigger] m.dom().contains(k) && inside(r, k) && !owns(g, k) && !more implies false by {
        assert(past(g, k)); assert forall|x: K| #[trigger] s.dom().contains(x) implies x.0 < k.0 by { assert(own(g, x, s[x])); }
        if s.dom().len() == 0 { let (x, v) = choose|x: K, v: V| #[trigger] own(g, x, v); assert(s.dom().contains(x)); }
    }
    if more && ng is None && e.len() == 0 {
        assert forall|k: K| #[trigger] m.dom().contains(k) && inside(r, k) implies false by {
            if owns(g, k) { assert(among(e, k)); } else { let (x, v) = choose|x: K, v: V| #[trigger] own(g, x, v) && after_start(r, x); assert(s.dom().contains(x)); assert(x.0 < k.0); }
        }
    }
    if more && ng is Some && e.len() == 0 {
        assert forall|k: K| #[trigger] m.dom().contains(k) && inside(r, k) implies !owns(g, k) by { if owns(g, k) { assert(among(e, k)); } }
        let (x, v) = choose|x: K, v: V| #[trigger] own(ng->0, x, v); assert(after_start(r, x));
    }
    if more && ng is Some && e.len() > 0 { assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i]).0.0 < start_of(ng->0).0 by { assert(own(g, e[i].0, s[e[i].0])); } }
    if more && ng is None && e.len() > 0 {
        assert forall|l: K| #[trigger] most(s, l) implies scanned(e, Some(Bound::Excluded(l)), r, m) by {
            assert forall|k: K| #[trigger] m.dom().contains(k) && inside(r, k) && k.0 <= l.0 implies among(e, k) by { if !owns(g, k) { assert(own(g, l, s[l])); } }
        }
    }
}
/// T03: pieces of a scan, each going on where the one before ended, are one scan
pub proof fn prop_t03_scan<R: RangeBounds, S: RangeBounds>(a: Seq<(K, V)>, x: Bound<K>, b: Seq<(K, V)>, y: Option<Bound<K>>, r: R, s: S, m: Map<K, V>)
    requires scanned(a, Some(x), r, m), s.sb() == x, s.eb() == r.eb(), scanned(b, y, s, m), forall|k: K| #[trigger] inside(s, k) ==> after_start(r, k)
    ensures scanned(a + b, y, r, m)
{
    let e = a + b;
    assert forall|i: int| 0 <= i < a.len() implies e[i] == (#[trigger] a[i]) by {}
    assert forall|i: int| 0 <= i < b.len() implies e[a.len() + i] == (#[trigger] b[i]) by {}
    assert forall|k: K| among(a, k) || among(b, k) implies among(e, k) by {
        if among(a, k) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == k; assert(e[i].0 == k); }
        else { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 == k; assert(e[a.len() + i].0 == k); }
    }
    assert forall|i: int| 0 <= i < e.len() implies m.dom().contains((#[trigger] e[i]).0) && inside(r, e[i].0) && e[i].1 == m[e[i].0] by {
        if i < a.len() { assert(e[i] == a[i]); } else { assert(e[i] == b[i - a.len()]); assert(inside(s, b[i - a.len()].0)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < e.len() implies (#[trigger] e[i]).0.0 < (#[trigger] e[j]).0.0 by {
        if j >= a.len() { assert(e[j] == b[j - a.len()]); assert(inside(s, b[j - a.len()].0)); if i < a.len() { assert(e[i] == a[i]); } else { assert(e[i] == b[i - a.len()]); } } else { assert(e[i] == a[i] && e[j] == a[j]); }
    }
    assert forall|k: K| #[trigger] m.dom().contains(k) && inside(r, k) implies among(a, k) || inside(s, k) by {}
    match y {
        Some(z) => { assert(b.len() > 0); assert(e[a.len() as int] == b[0]); let n = a.len() as int;
            assert forall|i: int| 0 <= i < a.len() implies (#[trigger] e[i]).0.0 < b[0].0.0 by { assert(e[i] == a[i]); assert(inside(s, b[0].0)); }
            assert forall|i: int| 0 <= i < e.len() implies (match z { Bound::Included(w) => (#[trigger] e[i]).0.0 < w.0, Bound::Excluded(w) => e[i].0.0 <= w.0, Bound::Unbounded => false }) by { if i >= n { assert(e[i] == b[i - n]); } else { assert(e[i].0.0 < b[0].0.0); } } }
        None => {}
    }
}
/// the tree holds the map
pub open spec fn rooted(t: Tree, m: Map<K, V>) -> bool { let d = target(t.root().ptr); well(d) && part_of(d, m) && forall|k: K| #[trigger] m.dom().contains(k) ==> owns(d, k) }
pub proof fn lemma_scan_root<R: RangeBounds>(t: Tree, r: R, m: Map<K, V>) requires rooted(t, m) ensures scanning(target(t.root().ptr), None, r, m) {}
/// the node begins within the range's end
pub open spec fn reaches<R: RangeBounds>(r: R, d: NodeData) -> bool { forall|k: K| #[trigger] low(d, k) ==> match r.eb() { Bound::Included(e) => k.0 <= e.0, Bound::Excluded(e) => k.0 < e.0, Bound::Unbounded => true } }
/// what a scan has still to yield
pub open spec fn remains(s: Seq<(K, V)>, q: RangeQuery, m: Map<K, V>) -> bool {
    &&& rooted(q.tree, m)
    &&& s.len() >= q.data@.len() && s.take(q.data@.len() as int) == q.data@
    &&& match q.cursor { Some(c) => proper(c, q.end) && listing(s.skip(q.data@.len() as int), m, (c, q.end)), None => s.len() == q.data@.len() }
    &&& q.last_fut matches Some(f) ==> q.cursor is Some && f.rng() == (q.cursor->0, q.end) && f.of() == m
}
pub open spec fn ahead(b: Option<Bound<K>>, k: K) -> bool { match b { None => true, Some(Bound::Included(x)) => k.0 < x.0, Some(Bound::Excluded(x)) => k.0 <= x.0, Some(Bound::Unbounded) => false } }
/// a piece of a scan is the beginning of all of it
#[verifier::spinoff_prover]
#[verifier::rlimit(80)]
pub proof fn lemma_prefix<R: RangeBounds>(v: Seq<(K, V)>, b: Option<Bound<K>>, t: Seq<(K, V)>, r: R, m: Map<K, V>, i: int) requires scanned(v, b, r, m), listing(t, m, r), 0 <= i <= v.len() ensures i <= t.len(), t.take(i) =~= v.take(i) decreases i
{
    if i > 0 {
        lemma_prefix(v, b, t, r, m, i - 1); let n = i - 1;
        assert forall|j: int| 0 <= j < n implies (#[trigger] t[j]) == v[j] by { assert(t.take(n)[j] == v.take(n)[j]); }
        let x = v[n]; assert(m.dom().contains(x.0) && inside(r, x.0));
        let q = choose|q: int| 0 <= q < t.len() && (#[trigger] t[q]).0 == x.0;
        if q < n { assert(t[q] == v[q]); assert(v[q].0.0 < v[n].0.0); }
        let y = t[n]; assert(y.0.0 <= x.0.0) by { if n < q { assert(t[n].0.0 < t[q].0.0); } }
        assert(ahead(b, y.0)); assert(m.dom().contains(y.0)); assert(among(v, y.0));
        let p = choose|p: int| 0 <= p < v.len() && (#[trigger] v[p]).0 == y.0;
        if p < n { assert(t[p] == v[p]); assert(t[p].0.0 < t[n].0.0); }
        if p > n { assert(v[n].0.0 < v[p].0.0); }
        assert(t[n] == v[n]); assert(t.take(i) =~= t.take(n).push(t[n])); assert(v.take(i) =~= v.take(n).push(v[n]));
    }
}
#[verifier::spinoff_prover]
#[verifier::rlimit(80)]
pub proof fn lemma_piece(s: Seq<(K, V)>, q: RangeQuery, z: RangeQuery, m: Map<K, V>)
    requires remains(s, q, m), q.data@.len() == 0, q.cursor is Some, z.tree == q.tree, z.end == q.end, z.last_fut is None, z.cursor matches Some(c) ==> proper(c, q.end),
        exists|v: Seq<(K, V)>| #[trigger] scanned(v, z.cursor, (q.cursor->0, q.end), m) && (v.len() == 0 ==> z.data@ == v) && (v.len() > 0 ==> z.data@ == v.drop_first())
    ensures s.len() == 0 ==> remains(s, z, m), s.len() > 0 ==> remains(s.drop_first(), z, m),
        forall|v: Seq<(K, V)>| #[trigger] scanned(v, z.cursor, (q.cursor->0, q.end), m) && (v.len() == 0 ==> z.data@ == v) && (v.len() > 0 ==> z.data@ == v.drop_first()) ==> (v.len() == 0 <==> s.len() == 0) && (v.len() > 0 ==> s[0] == v[0])
{
    assert(s.skip(0) =~= s);
    let r = (q.cursor->0, q.end);
    assert forall|v: Seq<(K, V)>| #[trigger] scanned(v, z.cursor, r, m) && (v.len() == 0 ==> z.data@ == v) && (v.len() > 0 ==> z.data@ == v.drop_first()) implies (v.len() == 0 <==> s.len() == 0) && (v.len() > 0 ==> s[0] == v[0]) && (s.len() == 0 ==> remains(s, z, m)) && (s.len() > 0 ==> remains(s.drop_first(), z, m)) by {
        let n = v.len() as int; lemma_prefix(v, z.cursor, s, r, m, n); assert(v.take(n) =~= v);
        assert forall|j: int| 0 <= j < n implies (#[trigger] s[j]) == v[j] by { assert(s.take(n)[j] == v[j]); }
        let t = s.skip(n);
        assert forall|j: int| n <= j < s.len() implies !ahead(z.cursor, (#[trigger] s[j]).0) by { if ahead(z.cursor, s[j].0) { assert(among(v, s[j].0)); let p = choose|p: int| 0 <= p < v.len() && (#[trigger] v[p]).0 == s[j].0; assert(s[p] == v[p]); assert(s[p].0.0 < s[j].0.0); } }
        if z.cursor is None { if s.len() > n { assert(!ahead(z.cursor, s[n].0)); } assert(s.len() == n); }
        if n == 0 { assert(z.cursor is None); assert(s =~= v); assert(s.take(0) =~= z.data@); }
        else {
            let d = s.drop_first(); assert(d.take(n - 1) =~= v.drop_first()); assert(d.skip(n - 1) =~= t);
            if z.cursor is Some {
                let r2 = (z.cursor->0, z.end);
                assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0.0 < (#[trigger] t[j]).0.0 by { assert(t[i] == s[n + i] && t[j] == s[n + j]); }
                assert forall|i: int| 0 <= i < t.len() implies m.dom().contains((#[trigger] t[i]).0) && inside(r2, t[i].0) && t[i].1 == m[t[i].0] by { assert(t[i] == s[n + i]); assert(!ahead(z.cursor, s[n + i].0)); }
                assert forall|k: K| #[trigger] m.dom().contains(k) && inside(r2, k) implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k by {
                    assert(inside(r, v[0].0)); assert(v[0].0.0 <= k.0); assert(inside(r, k));
                    let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == k; if j < n { assert(s[j] == v[j]); assert(ahead(z.cursor, v[j].0)); } assert(t[j - n] == s[j]);
                }
            }
        }
    }
}
/// taking the first pair held back leaves the rest to come
#[verifier::spinoff_prover]
#[verifier::rlimit(80)]
pub proof fn lemma_next(s: Seq<(K, V)>, q: RangeQuery, m: Map<K, V>) requires remains(s, q, m)
    ensures q.data@.len() > 0 ==> s.len() > 0 && s[0] == q.data@[0], forall|z: RangeQuery| q.data@.len() > 0 && z.data@ == q.data@.drop_first() && z.cursor == q.cursor && z.end == q.end && z.last_fut == q.last_fut && z.tree == q.tree ==> #[trigger] remains(s.drop_first(), z, m)
{
    let n = q.data@.len() as int;
    if n > 0 {
        assert(s[0] == s.take(n)[0]); assert(s.drop_first().take(n - 1) =~= q.data@.drop_first()) by { assert forall|j: int| 0 <= j < n - 1 implies s.drop_first().take(n - 1)[j] == q.data@.drop_first()[j] by { assert(s.take(n)[j + 1] == q.data@[j + 1]); } }
        assert(s.drop_first().skip(n - 1) =~= s.skip(n));
    }
}
/// a scan that has yielded nothing has all of the listing to yield
#[verifier::spinoff_prover]
#[verifier::rlimit(80)]
pub proof fn prop_t03_stream<R: RangeBounds>(s: Seq<(K, V)>, q: RangeQuery, m: Map<K, V>, r: R) requires listing(s, m, r), proper(r.sb(), r.eb()), rooted(q.tree, m), q.data@.len() == 0, q.last_fut is None, q.cursor == Some(r.sb()), q.end == r.eb() ensures remains(s, q, m)
{
    assert(s.skip(0) =~= s); assert(s.take(0) =~= q.data@); let p = (r.sb(), r.eb());
    assert forall|k: K| inside(r, k) == #[trigger] inside(p, k) by {}
    assert forall|i: int| 0 <= i < s.len() implies m.dom().contains((#[trigger] s[i]).0) && inside(p, s[i].0) && s[i].1 == m[s[i].0] by {}
    assert forall|k: K| #[trigger] m.dom().contains(k) && inside(p, k) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k by { assert(inside(r, k)); }
    assert(listing(s, m, p));
}
/// a piece is empty only at the end, and begins with the next pair
#[verifier::spinoff_prover]
#[verifier::rlimit(80)]
pub proof fn lemma_firsts<R: RangeBounds>(v: Seq<(K, V)>, b: Option<Bound<K>>, s: Seq<(K, V)>, r: R, m: Map<K, V>) requires scanned(v, b, r, m), listing(s, m, r) ensures v.len() == 0 <==> s.len() == 0, v.len() > 0 ==> s[0] == v[0]
{
    lemma_prefix(v, b, s, r, m, v.len() as int);
    if v.len() > 0 { assert(s.take(v.len() as int)[0] == v[0]); } else if s.len() > 0 { assert(m.dom().contains(s[0].0) && inside(r, s[0].0)); assert(among(v, s[0].0)); }
}
/// polls a piece and says what its answer means for the scan it belongs to
#[verifier::spinoff_prover]
#[verifier::rlimit(80)]
pub fn vp_poll(f: &mut Piece, cx: &mut Context, Ghost(s): Ghost<Seq<(K, V)>>, Ghost(q): Ghost<RangeQuery>, Ghost(m): Ghost<Map<K, V>>) -> (ret: Poll<Result<(Queue, Option<Bound<K>>)>>)
    requires remains(s, q, m), q.data@.len() == 0, q.cursor is Some, old(f).rng() == (q.cursor->0, q.end), old(f).of() == m
    ensures final(f).rng() == old(f).rng(), final(f).of() == old(f).of(), ret matches Poll::Ready(Ok(p)) ==> (p.0@.len() == 0 <==> s.len() == 0) && (p.0@.len() > 0 ==> s[0] == p.0@[0])
        && forall|z: RangeQuery| #![trigger remains(s, z, m)] #![trigger remains(s.drop_first(), z, m)] z.cursor == p.1 && z.tree == q.tree && z.end == q.end && z.last_fut is None && (p.0@.len() == 0 ==> z.data@ == p.0@) && (p.0@.len() > 0 ==> z.data@ == p.0@.drop_first()) ==> (s.len() == 0 ==> remains(s, z, m)) && (s.len() > 0 ==> remains(s.drop_first(), z, m))
{
    let r = f.poll(cx);
    proof {
        if let Poll::Ready(Ok(ref p)) = r {
            let v = p.0@;
            assert forall|z: RangeQuery| #![trigger remains(s, z, m)] #![trigger remains(s.drop_first(), z, m)] z.cursor == p.1 && z.tree == q.tree && z.end == q.end && z.last_fut is None && (v.len() == 0 ==> z.data@ == v) && (v.len() > 0 ==> z.data@ == v.drop_first()) implies (s.len() == 0 ==> remains(s, z, m)) && (s.len() > 0 ==> remains(s.drop_first(), z, m)) by { assert(scanned(v, z.cursor, (q.cursor->0, q.end), m)); lemma_piece(s, q, z, m); }
            assert(s.skip(0) =~= s); lemma_firsts(v, p.1, s, (q.cursor->0, q.end), m);
        }
    }
    r
}
// ---- two siblings repaired
/// a key below a node, as its parent sees them
pub open spec fn keyed(d: NodeData, k: K) -> bool { match d { NodeData::Leaf(l) => l.items@.dom().contains(k), NodeData::Int(n) => exists|i: int| 0 <= i < n.children@.len() && (#[trigger] n.children@[i]).key == k } }
pub open spec fn same_kind(a: NodeData, b: NodeData) -> bool { a is Leaf <==> b is Leaf }
/// a child lies between its own key in the parent and the next child's
pub open spec fn fits(d: NodeData, c: Seq<IntElem>, i: int) -> bool { forall|k: K| #[trigger] keyed(d, k) ==> c[i].key.0 <= k.0 && (i + 1 < c.len() ==> k.0 < c[i + 1].key.0) }
/// a transaction before which nothing in the node is
pub open spec fn aged(d: NodeData, t: TxgT, now: TxgT) -> bool { match d { NodeData::Leaf(_) => t.0 <= now.0, NodeData::Int(n) => exists|o: TxgT| #[trigger] oldest(n.children@, o) && t.0 <= o.0 } }
/// every child but those at `i` and `j` is as it was, behind them shifted by `by`
pub open spec fn elsewhere(c: Seq<IntElem>, o: Seq<IntElem>, i: int) -> bool { forall|j: int| 0 <= j < c.len() && j != i && j != i + 1 && j < o.len() ==> #[trigger] c[j] == o[j] }
pub open spec fn elsewhere1(c: Seq<IntElem>, o: Seq<IntElem>, i: int) -> bool { (forall|j: int| 0 <= j < i ==> #[trigger] c[j] == o[j]) && forall|j: int| i < j < c.len() ==> #[trigger] c[j] == o[j + 1] }
/// what repairing the children `l` and `r` of `o` at `i` and `i + 1` leaves: one child, or two
pub open spec fn repaired(o: Seq<IntElem>, c: Seq<IntElem>, i: int, l: NodeData, r: NodeData, x: NodeData, y: NodeData, one: bool, lim: Limits, now: TxgT) -> bool {
    &&& sorted(c) && c[i].key == o[i].key && aged(x, c[i].txgs.start, now) && c[i].txgs.end.0 == now.0 + 1
    &&& one == (size_of_node(l) + size_of_node(r) <= max_of(l, lim))
    &&& one ==> c.len() == o.len() - 1 && elsewhere1(c, o, i) && cut_in_two(x, l, r) && sound(x) && paid(x)
    &&& !one ==> c.len() == o.len() && elsewhere(c, o, i) && together(l, r, x, y) && low(y, c[i + 1].key) && aged(y, c[i + 1].txgs.start, now) && c[i + 1].txgs.end.0 == now.0 + 1 && sound(x) && sound(y) && paid(x) && paid(y)
}
#[verifier::spinoff_prover]
#[verifier::rlimit(80)]
pub proof fn lemma_shared(o: Seq<IntElem>, i: int, l: NodeData, r: NodeData, x: NodeData, y: NodeData, k: K)
    requires 0 <= i < o.len() - 1, sorted(o), siblings(l, r), fits(l, o, i), fits(r, o, i + 1), together(l, r, x, y), sound(x), sound(y), low(y, k), size_of_node(x) > 0
    ensures o[i].key.0 < k.0, i + 2 < o.len() ==> k.0 < o[i + 2].key.0
{
    assert(keyed(l, k) || keyed(r, k)) by {
        if y is Int { let c = y->Int_0.children@; let a = l->Int_0.children@; let b = r->Int_0.children@; let xs = x->Int_0.children@; let n = xs.len() as int; assert((xs + c)[n] == c[0]); assert((a + b)[n] == c[0]);
            if n < a.len() { assert(a[n].key == k); } else { assert(b[n - a.len()].key == k); } }
    }
    if keyed(l, k) { assert(k.0 < o[i + 1].key.0);
        let z = if x is Leaf { choose|z: K| #[trigger] x->Leaf_0.items@.dom().contains(z) } else { x->Int_0.children@[0].key };
        if x is Leaf { let xs = x->Leaf_0.items@; assert(xs.dom().contains(z)) by { if forall|q: K| !#[trigger] xs.dom().contains(q) { assert(xs.dom() =~= Set::empty()); } } assert(joined(l->Leaf_0.items@, r->Leaf_0.items@).dom().contains(z)); assert(keyed(l, z) || keyed(r, z)); assert(z.0 < k.0); }
        else { let xs = x->Int_0.children@; let c = y->Int_0.children@; let a = l->Int_0.children@; let b = r->Int_0.children@; let n = xs.len() as int; assert((xs + c)[0] == xs[0]); assert((xs + c)[n] == c[0]); assert((a + b)[0].key == z); assert((a + b)[n].key == k); assert(z.0 < k.0); if a.len() > 0 { assert(a[0].key == z); } else { assert(b[0].key == z); } assert(keyed(l, z) || keyed(r, z)); }
        assert(o[i].key.0 < o[i + 1].key.0);
    } else { assert(o[i].key.0 < o[i + 1].key.0); }
    if i + 2 < o.len() { assert(o[i + 1].key.0 < o[i + 2].key.0); }
}
#[verifier::spinoff_prover]
#[verifier::rlimit(80)]
pub proof fn lemma_dropped(o: Seq<IntElem>, c: Seq<IntElem>, i: int) requires sorted(o), 0 <= i < o.len() - 1, c.len() == o.len() - 1, elsewhere1(c, o, i), c[i].key == o[i].key ensures sorted(c)
{
    assert forall|p: int, q: int| 0 <= p < q < c.len() implies (#[trigger] c[p]).key.0 < (#[trigger] c[q]).key.0 by { let a = if p <= i { p } else { p + 1 }; let b = if q <= i { q } else { q + 1 }; assert(c[p].key == o[a].key); assert(c[q].key == o[b].key); assert(o[a].key.0 < o[b].key.0); }
}
#[verifier::spinoff_prover]
#[verifier::rlimit(80)]
pub proof fn lemma_rekeyed(o: Seq<IntElem>, c: Seq<IntElem>, i: int) requires sorted(o), 0 <= i < o.len() - 1, c.len() == o.len(), elsewhere(c, o, i), c[i].key == o[i].key, o[i].key.0 < c[i + 1].key.0, i + 2 < o.len() ==> c[i + 1].key.0 < o[i + 2].key.0 ensures sorted(c)
{
    assert forall|p: int, q: int| 0 <= p < q < c.len() implies (#[trigger] c[p]).key.0 < (#[trigger] c[q]).key.0 by {
        if p != i + 1 && q != i + 1 { assert(c[p].key == o[p].key && c[q].key == o[q].key); assert(o[p].key.0 < o[q].key.0); }
        else if q == i + 1 { assert(c[p].key == o[p].key); if p < i { assert(o[p].key.0 < o[i].key.0); } }
        else { assert(c[q].key == o[q].key); if q > i + 2 { assert(o[i + 2].key.0 < o[q].key.0); } }
    }
}
pub open spec fn alike(a: NodeData, b: NodeData) -> bool { match (a, b) { (NodeData::Leaf(a), NodeData::Leaf(b)) => a.items@ == b.items@, (NodeData::Int(a), NodeData::Int(b)) => a.children@ == b.children@, _ => false } }
pub open spec fn pair_at(n: int, i: int) -> int { if i < n - 1 { i } else { i - 1 } }
/// an inner node `p` whose child `i` is `d`, small, and locked; its sibling there lies beside it
pub open spec fn pair(c: Seq<IntElem>, i: int, d: NodeData, lim: Limits, now: TxgT) -> bool {
    &&& sorted(c) && 0 <= i < c.len() && 2 <= c.len() < 0x1000_0000 && c[i].txgs.end.0 == now.0 + 1 && now.0 < u32::MAX && paid(d) && sound(d) && 2 * size_of_node(d) <= max_of(d, lim) && max_of(d, lim) >= 4
    &&& if i < c.len() - 1 { let r = target(c[i + 1].ptr); siblings(d, r) && roomy(d, r) && sound(r) && size_of_node(r) > 0 && ready(c[i + 1].ptr) && since(c[i + 1]) && c[i + 1].txgs.start.0 <= now.0 && fits(d, c, i) && fits(r, c, i + 1) } else { let l = target(c[i - 1].ptr); siblings(l, d) && roomy(l, d) && sound(l) && size_of_node(l) > 0 && ready(c[i - 1].ptr) && since(c[i - 1]) && c[i - 1].txgs.start.0 <= now.0 && fits(l, c, i - 1) && fits(d, c, i) }
}
pub open spec fn fixed(o: Seq<IntElem>, c: Seq<IntElem>, i: int, d: NodeData, x: NodeData, y: NodeData, before: int, after: int, lim: Limits, now: TxgT) -> bool {
    let r = i < o.len() - 1; let s = target(o[if r { i + 1 } else { i - 1 }].ptr); let one = before + after == 1;
    (one || (before == 0 && after == 0)) && (one ==> (after == 1) == r) && repaired(o, c, if r { i } else { i - 1 }, if r { d } else { s }, if r { s } else { d }, x, y, one, lim, now)
}
#[verifier::spinoff_prover]
#[verifier::rlimit(80)]
pub proof fn lemma_fixed(o: Seq<IntElem>, c: Seq<IntElem>, i: int, d: NodeData, x: NodeData, y: NodeData, before: int, after: int, lim: Limits, now: TxgT)
    requires pair(o, i, d, lim, now), before == 0 && after == 0 ==> size_of_node(x) > 0 && sound(x) && sound(y)
    ensures ({ let r = i < o.len() - 1; let p = if r { i } else { i - 1 }; let s = target(o[if r { i + 1 } else { i - 1 }].ptr); let a = if r { d } else { s }; let b = if r { s } else { d };
        &&& c.len() == o.len() - 1 && elsewhere1(c, o, p) && c[p].key == o[p].key ==> sorted(c)
        &&& before == 0 && after == 0 && c.len() == o.len() && elsewhere(c, o, p) && c[p].key == o[p].key && together(a, b, x, y) && low(y, c[p + 1].key) ==> sorted(c) })
{
    let r = i < o.len() - 1; let p = if r { i } else { i - 1 }; let s = target(o[if r { i + 1 } else { i - 1 }].ptr); let a = if r { d } else { s }; let b = if r { s } else { d };
    if c.len() == o.len() - 1 && elsewhere1(c, o, p) && c[p].key == o[p].key { lemma_dropped(o, c, p); }
    if before == 0 && after == 0 && c.len() == o.len() && elsewhere(c, o, p) && c[p].key == o[p].key && together(a, b, x, y) && low(y, c[p + 1].key) { lemma_shared(o, p, a, b, x, y, c[p + 1].key); lemma_rekeyed(o, c, p); }
}
pub open spec fn fixes(o: Seq<IntElem>, c: Seq<IntElem>, i: int, d: NodeData, before: int, after: int, lim: Limits, now: TxgT) -> bool { exists|x: NodeData, y: NodeData| #[trigger] fixed(o, c, i, d, x, y, before, after, lim, now) }
/// what the parent records of a child's age
pub open spec fn since(e: IntElem) -> bool { target(e.ptr) matches NodeData::Int(n) ==> aged(target(e.ptr), e.txgs.start, e.txgs.start) }
/// the parent `p` as it was, `o`, with its child `i` resident, and that child's content `d`
pub open spec fn locked(o: NodeData, p: NodeData, d: NodeData, i: int, now: TxgT) -> bool {
    &&& p is Int && p->Int_0.children@.len() == o->Int_0.children@.len() && forall|j: int| 0 <= j < o->Int_0.children@.len() && j != i ==> #[trigger] p->Int_0.children@[j] == o->Int_0.children@[j]
    &&& ({ let a = o->Int_0.children@[i]; let b = p->Int_0.children@[i]; b.key == a.key && b.txgs.end.0 == now.0 + 1 && b.ptr is Mem && target(b.ptr) == d && alike(d, target(a.ptr)) && paid(d) && (if a.ptr is Mem { b.txgs.start == a.txgs.start } else { aged(d, b.txgs.start, now) }) })
}
/// the parent `p` as it was, `o`; its child `i`'s content `d`; the element to put in its place, if that is due
pub open spec fn apart(o: NodeData, p: NodeData, e: Option<IntElem>, d: NodeData, i: int, height: int, now: TxgT) -> bool {
    &&& p is Int && p->Int_0.children@.len() == o->Int_0.children@.len() && forall|j: int| 0 <= j < o->Int_0.children@.len() && j != i ==> #[trigger] p->Int_0.children@[j] == o->Int_0.children@[j]
    &&& ({ let a = o->Int_0.children@[i]; let b = p->Int_0.children@[i]; b.key == a.key && b.ptr == a.ptr && b.txgs.end.0 == now.0 + 1 && alike(d, target(a.ptr)) && paid(d) && (e is None) == (a.ptr is Mem)
        && (a.ptr is Mem ==> (b.txgs.start == a.txgs.start || (height == 1 && b.txgs.start.0 <= now.0))) && (e matches Some(x) ==> x.ptr is Mem && target(x.ptr) == d && low(d, x.key) && x.txgs.end.0 == now.0 + 1 && aged(d, x.txgs.start, now)) })
}
/// the root `d` of the tree, resident and held, with what was behind `o`
pub open spec fn held(g: TreeRoot, d: NodeData, o: TreePtr, now: TxgT) -> bool { g.elem.ptr is Mem && target(g.elem.ptr) == d && alike(d, target(o)) && paid(d) && g.elem.txgs.end.0 == now.0 + 1 }
/// ... or its only child in its place, or an empty leaf if it has none
pub open spec fn rooted_at(o: TreeRoot, g: TreeRoot, d: NodeData, now: TxgT) -> bool {
    match target(o.elem.ptr) {
        NodeData::Int(n) if n.children@.len() == 1 => held(g, d, n.children@[0].ptr, now) && g.elem.key.0 == 0 && g.height == o.height - 1,
        NodeData::Int(n) if n.children@.len() == 0 => g.elem.key.0 == 0 && g.height == 1 && (d matches NodeData::Leaf(l) && l.items@ == Map::<K, V>::empty() && l.credit.v() == 0),
        _ => held(g, d, o.elem.ptr, now) && g.elem.key == o.elem.key && g.height == o.height,
    }
}
/// an only child holds what the root held
pub proof fn prop_t03_root(d: NodeData, h: nat, k: K, v: V) requires wf(d, h), d is Int, d->Int_0.children@.len() == 1 ensures h > 0, wf(target(d->Int_0.children@[0].ptr), (h - 1) as nat), has(d, h, k, v) <==> has(target(d->Int_0.children@[0].ptr), (h - 1) as nat, k, v)
{
    let c = d->Int_0.children@;
    if has(target(c[0].ptr), (h - 1) as nat, k, v) { assert(has(target(c[0].ptr), (h - 1) as nat, k, v)); }
    if has(d, h, k, v) { let i = choose|i: int| 0 <= i < c.len() && has(target((#[trigger] c[i]).ptr), (h - 1) as nat, k, v); assert(i == 0); }
}
