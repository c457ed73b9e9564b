pub open spec fn uuid_of(c: Child) -> Uuid { match c { Child::Present(v) => v.i.id(), Child::Rebuilding(v) => v.i.id(), Child::Faulted(v) => v.i.id(), Child::Missing(u) => u } }
pub open spec fn vdev_of(c: Child) -> VdevBlock { match c { Child::Present(v) => v.i, Child::Rebuilding(v) => v.i, Child::Faulted(v) => v.i, Child::Missing(u) => arbitrary() } }
pub open spec fn restored(c: Child) -> Child { match c { Child::Rebuilding(v) => Child::Present(v), _ => c } }
/// what is left of an iterator
#[verifier::external_body] pub fn vp_next<T>(v: &mut Vec<T>) -> (r: Option<T>) ensures old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@, old(v)@.len() > 0 ==> r == Some(old(v)@[0]) && final(v)@ == old(v)@.skip(1) { unimplemented!() }
/// leaves that are there have the same size and the same zones
pub open spec fn alike(c: Seq<Child>) -> bool { forall|i: int, j: int| #![trigger c[i], c[j]] 0 <= i < c.len() && 0 <= j < c.len() && !(c[i] is Missing) && !(c[j] is Missing) ==> vdev_of(c[i]).sz() == vdev_of(c[j]).sz() && vdev_of(c[i]).zsz() == vdev_of(c[j]).zsz() }
pub open spec fn ids_differ(v: Seq<Result<Pair, Error>>) -> bool { forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() && v[i] is Ok && v[j] is Ok ==> (v[i]->Ok_0).0.id() != (v[j]->Ok_0).0.id() }
/// different devices, all of one mirror, each listed in its own label, which lists nobody twice
pub open spec fn pairs_ok(u: Option<Uuid>, c: Seq<Pair>) -> bool {
    c.len() > 0 && (forall|i: int, j: int| #![trigger c[i], c[j]] 0 <= i < j < c.len() ==> c[i].0.id() != c[j].0.id())
    && (forall|i: int| #![trigger c[i]] 0 <= i < c.len() ==> (u is Some ==> c[i].1.next().uuid == u->0) && c[i].1.next().children@.contains(c[i].0.id()) && c[i].1.next().children@.no_duplicates())
}
/// the devices found, by who they are
pub open spec fn found(c: Seq<Pair>, n: int) -> Map<Uuid, VdevBlock> decreases n { if n <= 0 { Map::empty() } else { found(c, n - 1).insert(c[n - 1].0.id(), c[n - 1].0) } }
pub open spec fn known(c: Seq<Pair>, u: Uuid) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).0.id() == u }
pub open spec fn isin(c: Seq<Pair>, v: VdevBlock) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).0 == v }
/// up to date: its label is as new as any; behind: it waits to be rebuilt; or it is not there
pub open spec fn child_ok(c: Seq<Pair>, ch: Child, u: Uuid, t: TxgT) -> bool {
    uuid_of(ch) == u && match ch { Child::Present(v) => v.i.t() == t && isin(c, v.i), Child::Rebuilding(v) => v.i.t().0 < t.0 && isin(c, v.i), Child::Missing(_) => !known(c, u), Child::Faulted(_) => false }
}
/// the newest label counts: its leaves, its order, its reader
pub open spec fn opened(c: Seq<Pair>, m: Mirror, r: LabelReader, t: TxgT) -> bool {
    (forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).0.t().0 <= t.0)
    && exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).0.t() == t && r.src() == c[i].1.src() && m.uuid == c[i].1.next().uuid && m.children@.len() == c[i].1.next().children@.len()
        && forall|j: int| 0 <= j < m.children@.len() ==> child_ok(c, #[trigger] m.children@[j], c[i].1.next().children@[j], t)
}
// ----x
pub open spec fn listed(c: Seq<Child>, n: int) -> Seq<VdevBlock> decreases n { if n <= 0 { Seq::empty() } else if c[n - 1] is Missing { listed(c, n - 1) } else { listed(c, n - 1).push(vdev_of(c[n - 1])) } }
pub open spec fn is_list(a: Seq<&VpArc<VdevBlock>>, l: Seq<VdevBlock>) -> bool { a.len() == l.len() && forall|k: int| #![trigger a[k]] #![trigger l[k]] 0 <= k < l.len() ==> a[k].i == l[k] }
proof fn lemma_listed(c: Seq<Child>, n: int) requires 0 <= n <= c.len()
    ensures forall|k: int| 0 <= k < listed(c, n).len() ==> exists|j: int| 0 <= j < n && !(#[trigger] c[j] is Missing) && vdev_of(c[j]) == #[trigger] listed(c, n)[k],
            forall|j: int| 0 <= j < n && !(#[trigger] c[j] is Missing) ==> exists|k: int| 0 <= k < listed(c, n).len() && #[trigger] listed(c, n)[k] == vdev_of(c[j])
    decreases n
{
    if n > 0 {
        lemma_listed(c, n - 1); let o = listed(c, n - 1); let l = listed(c, n);
        assert forall|k: int| 0 <= k < l.len() implies exists|j: int| 0 <= j < n && !(#[trigger] c[j] is Missing) && vdev_of(c[j]) == #[trigger] l[k] by { if k < o.len() { assert(l[k] == o[k]); } else { assert(!(c[n - 1] is Missing)); } }
        assert forall|j: int| 0 <= j < n && !(#[trigger] c[j] is Missing) implies exists|k: int| 0 <= k < l.len() && #[trigger] l[k] == vdev_of(c[j]) by { if j < n - 1 { let k = choose|k: int| 0 <= k < o.len() && #[trigger] o[k] == vdev_of(c[j]); assert(l[k] == vdev_of(c[j])); } else { assert(l[o.len() as int] == vdev_of(c[j])); } }
    }
}
proof fn lemma_alike(c: Seq<Child>, a: int, b: int) requires 0 <= a < listed(c, c.len() as int).len(), 0 <= b < listed(c, c.len() as int).len()
    ensures alike(c) ==> listed(c, c.len() as int)[a].sz() == listed(c, c.len() as int)[b].sz() && listed(c, c.len() as int)[a].zsz() == listed(c, c.len() as int)[b].zsz()
{ lemma_listed(c, c.len() as int); let l = listed(c, c.len() as int); let i = choose|j: int| 0 <= j < c.len() && !(#[trigger] c[j] is Missing) && vdev_of(c[j]) == l[a]; let j = choose|j: int| 0 <= j < c.len() && !(#[trigger] c[j] is Missing) && vdev_of(c[j]) == l[b]; assert(alike(c) ==> vdev_of(c[i]).sz() == vdev_of(c[j]).sz()); }
proof fn lemma_same(c: Seq<Child>, s: u64, z: u64) requires forall|k: int| #![trigger listed(c, c.len() as int)[k]] 0 <= k < listed(c, c.len() as int).len() ==> listed(c, c.len() as int)[k].sz() == s && listed(c, c.len() as int)[k].zsz() == z ensures alike(c)
{ lemma_listed(c, c.len() as int); }
proof fn lemma_none(c: Seq<Child>) requires listed(c, c.len() as int).len() == 0 ensures alike(c) { lemma_listed(c, c.len() as int); }
proof fn lemma_found(c: Seq<Pair>, n: int) requires 0 <= n <= c.len()
    ensures forall|u: Uuid| #[trigger] found(c, n).dom().contains(u) <==> exists|i: int| 0 <= i < n && (#[trigger] c[i]).0.id() == u,
            forall|u: Uuid| #[trigger] found(c, n).dom().contains(u) ==> found(c, n)[u].id() == u && isin(c, found(c, n)[u])
    decreases n
{
    if n > 0 { lemma_found(c, n - 1); let v = c[n - 1].0;
        assert forall|u: Uuid| #[trigger] found(c, n).dom().contains(u) <==> exists|i: int| 0 <= i < n && (#[trigger] c[i]).0.id() == u by { if u == v.id() { assert(c[n - 1].0.id() == u); } else { assert(found(c, n - 1).dom().contains(u) <==> found(c, n).dom().contains(u)); } }
        assert forall|u: Uuid| #[trigger] found(c, n).dom().contains(u) implies found(c, n)[u].id() == u && isin(c, found(c, n)[u]) by { if u == v.id() { assert(c[n - 1].0 == v); assert(isin(c, v)); } else { assert(found(c, n - 1).dom().contains(u)); } }
    }
}
proof fn lemma_step(s: Seq<Uuid>, n: int) requires 0 <= n < s.len(), s.no_duplicates() ensures !s.take(n).contains(s[n]), forall|u: Uuid| #[trigger] s.take(n + 1).contains(u) <==> s.take(n).contains(u) || u == s[n]
{
    if s.take(n).contains(s[n]) { let k = s.take(n).index_of(s[n]); assert(s[k] == s[n]); }
    assert forall|u: Uuid| #[trigger] s.take(n + 1).contains(u) <==> s.take(n).contains(u) || u == s[n] by {
        if s.take(n + 1).contains(u) { let k = s.take(n + 1).index_of(u); if k < n { assert(s.take(n)[k] == u); } }
        if s.take(n).contains(u) { let k = s.take(n).index_of(u); assert(s.take(n + 1)[k] == u); }
        assert(s.take(n + 1)[n] == s[n]);
    }
}
/// the leaf with the newest label is in that label, so it is up to date
proof fn lemma_up_to_date(c: Seq<Pair>, ch: Seq<Child>, l: Seq<Uuid>, t: TxgT)
    requires ch.len() == l.len(), forall|j: int| 0 <= j < l.len() ==> child_ok(c, #[trigger] ch[j], l[j], t), forall|i: int, j: int| #![trigger c[i], c[j]] 0 <= i < j < c.len() ==> c[i].0.id() != c[j].0.id()
    ensures forall|i: int| 0 <= i < c.len() && (#[trigger] c[i]).0.t() == t && l.contains(c[i].0.id()) ==> exists|j: int| 0 <= j < ch.len() && #[trigger] ch[j] is Present
{
    assert forall|i: int| 0 <= i < c.len() && (#[trigger] c[i]).0.t() == t && l.contains(c[i].0.id()) implies exists|j: int| 0 <= j < ch.len() && #[trigger] ch[j] is Present by {
        let j = l.index_of(c[i].0.id()); assert(child_ok(c, ch[j], l[j], t)); assert(known(c, l[j]));
        if ch[j] is Rebuilding { let v = ch[j]->Rebuilding_0.i; let k = choose|k: int| 0 <= k < c.len() && (#[trigger] c[k]).0 == v; if k < i { assert(c[k].0.id() != c[i].0.id()); } else if i < k { assert(c[i].0.id() != c[k].0.id()); } }
    }
}
/// whoever is asked to make what it holds stable
pub open spec fn synced(c: Seq<Child>, n: int) -> Seq<Uuid> decreases n { if n <= 0 { Seq::empty() } else if c[n - 1] is Present || c[n - 1] is Rebuilding { synced(c, n - 1).push(uuid_of(c[n - 1])) } else { synced(c, n - 1) } }
pub open spec fn uuids(c: Seq<Child>) -> Seq<Uuid> { Seq::new(c.len(), |j: int| uuid_of(c[j])) }
/// a rebuilding leaf's label stays older than the mirror's
pub open spec fn lower(t: TxgT, m: TxgT) -> TxgT { TxgT(if m.0 == 0 { 0 } else if t.0 <= m.0 - 1 { t.0 } else { (m.0 - 1) as u32 }) }
pub open spec fn given(rep: bool, t: TxgT, m: TxgT) -> TxgT { if rep { lower(t, m) } else { t } }
/// who gets which label: up-to-date leaves when the pool's label is written, rebuilding ones when it is repaired
pub open spec fn labelled(c: Seq<Child>, n: int, rep: bool, t: TxgT, l: Label) -> Seq<(Uuid, TxgT, Label)> decreases n {
    if n <= 0 { Seq::empty() } else if rep && c[n - 1] is Rebuilding || !rep && c[n - 1] is Present { labelled(c, n - 1, rep, t, l).push((uuid_of(c[n - 1]), t, l)) } else { labelled(c, n - 1, rep, t, l) }
}
// ----y
/// a device that answers when it is imported
pub uninterp spec fn reachable(u: Uuid) -> bool;
pub uninterp spec fn label_of(src: int) -> Label;
pub open spec fn listed_ok(d: Map<Uuid, Pair>, k: Seq<Uuid>, uuid: Uuid) -> bool { forall|j: int| #![trigger k[j]] 0 <= j < k.len() && d.dom().contains(k[j]) ==> d[k[j]].0.id() == k[j] && d[k[j]].1.next().uuid == uuid && d[k[j]].1.next().children@.contains(k[j]) && d[k[j]].1.next().children@.no_duplicates() }
/// what the manager has noted of a mirror agrees with the devices' labels
pub open spec fn importable(m: Manager, uuid: Uuid) -> bool { m.mirrors@.dom().contains(uuid) ==> m.mirrors@[uuid].children@.no_duplicates() && listed_ok(m.vbm.devs(), m.mirrors@[uuid].children@, uuid) }
pub open spec fn from(d: Map<Uuid, Pair>, k: Seq<Uuid>, p: Pair) -> bool { exists|j: int| 0 <= j < k.len() && d.dom().contains(#[trigger] k[j]) && d[k[j]] == p }
/// the pairs are the listed devices that were found and answer, all of them
pub open spec fn all_of(d: Map<Uuid, Pair>, k: Seq<Uuid>, c: Seq<Pair>) -> bool {
    (forall|a: int| 0 <= a < c.len() ==> from(d, k, #[trigger] c[a]))
    && (forall|j: int| 0 <= j < k.len() && d.dom().contains(#[trigger] k[j]) && reachable(k[j]) ==> c.contains(d[k[j]]))
}
pub open spec fn extends(a: Seq<Uuid>, b: Seq<Uuid>) -> bool { a.len() <= b.len() && forall|j: int| 0 <= j < a.len() ==> #[trigger] b[j] == a[j] }
pub open spec fn within(a: Seq<Uuid>, b: Seq<Uuid>) -> bool { forall|u: Uuid| a.contains(u) ==> #[trigger] b.contains(u) }
/// every leaf that any label of the mirror names is known; nothing else changes
pub open spec fn merged(a: Map<Uuid, Label>, b: Map<Uuid, Label>, l: Label) -> bool {
    b.dom() == a.dom().insert(l.uuid) && (forall|m: Uuid| #[trigger] a.dom().contains(m) && m != l.uuid ==> b[m] == a[m]) && within(l.children@, b[l.uuid].children@)
    && (a.dom().contains(l.uuid) ==> within(a[l.uuid].children@, b[l.uuid].children@) && b[l.uuid].children@.no_duplicates() && forall|u: Uuid| #[trigger] b[l.uuid].children@.contains(u) ==> a[l.uuid].children@.contains(u) || l.children@.contains(u))
    && (!a.dom().contains(l.uuid) ==> b[l.uuid] == l)
}
proof fn lemma_extends(a: Seq<Uuid>, b: Seq<Uuid>) requires extends(a, b) ensures within(a, b) { assert forall|u: Uuid| a.contains(u) implies #[trigger] b.contains(u) by { let j = a.index_of(u); assert(b[j] == u); } }
proof fn lemma_added(a: Seq<Uuid>, s: Seq<Uuid>, o: Seq<Uuid>, n: Seq<Uuid>, u: Uuid, i: int)
    requires 0 < i <= s.len(), u == s[i - 1], n == (if o.contains(u) { o } else { o.push(u) }), o.no_duplicates(), extends(a, o), forall|j: int| 0 <= j < i - 1 ==> o.contains(#[trigger] s[j]), forall|u: Uuid| #[trigger] o.contains(u) ==> a.contains(u) || s.contains(u)
    ensures n.no_duplicates(), extends(a, n), forall|j: int| 0 <= j < i ==> n.contains(#[trigger] s[j]), forall|u: Uuid| #[trigger] n.contains(u) ==> a.contains(u) || s.contains(u)
{
    if n != o {
        assert(n[o.len() as int] == u); assert(s.contains(u));
        assert forall|x: Uuid| o.contains(x) implies #[trigger] n.contains(x) by { let k = o.index_of(x); assert(n[k] == x); }
        assert forall|x: Uuid| #[trigger] n.contains(x) implies a.contains(x) || s.contains(x) by { let k = n.index_of(x); if k < o.len() { assert(o[k] == x); assert(o.contains(x)); } }
        assert forall|p: int, q: int| 0 <= p < n.len() && 0 <= q < n.len() && p != q implies n[p] != n[q] by { if p < o.len() && q < o.len() { assert(o[p] != o[q]); } else if p < o.len() { assert(o.contains(o[p])); } else { assert(o.contains(o[q])); } }
    }
}
