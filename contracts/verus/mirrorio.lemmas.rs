/// the leaf of a child that is asked to do something, if it is: a leaf being rebuilt is only made to keep what was copied to it
pub open spec fn asked(c: Child, op: Op) -> Option<Uuid> {
    match c { Child::Present(v) => Some(v.id), Child::Rebuilding(v) => if op is Sync { Some(v.id) } else { None }, _ => None }
}
/// what a mirror asks of its leaves
pub open spec fn asks(c: Seq<Child>, op: Op) -> Seq<(Uuid, Op)> decreases c.len() {
    if c.len() == 0 { seq![] } else { match asked(c.last(), op) { Some(u) => asks(c.drop_last(), op).push((u, op)), None => asks(c.drop_last(), op) } }
}
pub proof fn lemma_asks(c: Seq<Child>, i: int, op: Op) requires 0 <= i < c.len()
    ensures asks(c.take(i + 1), op) == (match asked(c[i], op) { Some(u) => asks(c.take(i), op).push((u, op)), None => asks(c.take(i), op) })
{ assert(c.take(i + 1).drop_last() =~= c.take(i)); }
pub proof fn lemma_asks0(c: Seq<Child>, op: Op) ensures asks(c.take(0), op) == Seq::<(Uuid, Op)>::empty() {}
/// the complete leaves but one
pub open spec fn rest(c: Seq<Child>, but: int) -> Seq<VdevBlock> decreases c.len() {
    if c.len() == 0 { seq![] } else if c.last() is Present && c.len() - 1 != but { rest(c.drop_last(), but).push(c.last()->Present_0) } else { rest(c.drop_last(), but) }
}
pub proof fn lemma_rest(c: Seq<Child>, i: int, but: int) requires 0 <= i < c.len()
    ensures rest(c.take(i + 1), but) == (if c[i] is Present && i != but { rest(c.take(i), but).push(c[i]->Present_0) } else { rest(c.take(i), but) }), rest(c.take(0), but) == Seq::<VdevBlock>::empty()
{ assert(c.take(i + 1).drop_last() =~= c.take(i)); }
pub open spec fn reads_first(c: Seq<Child>, i: int, others: Seq<VdevBlock>) -> bool { 0 <= i < c.len() && c[i] is Present && others == rest(c, i) }
/// going round from anywhere, every index comes
pub proof fn lemma_round(c: Seq<Child>, s: int) requires 0 <= s < c.len()
    ensures (forall|j: int| s <= j < s + c.len() ==> !(#[trigger] c[j % (c.len() as int)] is Present)) ==> forall|i: int| 0 <= i < c.len() ==> !(#[trigger] c[i] is Present)
{
    let n = c.len() as int;
    if forall|j: int| s <= j < s + n ==> !(#[trigger] c[j % n] is Present) {
        assert forall|i: int| 0 <= i < n implies !(#[trigger] c[i] is Present) by {
            let j = if i >= s { i } else { i + n };
            assert(j % n == i) by { if i >= s { vstd::arithmetic::div_mod::lemma_small_mod(i as nat, n as nat); } else { vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(i, n); vstd::arithmetic::div_mod::lemma_small_mod(i as nat, n as nat); } }
            assert(!(c[j % n] is Present));
        }
    }
}
/// the leaves a read has still to ask, in order
pub open spec fn todo(fut: Option<VdevBlockFut>, ch: Seq<VdevBlock>) -> Seq<Uuid> { match fut { None => seq![], Some(f) => Seq::new(ch.len() + 1, |i: int| if i == 0 { f.leaf@ } else { ch[ch.len() - i].id }) } }
impl ReadAt { pub open spec fn todo(&self) -> Seq<Uuid> { todo(self.fut, self.children@) } pub open spec fn op(&self) -> Op { Op::Read(self.dbi.id, self.lba) } pub open spec fn ok(&self) -> bool { self.fut matches Some(f) ==> f.op@ == self.op() } pub open spec fn same(&self, o: Self) -> bool { self.dbi == o.dbi && self.lba == o.lba } }
impl ReadSpacemap { pub open spec fn todo(&self) -> Seq<Uuid> { todo(self.fut, self.children@) } pub open spec fn op(&self) -> Op { Op::ReadSm(self.dbi.id, self.smidx) } pub open spec fn ok(&self) -> bool { self.fut matches Some(f) ==> f.op@ == self.op() } pub open spec fn same(&self, o: Self) -> bool { self.dbi == o.dbi && self.smidx == o.smidx } }
impl ReadvAt { pub open spec fn todo(&self) -> Seq<Uuid> { todo(self.fut, self.children@) } pub open spec fn op(&self) -> Op { Op::Readv(iids(self.dbis@), self.lba) } pub open spec fn ok(&self) -> bool { self.fut matches Some(f) ==> f.op@ == self.op() } pub open spec fn same(&self, o: Self) -> bool { self.dbis == o.dbis && self.lba == o.lba } }
pub type Done = Seq<(Uuid, Op, Result<()>)>;
/// the first k leaves of a read were asked and failed
pub open spec fn failed(a: Done, b: Done, k: int, t: Seq<Uuid>, op: Op) -> bool {
    0 <= k <= t.len() && b.len() == a.len() + k && (forall|j: int| 0 <= j < a.len() ==> #[trigger] b[j] == a[j]) && forall|j: int| 0 <= j < k ==> (#[trigger] b[a.len() + j]).0 == t[j] && b[a.len() + j].1 == op && b[a.len() + j].2 is Err
}
/// what polling a read does: some leaves, in order, have failed; the next one is pending or has delivered; or all have failed (or the buffer is in use), and the last one's error is the result
pub open spec fn polled(t: Seq<Uuid>, op: Op, a: Done, b: Done, r: Poll<Result<()>>, left: Seq<Uuid>, blocked: bool) -> bool {
    match r {
        Poll::Pending => exists|k: int| #[trigger] failed(a, b, k, t, op) && k < t.len() && left =~= t.skip(k),
        Poll::Ready(Ok(_)) => b.len() > 0 && exists|k: int| #[trigger] failed(a, b.drop_last(), k, t, op) && k < t.len() && b.last().0 == t[k] && b.last().1 == op && b.last().2 is Ok,
        Poll::Ready(Err(e)) => exists|k: int| #[trigger] failed(a, b, k, t, op) && k > 0 && b.last().2 == Err::<(), Error>(e) && (k == t.len() || blocked),
    }
}
/// C: a read that begins asks every complete leaf, each once, and no other
pub open spec fn leaf(c: Child) -> Uuid { (c->Present_0).id }
pub open spec fn present(c: Seq<Child>) -> int decreases c.len() { if c.len() == 0 { 0 } else { present(c.drop_last()) + if c.last() is Present { 1int } else { 0 } } }
proof fn lemma_in_rest(c: Seq<Child>, but: int)
    ensures forall|x: VdevBlock| #[trigger] rest(c, but).contains(x) ==> exists|j: int| 0 <= j < c.len() && j != but && c[j] is Present && c[j]->Present_0 == x,
        forall|j: int| 0 <= j < c.len() && j != but && c[j] is Present ==> rest(c, but).contains((#[trigger] c[j])->Present_0), rest(c, but).len() == present(c) - if 0 <= but < c.len() && c[but] is Present { 1int } else { 0 }
    decreases c.len()
{
    if c.len() > 0 {
        lemma_in_rest(c.drop_last(), but); let p = rest(c.drop_last(), but); let n = c.len() - 1;
        if c.last() is Present && n != but {
            let r = p.push(c.last()->Present_0); assert(rest(c, but) == r); assert(r[p.len() as int] == c.last()->Present_0); assert(r.contains(c.last()->Present_0));
            assert forall|x: VdevBlock| #[trigger] r.contains(x) implies exists|j: int| 0 <= j < c.len() && j != but && c[j] is Present && c[j]->Present_0 == x by {
                let q = choose|q: int| 0 <= q < r.len() && r[q] == x; if q < p.len() { assert(p[q] == x); assert(p.contains(x)); let j = choose|j: int| 0 <= j < n && j != but && c.drop_last()[j] is Present && c.drop_last()[j]->Present_0 == x; assert(c[j]->Present_0 == x); } else { assert(c[n]->Present_0 == x); } }
            assert forall|j: int| 0 <= j < c.len() && j != but && c[j] is Present implies r.contains((#[trigger] c[j])->Present_0) by { if j < n { let y = c.drop_last()[j]->Present_0; assert(p.contains(y)); let q = choose|q: int| 0 <= q < p.len() && p[q] == y; assert(r[q] == y); } }
        } else {
            assert forall|x: VdevBlock| #[trigger] p.contains(x) implies exists|j: int| 0 <= j < c.len() && j != but && c[j] is Present && c[j]->Present_0 == x by { let j = choose|j: int| 0 <= j < n && j != but && c.drop_last()[j] is Present && c.drop_last()[j]->Present_0 == x; assert(c[j]->Present_0 == x); }
            assert forall|j: int| 0 <= j < c.len() && j != but && c[j] is Present implies p.contains((#[trigger] c[j])->Present_0) by { assert(j < n); let y = c.drop_last()[j]; }
        }
    }
}
pub proof fn prop_m01_all_complete_leaves(c: Seq<Child>, i: int, ch: Seq<VdevBlock>, f: VdevBlockFut) requires reads_first(c, i, ch), f.leaf@ == leaf(c[i])
    ensures todo(Some(f), ch).len() == present(c), forall|j: int| 0 <= j < c.len() && c[j] is Present ==> todo(Some(f), ch).contains(leaf(#[trigger] c[j])),
        forall|u: Uuid| #[trigger] todo(Some(f), ch).contains(u) ==> exists|j: int| 0 <= j < c.len() && c[j] is Present && leaf(c[j]) == u
{
    lemma_in_rest(c, i); let t = todo(Some(f), ch); assert(t[0] == f.leaf@);
    assert forall|j: int| 0 <= j < c.len() && c[j] is Present implies t.contains(leaf(#[trigger] c[j])) by { if j != i { let x = c[j]->Present_0; assert(ch.contains(x)); let q = choose|q: int| 0 <= q < ch.len() && ch[q] == x; assert(t[ch.len() - q] == x.id); } }
    assert forall|u: Uuid| #[trigger] t.contains(u) implies exists|j: int| 0 <= j < c.len() && c[j] is Present && leaf(c[j]) == u by {
        let q = choose|q: int| 0 <= q < t.len() && t[q] == u; if q == 0 { assert(leaf(c[i]) == u); } else { let x = ch[ch.len() - q]; assert(ch.contains(x)); let j = choose|j: int| 0 <= j < c.len() && j != i && c[j] is Present && c[j]->Present_0 == x; assert(leaf(c[j]) == u); } }
}
/// C: a read that succeeds was delivered by a leaf that it had still to ask, into the buffer it was given; one that fails with the buffer free has asked every one of them
pub proof fn prop_m01_read(t: Seq<Uuid>, op: Op, a: Done, b: Done, r: Poll<Result<()>>, left: Seq<Uuid>) requires polled(t, op, a, b, r, left, false)
    ensures r matches Poll::Ready(Ok(_)) ==> b.last().1 == op && b.last().2 is Ok && t.contains(b.last().0),
        r matches Poll::Ready(Err(_)) ==> b.len() == a.len() + t.len() && forall|j: int| 0 <= j < t.len() ==> (#[trigger] b[a.len() + j]).0 == t[j] && b[a.len() + j].1 == op && b[a.len() + j].2 is Err
{}
