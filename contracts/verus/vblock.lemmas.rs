// ---- commands: the order in which those at one place are issued
pub open spec fn rank(c: Cmd) -> int { match c {
    Cmd::OpenZone => 0, Cmd::ReadAt(_) => 1, Cmd::ReadSpacemap(_) => 2, Cmd::ReadvAt(_) => 3, Cmd::WriteAt(_) => 4, Cmd::WritevAt(_) => 5,
    Cmd::EraseZone(_) => 6, Cmd::FinishZone(_) => 7, Cmd::WriteLabel(_) => 8, Cmd::WriteSpacemap(_) => 9, Cmd::SyncAll => 10 } }
pub open spec fn int_cmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
/// a request comes before another in a sweep
pub open spec fn before(a: BlockOp, b: BlockOp) -> bool { a.lba < b.lba || (a.lba == b.lba && rank(a.cmd) < rank(b.cmd)) }
/// the heap's order is the reverse
pub open spec fn op_cmp(a: BlockOp, b: BlockOp) -> Ordering { if before(b, a) { Ordering::Less } else if before(a, b) { Ordering::Greater } else { Ordering::Equal } }
pub open spec fn is_sync(o: BlockOp) -> bool { o.cmd is SyncAll }
// ---- the bytes of a request
pub open spec fn total<T: Deref>(s: Seq<T>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last().bytes().len() } }
pub proof fn lemma_total_take<T: Deref>(s: Seq<T>, i: int) requires 0 <= i < s.len()
    ensures total(s.take(i + 1)) == total(s.take(i)) + s[i].bytes().len(), total(s.take(i + 1)) <= total(s) decreases s.len() - i
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    if i + 1 < s.len() { lemma_total_take(s, i + 1); } else { assert(s.take(i + 1) =~= s); }
}
pub broadcast proof fn b_total_one<T: Deref>(x: T) ensures #[trigger] total(seq![x]) == x.bytes().len() { assert(seq![x].drop_last() =~= Seq::<T>::empty()); assert(total(seq![x].drop_last()) == 0); assert(seq![x].last() == x); }
pub proof fn lemma_total_add<T: Deref>(a: Seq<T>, b: Seq<T>) ensures total(a + b) == total(a) + total(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); lemma_total_add(a, b.drop_last()); }
}
pub open spec fn is_read(o: BlockOp) -> bool { o.cmd is ReadAt || o.cmd is ReadvAt }
pub open spec fn is_write(o: BlockOp) -> bool { o.cmd is WriteAt || o.cmd is WritevAt }
/// the buffers, in order
pub open spec fn rbufs(o: BlockOp) -> Seq<IoVecMut> { match o.cmd { Cmd::ReadAt(b) => seq![b], Cmd::ReadvAt(s) => s@, _ => Seq::empty() } }
pub open spec fn wbufs(o: BlockOp) -> Seq<IoVec> { match o.cmd { Cmd::WriteAt(b) => seq![b], Cmd::WritevAt(s) => s@, _ => Seq::empty() } }
pub open spec fn nbytes(o: BlockOp) -> int { (total(rbufs(o)) + total(wbufs(o))) as int }
pub open spec fn nbufs(o: BlockOp) -> int { (rbufs(o).len() + wbufs(o).len()) as int }
/// first block beyond the request
pub open spec fn end(o: BlockOp) -> int { o.lba + nbytes(o) / (BYTES_PER_LBA as int) }
/// what VdevBlock checks of a read or write: whole blocks within the device
pub open spec fn sane(o: BlockOp) -> bool { nbytes(o) % (BYTES_PER_LBA as int) == 0 && (is_read(o) || is_write(o) ==> end(o) < 0x4_0000_0000_0000) }
/// one operation may do both: the same kind of access to directly adjacent blocks, within the limit on buffers
pub open spec fn joinable(a: BlockOp, b: BlockOp) -> bool {
    ||| is_sync(a) && is_sync(b)
    ||| (is_read(a) && is_read(b) || is_write(a) && is_write(b)) && b.lba == end(a) && (a.cmd is ReadAt && b.cmd is ReadAt || a.cmd is WriteAt && b.cmd is WriteAt || iov_limit() is None || nbufs(a) + nbufs(b) <= iov_limit()->0)
}
/// r does what a and then b does, and answers both
pub open spec fn joined(a: BlockOp, b: BlockOp, r: BlockOp) -> bool {
    &&& r.lba == a.lba && r.senders@ =~= a.senders@ + b.senders@
    &&& rbufs(r) =~= rbufs(a) + rbufs(b) && wbufs(r) =~= wbufs(a) + wbufs(b)
    &&& is_read(r) == is_read(a) && is_write(r) == is_write(a) && is_sync(r) == is_sync(a)
}
// ---- the queues
/// the request that comes next
pub open spec fn next(s: Inner) -> Option<BlockOp> {
    if s.ahead@.len() > 0 { Some(s.ahead.top()) } else if s.behind@.len() > 0 { Some(s.behind.top()) } else if s.after_sync@.len() > 0 { Some(s.after_sync@[0]) } else { None }
}
pub open spec fn next_ok(s: Inner) -> bool {
    if s.ahead@.len() > 0 { is_top(s.ahead@, s.ahead.top()) } else { s.behind@.len() > 0 ==> is_top(s.behind@, s.behind.top()) }
}
/// everything but the queues, the position and the sync flag
pub open spec fn rest(a: Inner, b: Inner) -> bool { a.delayed == b.delayed && a.optimum_queue_depth == b.optimum_queue_depth && a.queue_depth == b.queue_depth && a.remover == b.remover }
pub open spec fn scheded(a: Inner, o: BlockOp, b: Inner) -> bool {
    &&& rest(a, b) && b.last_lba == a.last_lba
    &&& if is_sync(o) || a.syncing { b.after_sync@ == a.after_sync@.push(o) && b.syncing && b.ahead@ == a.ahead@ && b.behind@ == a.behind@ }
        else { b.after_sync@ == a.after_sync@ && !b.syncing && (if o.lba >= a.last_lba { b.ahead@ == a.ahead@.insert(o) && b.behind@ == a.behind@ } else { b.behind@ == a.behind@.insert(o) && b.ahead@ == a.ahead@ }) }
}
// ---- multisets of requests
pub open spec fn ms(s: Seq<BlockOp>) -> Multiset<BlockOp> decreases s.len() { if s.len() == 0 { Multiset::empty() } else { ms(s.drop_last()).insert(s.last()) } }
pub broadcast proof fn b_ms_push(s: Seq<BlockOp>, x: BlockOp) ensures #[trigger] ms(s.push(x)) == ms(s).insert(x) { assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_ms_take(s: Seq<BlockOp>, n: int) requires 0 <= n < s.len() ensures ms(s.take(n + 1)) == ms(s.take(n)).insert(s[n]) { assert(s.take(n + 1).drop_last() =~= s.take(n)); }
pub proof fn lemma_ms_contains(s: Seq<BlockOp>, x: BlockOp) requires ms(s).contains(x) ensures s.contains(x) decreases s.len()
{
    if s.len() > 0 { if s.last() == x { assert(s[s.len() - 1] == x); } else { lemma_ms_contains(s.drop_last(), x); let i = s.drop_last().index_of(x); assert(s[i] == x); } }
}
// ---- what is always true of the queues and the history
/// what VdevBlock's methods give the scheduler
pub open spec fn okop(o: BlockOp) -> bool { sane(o) && o.senders@.len() == 1 }
pub open spec fn placed(s: Inner) -> bool {
    &&& forall|x: BlockOp| #[trigger] s.ahead@.contains(x) ==> x.lba >= s.last_lba && !is_sync(x)
    &&& forall|x: BlockOp| #[trigger] s.behind@.contains(x) ==> x.lba < s.last_lba && !is_sync(x)
}
/// the first p requests taken are exactly the first q submitted
pub open spec fn barrier(sub: Seq<BlockOp>, taken: Seq<BlockOp>, p: int, q: int) -> bool { 0 <= q < sub.len() && sub[q] == taken[p] && ms(taken.take(p)) == ms(sub.take(q)) }
pub open spec fn hist(s: Inner, w: WS) -> bool {
    &&& placed(s)
    &&& 0 <= w.c <= w.sub.len() && s.after_sync@ == w.sub.skip(w.c)
    &&& ms(w.sub.take(w.c)) == ms(w.taken).add(s.ahead@).add(s.behind@)
    &&& forall|p: int| 0 <= p < w.taken.len() && is_sync(#[trigger] w.taken[p]) ==> exists|q: int| barrier(w.sub, w.taken, p, q)
    &&& forall|i: int| 0 <= i < w.sub.len() ==> okop(#[trigger] w.sub[i])
}
/// nothing but a sync waits at the head of the queue behind a sync
pub open spec fn queues(s: Inner, w: WS) -> bool { hist(s, w) && (s.syncing <==> s.after_sync@.len() > 0) && (s.after_sync@.len() > 0 ==> is_sync(s.after_sync@[0])) }
pub proof fn lemma_known(s: Inner, w: WS, x: BlockOp) requires hist(s, w), s.ahead@.contains(x) || s.behind@.contains(x) || w.taken.contains(x) ensures okop(x)
{
    if w.taken.contains(x) { lemma_ms_has(w.taken, w.taken.index_of(x)); }
    assert(ms(w.sub.take(w.c)).contains(x)); lemma_ms_contains(w.sub.take(w.c), x);
    let i = w.sub.take(w.c).index_of(x); assert(w.sub[i] == x);
}
pub proof fn lemma_ms_has(s: Seq<BlockOp>, i: int) requires 0 <= i < s.len() ensures ms(s).contains(s[i]) decreases s.len()
{
    if i < s.len() - 1 { lemma_ms_has(s.drop_last(), i); assert(s.drop_last()[i] == s[i]); }
}
/// barriers stay when more is taken or submitted
pub proof fn lemma_more(a: WS, b: WS) requires a.taken.len() <= b.taken.len(), b.taken.take(a.taken.len() as int) =~= a.taken, a.sub.len() <= b.sub.len(), b.sub.take(a.sub.len() as int) =~= a.sub,
        forall|p: int| 0 <= p < a.taken.len() && is_sync(#[trigger] a.taken[p]) ==> exists|q: int| barrier(a.sub, a.taken, p, q)
    ensures forall|p: int| 0 <= p < a.taken.len() && is_sync(#[trigger] b.taken[p]) ==> exists|q: int| barrier(b.sub, b.taken, p, q)
{
    assert forall|p: int| 0 <= p < a.taken.len() && is_sync(#[trigger] b.taken[p]) implies exists|q: int| barrier(b.sub, b.taken, p, q) by {
        assert(b.taken.take(a.taken.len() as int)[p] == b.taken[p]); assert(a.taken[p] == b.taken[p]);
        let q = choose|q: int| barrier(a.sub, a.taken, p, q);
        assert(b.sub.take(a.sub.len() as int)[q] == b.sub[q]);
        assert(b.taken.take(p) =~= a.taken.take(p)); assert(b.sub.take(q) =~= a.sub.take(q)); assert(barrier(b.sub, b.taken, p, q));
    }
}
/// a request from the sweep was taken
pub proof fn lemma_took(a: Inner, b: Inner, w: WS, o: BlockOp)
    requires hist(a, w), b.after_sync@ == a.after_sync@, b.last_lba == o.lba,
        a.ahead@.len() > 0 && is_top(a.ahead@, o) && b.ahead@ == a.ahead@.remove(o) && b.behind@ == a.behind@ || a.ahead@.len() == 0 && is_top(a.behind@, o) && b.ahead@ == a.behind@.remove(o) && b.behind@ == a.ahead@
    ensures hist(b, WS { taken: w.taken.push(o), ..w }), !is_sync(o)
{
    broadcast use b_ms_push;
    let v = WS { taken: w.taken.push(o), ..w };
    assert(v.taken.take(w.taken.len() as int) =~= w.taken); assert(v.sub.take(w.sub.len() as int) =~= w.sub); lemma_more(w, v);
    assert forall|x: BlockOp| #[trigger] b.ahead@.contains(x) implies x.lba >= o.lba && !is_sync(x) by { if a.ahead@.len() > 0 { assert(a.ahead@.contains(x)); } else { assert(a.behind@.contains(x)); } }
    assert forall|x: BlockOp| #[trigger] b.behind@.contains(x) implies x.lba < o.lba && !is_sync(x) by { if a.ahead@.len() > 0 { assert(a.behind@.contains(x)); assert(a.ahead@.contains(o)); } else { assert(a.ahead@ =~= Multiset::empty()); } }
    if a.ahead@.len() > 0 { assert(a.ahead@.contains(o)); assert(ms(v.taken).add(b.ahead@).add(b.behind@) =~= ms(w.taken).add(a.ahead@).add(a.behind@)); }
    else { assert(a.behind@.contains(o)); assert(forall|x: BlockOp| !a.ahead@.contains(x)) by { assert(a.ahead@ =~= Multiset::empty()); } assert(ms(v.taken).add(b.ahead@).add(b.behind@) =~= ms(w.taken).add(a.ahead@).add(a.behind@)); }
}
/// a sync was taken, once nothing else was left
pub proof fn lemma_took_sync(a: Inner, b: Inner, w: WS, o: BlockOp)
    requires hist(a, w), a.ahead@.len() == 0, a.behind@.len() == 0, a.after_sync@.len() > 0, o == a.after_sync@[0], is_sync(o), b.ahead@ == a.ahead@, b.behind@ == a.behind@, b.last_lba == a.last_lba, b.after_sync@ == a.after_sync@.skip(1)
    ensures hist(b, WS { taken: w.taken.push(o), c: w.c + 1, ..w })
{
    broadcast use b_ms_push;
    let v = WS { taken: w.taken.push(o), c: w.c + 1, ..w };
    assert(v.taken.take(w.taken.len() as int) =~= w.taken); assert(v.sub.take(w.sub.len() as int) =~= w.sub); lemma_more(w, v);
    assert(w.sub[w.c] == o); lemma_ms_take(w.sub, w.c);
    assert(a.ahead@ =~= Multiset::empty()); assert(a.behind@ =~= Multiset::empty());
    assert(ms(w.taken).add(a.ahead@).add(a.behind@) =~= ms(w.taken));
    assert(ms(v.taken).add(b.ahead@).add(b.behind@) =~= ms(w.taken).insert(o));
    assert(barrier(v.sub, v.taken, w.taken.len() as int, w.c));
    assert(b.after_sync@ =~= w.sub.skip(w.c + 1));
}
/// a request that waited behind the sync was sorted in
pub proof fn lemma_sorted(a: Inner, b: Inner, w: WS, o: BlockOp)
    requires hist(a, w), a.after_sync@.len() > 0, o == a.after_sync@[0], !is_sync(o), b.last_lba == a.last_lba, b.after_sync@ == a.after_sync@.skip(1),
        if o.lba >= a.last_lba { b.ahead@ == a.ahead@.insert(o) && b.behind@ == a.behind@ } else { b.behind@ == a.behind@.insert(o) && b.ahead@ == a.ahead@ }
    ensures hist(b, WS { c: w.c + 1, ..w })
{
    let v = WS { c: w.c + 1, ..w };
    assert(v.taken.take(w.taken.len() as int) =~= w.taken); assert(v.sub.take(w.sub.len() as int) =~= w.sub); lemma_more(w, v);
    assert(w.sub[w.c] == o); lemma_ms_take(w.sub, w.c);
    assert forall|x: BlockOp| #[trigger] b.ahead@.contains(x) implies x.lba >= b.last_lba && !is_sync(x) by { if x != o { assert(a.ahead@.contains(x)); } else if a.ahead@.contains(x) {} }
    assert forall|x: BlockOp| #[trigger] b.behind@.contains(x) implies x.lba < b.last_lba && !is_sync(x) by { if x != o { assert(a.behind@.contains(x)); } else if a.behind@.contains(x) {} }
    assert(ms(v.taken).add(b.ahead@).add(b.behind@) =~= ms(w.taken).add(a.ahead@).add(a.behind@).insert(o));
    assert(b.after_sync@ =~= w.sub.skip(w.c + 1));
}
// ---- operations made of requests
pub open spec fn dev_of(o: BlockOp) -> Dev { match o.cmd {
    Cmd::OpenZone => Dev::Open(o.lba), Cmd::ReadAt(b) => Dev::Read(seq![b], o.lba), Cmd::ReadSpacemap(b) => Dev::ReadMap(b, o.lba), Cmd::ReadvAt(s) => Dev::Read(s@, o.lba),
    Cmd::WriteAt(b) => Dev::Write(seq![b], o.lba), Cmd::WritevAt(s) => Dev::Write(s@, o.lba), Cmd::EraseZone(start) => Dev::Erase(start, o.lba), Cmd::FinishZone(start) => Dev::Finish(start),
    Cmd::WriteLabel(l) => Dev::Label(l), Cmd::WriteSpacemap(s) => Dev::WriteMap(s@, o.lba), Cmd::SyncAll => Dev::Sync } }
/// o does what the requests of s do, in order
pub open spec fn run(s: Seq<BlockOp>, o: BlockOp) -> bool decreases s.len() {
    if s.len() <= 1 { s.len() == 1 && o == s[0] } else { exists|m: BlockOp| run(s.drop_last(), m) && joinable(m, s.last()) && #[trigger] joined(m, s.last(), o) }
}
pub proof fn lemma_div_add(a: int, b: int, d: int) requires d > 0, a % d == 0, b % d == 0, a >= 0, b >= 0 ensures (a + b) % d == 0, (a + b) / d == a / d + b / d
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, d); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, d);
    let x = a / d; let y = b / d;
    assert(a + b == (x + y) * d) by (nonlinear_arith) requires a == d * x, b == d * y;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a + b, d, x + y, 0);
}
pub proof fn lemma_run(s: Seq<BlockOp>, o: BlockOp, x: BlockOp, r: BlockOp) requires run(s, o), joinable(o, x), joined(o, x, r), sane(o), sane(x)
    ensures run(s.push(x), r), sane(r), is_read(o) || is_write(o) ==> end(r) == end(x)
{
    assert(s.push(x).drop_last() =~= s); assert(s.push(x).last() == x); assert(s.push(x).len() > 1);
    assert(joined(o, s.push(x).last(), r));
    lemma_div_add(nbytes(o), nbytes(x), BYTES_PER_LBA as int);
    lemma_total_add(rbufs(o), rbufs(x)); lemma_total_add(wbufs(o), wbufs(x));
    assert(nbytes(r) == nbytes(o) + nbytes(x));
    if is_read(o) || is_write(o) { assert(end(r) == end(x)); }
    if is_sync(o) { assert(rbufs(r) =~= Seq::empty()); assert(wbufs(r) =~= Seq::empty()); }
}
pub open spec fn covered(w: WS) -> int { if w.made.len() == 0 { 0 } else { w.made.last().to } }
pub open spec fn made_ok(made: Seq<Made>, taken: Seq<BlockOp>, i: int) -> bool { made[i].from == (if i == 0 { 0 } else { made[i - 1].to }) && 0 <= made[i].from < made[i].to <= taken.len() && run(taken.subrange(made[i].from, made[i].to), made[i].op) && made[i].dev == dev_of(made[i].op) }
/// every operation is a run of taken requests, one after the other
pub open spec fn books(w: WS) -> bool {
    &&& forall|i: int| 0 <= i < w.made.len() ==> #[trigger] made_ok(w.made, w.taken, i)
    &&& w.disp.len() <= w.made.len() && w.live >= 0
}
/// the depth counts what the device is at work on and what it has refused
pub open spec fn depth(s: Inner, w: WS) -> bool { s.queue_depth == w.live + w.made.len() - w.disp.len() && s.queue_depth <= s.optimum_queue_depth }
/// an operation that was refused is kept
pub open spec fn held(s: Inner, w: WS) -> bool {
    &&& w.made.len() == w.disp.len() + (if s.delayed is Some { 1int } else { 0 })
    &&& s.delayed is Some ==> (s.delayed->0).0@ == w.made.last().op.senders@ && (s.delayed->0).1.dev() == w.made.last().dev
}
pub open spec fn inv(s: Inner, w: WS) -> bool { queues(s, w) && books(w) && covered(w) == w.taken.len() && depth(s, w) && held(s, w) && s.optimum_queue_depth >= 2 }
/// the queues and what belongs to them
pub open spec fn same(a: Inner, b: Inner) -> bool { a.ahead == b.ahead && a.behind == b.behind && a.after_sync == b.after_sync && a.last_lba == b.last_lba && a.syncing == b.syncing && a.optimum_queue_depth == b.optimum_queue_depth && a.remover == b.remover }
pub open spec fn sent(s: Seq<Sender<VpResult>>, r: VpResult) -> Seq<(int, VpResult)> { Seq::new(s.len(), |i: int| (s[i].chan(), r)) }
/// something will run the scheduler again, or nothing waits
pub open spec fn lively(s: Inner, w: WS, timers: int) -> bool { w.live >= 1 || w.timers > timers || (s.delayed is None && next(s) is None) }
pub proof fn lemma_made(w: WS, o: BlockOp) requires books(w), w.made.len() == w.disp.len(), covered(w) < w.taken.len(), run(w.taken.subrange(covered(w), w.taken.len() as int), o)
    ensures ({ let v = WS { made: w.made.push(Made { from: covered(w), to: w.taken.len() as int, op: o, dev: dev_of(o) }), ..w }; books(v) && covered(v) == w.taken.len() && v.made.len() == v.disp.len() + 1 })
{
    hide(run);
    let n = w.made.len() as int; let v = WS { made: w.made.push(Made { from: covered(w), to: w.taken.len() as int, op: o, dev: dev_of(o) }), ..w };
    if n > 0 { assert(made_ok(w.made, w.taken, n - 1)); }
    assert forall|i: int| 0 <= i < v.made.len() implies #[trigger] made_ok(v.made, v.taken, i) by { if i < n { assert(made_ok(w.made, w.taken, i)); } }
}
pub proof fn lemma_count(s: Inner, w: WS) requires hist(s, w) ensures w.taken.len() <= w.sub.len() { lemma_ms_len(w.sub.take(w.c)); lemma_ms_len(w.taken); }
pub proof fn lemma_ms_len(s: Seq<BlockOp>) ensures ms(s).len() == s.len() decreases s.len() { if s.len() > 0 { lemma_ms_len(s.drop_last()); } }
/// taking more keeps what was made
pub proof fn lemma_books(w: WS, v: WS) requires books(w), v.made == w.made, v.disp == w.disp, v.live == w.live, w.taken.len() <= v.taken.len(), v.taken.take(w.taken.len() as int) =~= w.taken ensures books(v), covered(v) == covered(w)
{
    hide(run);
    assert forall|i: int| 0 <= i < v.made.len() implies #[trigger] made_ok(v.made, v.taken, i) by {
        assert(made_ok(w.made, w.taken, i)); assert(v.taken.subrange(v.made[i].from, v.made[i].to) =~= w.taken.subrange(v.made[i].from, v.made[i].to)) by { assert(v.taken.take(w.taken.len() as int).subrange(v.made[i].from, v.made[i].to) =~= v.taken.subrange(v.made[i].from, v.made[i].to)); } }
}
pub proof fn lemma_submitted(a: Inner, b: Inner, w: WS, o: BlockOp) requires queues(a, w), okop(o), scheded(a, o, b)
    ensures queues(b, WS { sub: w.sub.push(o), c: if b.syncing { w.c } else { w.c + 1 }, ..w })
{
    let v = WS { sub: w.sub.push(o), c: if b.syncing { w.c } else { w.c + 1 }, ..w };
    assert(v.sub.take(w.sub.len() as int) =~= w.sub); assert(v.taken.take(w.taken.len() as int) =~= w.taken); lemma_more(w, v);
    if b.syncing { assert(v.sub.take(v.c) =~= w.sub.take(w.c)); assert(b.after_sync@ =~= v.sub.skip(v.c)); if !a.syncing { assert(b.after_sync@[0] == o); } else { assert(b.after_sync@[0] == a.after_sync@[0]); } }
    else {
        assert(w.c == w.sub.len()); lemma_ms_take(v.sub, w.c); assert(v.sub.take(w.c) =~= w.sub.take(w.c)); assert(b.after_sync@ =~= v.sub.skip(v.c));
        assert(ms(v.taken).add(b.ahead@).add(b.behind@) =~= ms(w.taken).add(a.ahead@).add(a.behind@).insert(o));
        assert forall|x: BlockOp| #[trigger] b.ahead@.contains(x) implies x.lba >= b.last_lba && !is_sync(x) by { if x != o { assert(a.ahead@.contains(x)); } else if a.ahead@.contains(x) {} }
        assert forall|x: BlockOp| #[trigger] b.behind@.contains(x) implies x.lba < b.last_lba && !is_sync(x) by { if x != o { assert(a.behind@.contains(x)); } else if a.behind@.contains(x) {} }
    }
    assert forall|i: int| 0 <= i < v.sub.len() implies okop(#[trigger] v.sub[i]) by { if i < w.sub.len() { assert(v.sub[i] == w.sub[i]); } }
}
/// the device took the operation: it is at work on it, or has answered and so have its waiters been
pub open spec fn given(a: WS, b: WS, s: Seq<Sender<VpResult>>, r: VpResult) -> bool {
    ||| b == (WS { disp: a.disp.push(Disp::Accepted), live: a.live + 1, ..a })
    ||| b == (WS { disp: a.disp.push(Disp::Accepted), answers: a.answers + sent(s, r), ..a })
}
pub proof fn lemma_sub(w: WS, o: BlockOp, c: int) requires books(w) ensures books(WS { sub: w.sub.push(o), c: c, ..w }), covered(WS { sub: w.sub.push(o), c: c, ..w }) == covered(w) { lemma_books(w, WS { sub: w.sub.push(o), c: c, ..w }); }
pub proof fn lemma_given(a: WS, b: WS) requires books(a), b.made == a.made, b.taken == a.taken, b.disp.len() <= b.made.len(), b.live >= 0 ensures books(b)
{
    hide(run);
    assert forall|i: int| 0 <= i < b.made.len() implies #[trigger] made_ok(b.made, b.taken, i) by { assert(made_ok(a.made, a.taken, i)); }
}
pub proof fn lemma_merged(a: WS, b: WS, o: BlockOp, x: BlockOp, r: BlockOp)
    requires books(a), 0 <= covered(a) < a.taken.len(), run(a.taken.subrange(covered(a), a.taken.len() as int), o), sane(o), okop(x), b.taken == a.taken.push(x), b.made == a.made, b.disp == a.disp, b.live == a.live, joinable(o, x), joined(o, x, r)
    ensures books(b), covered(b) == covered(a), run(b.taken.subrange(covered(b), b.taken.len() as int), r), sane(r)
{
    assert(b.taken.take(a.taken.len() as int) =~= a.taken); lemma_books(a, b); lemma_run(a.taken.subrange(covered(a), a.taken.len() as int), o, x, r);
    assert(b.taken.subrange(covered(b), b.taken.len() as int) =~= a.taken.subrange(covered(a), a.taken.len() as int).push(x));
}
pub proof fn lemma_first(s: Inner, a: WS, b: WS, o: BlockOp)
    requires books(a), covered(a) == a.taken.len(), hist(s, b), b.taken == a.taken.push(o), b.made == a.made, b.disp == a.disp, b.live == a.live
    ensures books(b), 0 <= covered(b) == covered(a) < b.taken.len(), run(b.taken.subrange(covered(b), b.taken.len() as int), o), okop(o)
{
    assert(b.taken.take(a.taken.len() as int) =~= a.taken); lemma_books(a, b);
    assert(b.taken[a.taken.len() as int] == o); lemma_known(s, b, o);
    assert(b.taken.subrange(covered(b), b.taken.len() as int) =~= seq![o]);
}
pub open spec fn prefix<A>(a: Seq<A>, b: Seq<A>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
/// the history only grows
pub open spec fn grown(a: WS, b: WS) -> bool { prefix(a.taken, b.taken) && prefix(a.made, b.made) && prefix(a.disp, b.disp) && prefix(a.answers, b.answers) }
pub open spec fn kept(a: WS, b: WS) -> bool { grown(a, b) && b.stored == a.stored }
pub open spec fn heard(w: WS, chan: int, r: VpResult) -> bool { exists|i: int| 0 <= i < w.answers.len() && (#[trigger] w.answers[i]).0 == chan && (match (w.answers[i].1, r) { (Ok(x), Ok(y)) => true, (Err(x), Err(y)) => x == y, _ => false }) }
/// a future that will give the scheduler one request, whose answer it waits for
pub open spec fn asks(f: VdevBlockFut, c: Cmd, lba: int) -> bool { f.block_op is Some && ({ let o = f.block_op->0; o.lba == lba && o.cmd == c && o.senders@.len() == 1 && o.senders@[0].chan() == f.receiver.chan() }) }
pub proof fn lemma_pad_end(a: int, b: int) requires 0 <= a <= b < a + 4096 ensures b / 4096 <= a / 4096 + 1 {}
pub proof fn lemma_map(i: u32, s: u64) requires i < LABEL_COUNT, s < 0x1_0000_0000 ensures 0 <= i * s < 0x1_0000_0000, LABEL_LBAS < 100 { assert(0 <= i * s < 0x1_0000_0000) by (nonlinear_arith) requires i < 2, s < 0x1_0000_0000; }
