// ---------------------------------------------------------------- the shared state
// All amounts are doubled bytes, as in the code.  One call is "me"; everybody else is the environment.
pub ghost struct G {
    pub cap: int,
    pub s: int,                     // supply without the flag bit
    pub flag: bool,                 // the flag bit
    pub lent: int,                  // credit lent out: held by somebody or on its way to a woken waiter
    pub mine: int,                  // the part of it this call controls
    pub trans: Map<int, int>,       // calls that subtracted a request without being granted it yet
    pub tok: Set<int>,              // calls that have promised to run awaken to the point where it finds nothing to do
    pub lock: Option<int>,          // who holds the sleepers mutex
    pub lt: int,                    // what the holder of the lock subtracted without granting it yet
    pub q: Seq<int>,                // requests of the sleepers, first come first
    pub qc: Seq<int>,               // their channels
    pub window: bool,               // a sleeper was pushed and its pusher, holding the lock, has not set the flag yet
    pub pushed: Seq<(int, int)>,    // what this call queued
    pub popped: Option<(int, int)>, // the sleeper this call took off the queue and has not woken yet
}
pub uninterp spec fn me() -> int;
pub open spec fn sum(m: Map<int, int>) -> int decreases m.dom().len()
{ if m.dom().len() == 0 { 0 } else { let k = m.dom().choose(); m[k] + sum(m.remove(k)) } }
pub open spec fn mine_trans(g: G) -> bool { g.trans.dom().contains(me()) }
/// nothing of this call is in progress
pub open spec fn idle(g: G) -> bool { !mine_trans(g) && !g.tok.contains(me()) && g.lock != Some(me()) && g.popped is None }
pub open spec fn free(g: G) -> int { g.cap - g.lent }
/// the W03 invariant: if the first sleeper could be served, somebody is about to look
pub open spec fn awake(g: G) -> bool {
    g.q.len() > 0 && free(g) >= g.q[0] ==> g.tok.len() > 0 || g.trans.dom().len() > 0 || g.window
}
pub open spec fn inv(g: G) -> bool {
    &&& 0 <= g.cap <= 0x7fff_ffff_ffff_fffe && g.cap % 2 == 0 && g.s % 2 == 0
    // W02: what is lent never exceeds the capacity, and nothing else is missing from the supply
    &&& 0 <= g.mine <= g.lent <= g.cap
    &&& g.s + sum(g.trans) + g.lt + g.lent == g.cap
    &&& forall|t: int| g.trans.dom().contains(t) ==> 0 <= #[trigger] g.trans[t]
    &&& sum(g.trans) < 0x2000_0000_0000_0000
    &&& 0 <= g.lt < 0x2000_0000_0000_0000
    &&& (g.lock is None ==> g.lt == 0 && !g.window)
    &&& g.q.len() == g.qc.len()
    &&& forall|i: int| 0 <= i < g.q.len() ==> 0 <= (#[trigger] g.q[i]) < 0x1000_0000_0000_0000 && g.q[i] % 2 == 0 && g.q[i] <= g.cap
    &&& (!g.flag && g.q.len() > 0 ==> g.window)
    &&& awake(g)
}
/// what the others may do between two actions of this call: anything that keeps the invariant and this call's own part
pub open spec fn rely(a: G, b: G) -> bool {
    &&& inv(b) && b.cap == a.cap && b.mine == a.mine && b.pushed == a.pushed && b.popped == a.popped
    &&& b.trans.dom().contains(me()) == a.trans.dom().contains(me()) && (a.trans.dom().contains(me()) ==> b.trans[me()] == a.trans[me()])
    &&& b.tok.contains(me()) == a.tok.contains(me())
    &&& (b.lock == Some(me())) == (a.lock == Some(me()))
    &&& (a.lock == Some(me()) ==> b.q == a.q && b.qc == a.qc && b.lt == a.lt && b.window == a.window && b.flag == a.flag)
}
pub open spec fn raw(g: G) -> int { g.s + if g.flag { 1int } else { 0int } }
/// a call subtracts w.  Outside the lock that is a borrower: it is granted w if the value found is at least w and nobody
/// waits; otherwise the subtraction is transient and it promises to run awaken.  Under the lock it is awaken serving the
/// first sleeper; if that is refused its promise is kept.
pub open spec fn subbed(g: G, w: int) -> G {
    if g.lock == Some(me()) {
        if raw(g) >= w { G { s: g.s - w, lent: g.lent + w, mine: g.mine + w, ..g } } else { G { s: g.s - w, lt: g.lt + w, tok: g.tok.remove(me()), ..g } }
    } else if raw(g) >= w && !g.flag { G { s: g.s - w, lent: g.lent + w, mine: g.mine + w, tok: g.tok.remove(me()), ..g } }
    else { G { s: g.s - w, trans: g.trans.insert(me(), w), tok: g.tok.remove(me()), ..g } }
}
/// a call adds w: it takes back its transient subtraction, or gives up credit it controls
pub open spec fn added(g: G, w: int) -> G {
    if g.lock == Some(me()) && g.lt > 0 { G { s: g.s + w, lt: g.lt - w, ..g } }
    else if mine_trans(g) { G { s: g.s + w, trans: g.trans.remove(me()), tok: g.tok.insert(me()), ..g } }
    else { G { s: g.s + w, lent: g.lent - w, mine: g.mine - w, tok: if g.lock != Some(me()) && g.flag { g.tok.insert(me()) } else { g.tok }, ..g } }
}
impl WriteBack {
    pub uninterp spec fn g(&self) -> G;
    pub open spec fn ok(&self) -> bool { inv(self.g()) && self.g().cap == self.capacity }
    // ---- trusted: the actions on the shared state.  Each takes effect atomically on a state `m` that the
    // environment may have reached; the state left behind must satisfy the invariant before the next one.
    #[verifier::external_body] pub fn vp_supply_fetch_sub(&mut self, w: isize, o: MemOrder) -> (r: isize)
        requires old(self).ok(), 0 <= w < 0x1000_0000_0000_0000, w % 2 == 0, w <= old(self).capacity, !mine_trans(old(self).g()), old(self).g().lt == 0 || old(self).g().lock != Some(me())
        ensures final(self).capacity == old(self).capacity,
            exists|m: G| #[trigger] rely(old(self).g(), m) && sum(m.trans) + w < 0x2000_0000_0000_0000 && r == raw(m) && final(self).g() == subbed(m, w as int) { unimplemented!() }
    #[verifier::external_body] pub fn vp_supply_fetch_add(&mut self, w: isize, o: MemOrder) -> (r: isize)
        requires old(self).ok(), 0 <= w, w % 2 == 0,
            mine_trans(old(self).g()) ==> old(self).g().trans[me()] == w,
            old(self).g().lock == Some(me()) && old(self).g().lt > 0 ==> old(self).g().lt == w,
            !mine_trans(old(self).g()) && (old(self).g().lock == Some(me()) && old(self).g().lt > 0) || mine_trans(old(self).g()) && !(old(self).g().lock == Some(me()) && old(self).g().lt > 0) || old(self).g().mine >= w
        ensures final(self).capacity == old(self).capacity,
            exists|m: G| #[trigger] rely(old(self).g(), m) && r == raw(m) && final(self).g() == added(m, w as int) { unimplemented!() }
    #[verifier::external_body] pub fn vp_supply_fetch_or(&mut self, b: isize, o: MemOrder) -> (r: isize)
        requires old(self).ok(), b == 1
        ensures final(self).capacity == old(self).capacity,
            exists|m: G| #[trigger] rely(old(self).g(), m) && r == raw(m) && final(self).g() == (G { flag: true, window: if m.lock == Some(me()) { false } else { m.window }, ..m }) { unimplemented!() }
    #[verifier::external_body] pub fn vp_supply_fetch_and(&mut self, b: isize, o: MemOrder) -> (r: isize)
        requires old(self).ok(), b == !1isize
        ensures final(self).capacity == old(self).capacity,
            exists|m: G| #[trigger] rely(old(self).g(), m) && r == raw(m) && final(self).g() == (G { flag: false, ..m }) { unimplemented!() }
    #[verifier::external_body] pub fn vp_supply_load(&mut self, o: MemOrder) -> (r: isize)
        requires old(self).ok() ensures final(self).capacity == old(self).capacity, rely(old(self).g(), final(self).g()), r == raw(final(self).g()) { unimplemented!() }
    #[verifier::external_body] pub fn vp_lock(&mut self)
        requires old(self).ok(), old(self).g().lock != Some(me())
        ensures final(self).capacity == old(self).capacity,
            exists|m: G| #[trigger] rely(old(self).g(), m) && m.lock is None && final(self).g() == (G { lock: Some(me()), tok: m.tok.insert(me()), ..m }) { unimplemented!() }
    /// the guard goes out of scope (or is dropped): releases the lock if it is still held
    #[verifier::external_body] pub fn vp_scope_end(&mut self)
        requires old(self).ok(), old(self).g().lock == Some(me()) ==> old(self).g().lt == 0 && !old(self).g().window
        ensures final(self).capacity == old(self).capacity,
            if old(self).g().lock == Some(me()) { exists|m: G| #[trigger] rely(old(self).g(), m) && final(self).g() == (G { lock: None, ..m }) } else { final(self).g() == old(self).g() } { unimplemented!() }
    // the queue, only while the lock is held
    #[verifier::external_body] pub fn vp_front(&mut self) -> (r: Option<&Sleeper>)
        requires old(self).ok(), old(self).g().lock == Some(me())
        ensures final(self).capacity == old(self).capacity,
            r is Some <==> old(self).g().q.len() > 0, r is Some ==> r->0.wants == old(self).g().q[0] && r->0.tx.chan() == old(self).g().qc[0],
            // with nothing queued a promise to run awaken is kept
            exists|m: G| #[trigger] rely(old(self).g(), m) && final(self).g() == (G { tok: if m.q.len() == 0 { m.tok.remove(me()) } else { m.tok }, ..m }) { unimplemented!() }
    #[verifier::external_body] pub fn vp_pop_front(&mut self) -> (r: Option<Sleeper>)
        requires old(self).ok(), old(self).g().lock == Some(me()), old(self).g().popped is None
        ensures final(self).capacity == old(self).capacity,
            r is Some <==> old(self).g().q.len() > 0, r is Some ==> r->0.wants == old(self).g().q[0] && r->0.tx.chan() == old(self).g().qc[0],
            exists|m: G| #[trigger] rely(old(self).g(), m) && final(self).g() == (if m.q.len() > 0 { G { q: m.q.drop_first(), qc: m.qc.drop_first(), popped: Some((m.q[0], m.qc[0])), ..m } } else { m }) { unimplemented!() }
    #[verifier::external_body] pub fn vp_push_back(&mut self, x: Sleeper)
        requires old(self).ok(), old(self).g().lock == Some(me())
        ensures final(self).capacity == old(self).capacity,
            exists|m: G| #[trigger] rely(old(self).g(), m) && final(self).g() == (G { q: m.q.push(x.wants as int), qc: m.qc.push(x.tx.chan()), window: m.window || !m.flag, pushed: m.pushed.push((x.wants as int, x.tx.chan())), ..m }) { unimplemented!() }
    /// waking the sleeper taken off the queue hands it the credit it asked for; if it is gone the credit stays here
    #[verifier::external_body] pub fn vp_send(&mut self, tx: Sender) -> (r: Result<(), ()>)
        requires old(self).ok(), old(self).g().popped is Some, (old(self).g().popped->0).1 == tx.chan(), old(self).g().mine >= (old(self).g().popped->0).0
        ensures final(self).capacity == old(self).capacity,
            exists|m: G| #[trigger] rely(old(self).g(), m) && final(self).g() == (if r is Ok { G { mine: m.mine - (m.popped->0).0, popped: None, ..m } } else { G { popped: None, ..m } }) { unimplemented!() }
}
pub proof fn lemma_sum_remove(m: Map<int, int>, k: int) requires m.dom().contains(k) ensures sum(m) == m[k] + sum(m.remove(k)) decreases m.dom().len()
{
    let c = m.dom().choose(); assert(m.dom().contains(c)) by { assert(m.dom().len() != 0); }
    if c != k {
        lemma_sum_remove(m.remove(c), k);
        assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
        lemma_sum_remove(m.remove(k), c);
    }
}
pub proof fn lemma_sum_nonneg(m: Map<int, int>) requires forall|t: int| m.dom().contains(t) ==> 0 <= #[trigger] m[t] ensures sum(m) >= 0 decreases m.dom().len()
{
    if m.dom().len() != 0 { let c = m.dom().choose(); assert(m.dom().contains(c)); assert(m[c] >= 0); lemma_sum_nonneg(m.remove(c)); }
}
pub broadcast proof fn b_insert(m: Map<int, int>, k: int, v: int) requires !m.dom().contains(k) ensures #[trigger] sum(m.insert(k, v)) == sum(m) + v
{ lemma_sum_remove(m.insert(k, v), k); assert(m.insert(k, v).remove(k) =~= m); }
pub broadcast proof fn b_remove(m: Map<int, int>, k: int) requires m.dom().contains(k) ensures #[trigger] sum(m.remove(k)) == sum(m) - m[k]
{ lemma_sum_remove(m, k); }
pub broadcast proof fn b_nonneg(m: Map<int, int>) requires forall|t: int| m.dom().contains(t) ==> 0 <= #[trigger] m[t] ensures #[trigger] sum(m) >= 0, m.dom().len() == 0 ==> sum(m) == 0
{ lemma_sum_nonneg(m); }
proof fn bits() ensures
    forall|x: isize| #[trigger] (x & 1) == x as int % 2,
    forall|x: isize| #[trigger] (x & !1isize) == x as int - x as int % 2,
    forall|x: isize| #[trigger] (x >> 1) == x as int / 2,
    forall|x: usize| x < 0x7fff_ffff_ffff_ffff ==> #[trigger] (x << 1) == x * 2,
    forall|x: isize| -0x4000_0000_0000_0000 <= x < 0x4000_0000_0000_0000 ==> #[trigger] (x << 1) == x * 2,
{
    assert forall|x: isize| #[trigger] (x >> 1) == x as int / 2 by { assert((x >> 1) == x / 2) by (bit_vector); }
    assert forall|x: isize| #[trigger] (x & 1) == x as int % 2 by { assert((x & 1) == x - (x / 2) * 2) by (bit_vector); }
    assert forall|x: isize| #[trigger] (x & !1isize) == x as int - x as int % 2 by { assert((x & !1isize) == (x / 2) * 2) by (bit_vector); }
    assert forall|x: usize| x < 0x7fff_ffff_ffff_ffff implies #[trigger] (x << 1) == x * 2 by { assert((x << 1) == x * 2) by (bit_vector) requires x < 0x7fff_ffff_ffff_ffffusize; }
    assert forall|x: isize| -0x4000_0000_0000_0000 <= x < 0x4000_0000_0000_0000 implies #[trigger] (x << 1) == x * 2 by { assert((x << 1) == x * 2) by (bit_vector) requires -0x4000_0000_0000_0000isize <= x < 0x4000_0000_0000_0000isize; }
}
/// W02: whenever the invariant holds, what is lent is at most the capacity; with no call in progress and nothing lent all of it is there
proof fn prop_w02_limit(g: G) requires inv(g) ensures 0 <= g.lent <= g.cap {}
pub open spec fn quiescent(g: G) -> bool { g.lock is None && g.trans.dom().len() == 0 && g.tok.len() == 0 }
proof fn prop_w02_reusable(g: G) requires inv(g), quiescent(g), g.lent == 0 ensures g.s == g.cap, g.q.len() == 0
{ b_nonneg(g.trans); if g.q.len() > 0 { assert(g.q[0] <= g.cap); } }
/// W03: with no call in progress the first waiter waits only for credit that is not there
proof fn prop_w03_no_lost_wakeup(g: G) requires inv(g), quiescent(g) ensures g.s == free(g), g.q.len() > 0 ==> g.q[0] > free(g)
{ b_nonneg(g.trans); }
/// W03: a newcomer is granted credit at once only when nobody had finished queueing before
proof fn prop_w03_no_overtaking(g: G, w: int) requires inv(g), raw(g) >= w, !g.flag, g.lock != Some(me()) ensures g.q.len() == 0 || g.window {}
/// a fresh cache satisfies the invariant
proof fn prop_w02_fresh(c: int) requires 0 <= c <= 0x3fff_ffff_ffff_ffff
    ensures inv(G { cap: 2 * c, s: 2 * c, flag: false, lent: 0, mine: 0, trans: Map::empty(), tok: Set::empty(), lock: None, lt: 0, q: Seq::empty(), qc: Seq::empty(), window: false, pushed: Seq::empty(), popped: None })
{ assert(sum(Map::<int, int>::empty()) == 0); }
