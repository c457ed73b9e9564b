
impl Credit {
    pub closed spec fn v(&self) -> isize { self.0@ }
    pub closed spec fn ok(&self) -> bool { okval(self.0@ as int) }
    /// what left the cell through shared access
    pub closed spec fn moved(&self) -> int { moved(self.0.log()) }
}
pub open spec fn moved(l: Seq<(int, int)>) -> int decreases l.len() { if l.len() == 0 { 0 } else { moved(l.drop_last()) + l.last().0 - l.last().1 } }
proof fn lemma_moved1(l: Seq<(int, int)>) ensures l.len() == 1 ==> moved(l) == l[0].0 - l[0].1
{ if l.len() == 1 { assert(l.drop_last().len() == 0); assert(moved(l.drop_last()) == 0); } }
proof fn lemma_shifts() ensures
    forall|x: isize| -0x2000_0000_0000_0000 < x < 0x2000_0000_0000_0000 ==> #[trigger] (x << 1usize) == x * 2,
    forall|x: isize| #[trigger] (x >> 1) == x as int / 2,
    forall|x: isize| #[trigger] (x >> 2) == x as int / 4,
{
    assert forall|x: isize| -0x2000_0000_0000_0000 < x < 0x2000_0000_0000_0000 implies #[trigger] (x << 1usize) == x * 2 by {
        assert((x << 1usize) == x * 2) by (bit_vector) requires -0x2000_0000_0000_0000isize < x < 0x2000_0000_0000_0000isize; }
    assert forall|x: isize| #[trigger] (x >> 1) == x as int / 2 by { assert((x >> 1) == x / 2) by (bit_vector); }
    assert forall|x: isize| #[trigger] (x >> 2) == x as int / 4 by { assert((x >> 2) == x / 4) by (bit_vector); }
}
