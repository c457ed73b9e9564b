pub open spec fn nonempty(s: Seq<IoVec>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@.len() > 0 }
/// the bytes of a list
pub open spec fn flat(s: Seq<IoVec>) -> Seq<u8> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { s[0]@ + flat(s.subrange(1, s.len() as int)) } }
pub open spec fn flat2(s: Seq<Seq<u8>>) -> Seq<u8> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { flat2(s.drop_last()) + s.last() } }
impl<'a> SGCursor<'a> {
    spec fn wf(&self) -> bool {
        &&& nonempty(self.sglist@)
        &&& self.sglist_idx <= self.sglist@.len()
        &&& self.sglist_idx < self.sglist@.len() ==> self.iovec_idx < self.sglist@[self.sglist_idx as int]@.len()
        &&& self.sglist_idx == self.sglist@.len() ==> self.iovec_idx == 0
    }
    /// what is left of the current buffer
    spec fn head(&self) -> Seq<u8> {
        if self.sglist_idx < self.sglist@.len() {
            self.sglist@[self.sglist_idx as int]@.subrange(self.iovec_idx as int, self.sglist@[self.sglist_idx as int]@.len() as int)
        } else { Seq::empty() }
    }
    /// all that is left
    spec fn rest(&self) -> Seq<u8> {
        if self.sglist_idx < self.sglist@.len() {
            self.head() + flat(self.sglist@.subrange(self.sglist_idx + 1, self.sglist@.len() as int))
        } else { Seq::empty() }
    }
    proof fn lemma_rest(&self) requires self.wf() ensures
        self.sglist_idx < self.sglist@.len() ==> self.head().len() > 0 && self.rest().len() > 0,
        self.sglist_idx == self.sglist@.len() ==> self.rest().len() == 0 && self.head().len() == 0 {}
    proof fn lemma_step(&self) requires self.wf() ensures
        // stepping to the next buffer
        self.sglist_idx < self.sglist@.len() ==>
            flat(self.sglist@.subrange(self.sglist_idx + 1, self.sglist@.len() as int)) == (if self.sglist_idx + 1 < self.sglist@.len() {
                let n = self.sglist@[self.sglist_idx + 1]@;
                n.subrange(0, n.len() as int) + flat(self.sglist@.subrange(self.sglist_idx + 2, self.sglist@.len() as int)) } else { Seq::empty() }),
        self.sglist_idx < self.sglist@.len() ==> ({ let b = self.sglist@[self.sglist_idx as int]@; b.subrange(0, b.len() as int) == b }),
        // taking part of the current one
        forall|max: int| 0 <= max <= self.head().len() ==> #[trigger] self.head().subrange(0, max) + self.head().subrange(max, self.head().len() as int) == self.head(),
        self.sglist_idx < self.sglist@.len() ==> forall|max: int| 0 <= max <= self.head().len() ==>
            #[trigger] self.head().subrange(0, max) == self.sglist@[self.sglist_idx as int]@.subrange(self.iovec_idx as int, self.iovec_idx + max)
            && self.head().subrange(max, self.head().len() as int) == self.sglist@[self.sglist_idx as int]@.subrange(self.iovec_idx + max, self.sglist@[self.sglist_idx as int]@.len() as int),
    {
        if self.sglist_idx < self.sglist@.len() {
            let s = self.sglist@; let i = self.sglist_idx as int;
            let t = s.subrange(i + 1, s.len() as int);
            if i + 1 < s.len() {
                assert(t[0] == s[i + 1]);
                assert(t.subrange(1, t.len() as int) == s.subrange(i + 2, s.len() as int));
                assert(s[i + 1]@.subrange(0, s[i + 1]@.len() as int) == s[i + 1]@);
            }
            let b = s[i]@; assert(b.subrange(0, b.len() as int) == b);
            assert forall|max: int| 0 <= max <= self.head().len() implies #[trigger] self.head().subrange(0, max) + self.head().subrange(max, self.head().len() as int) == self.head() by {
                assert(self.head().subrange(0, max) + self.head().subrange(max, self.head().len() as int) =~= self.head());
            }
            assert forall|max: int| 0 <= max <= self.head().len() implies #[trigger] self.head().subrange(0, max) == b.subrange(self.iovec_idx as int, self.iovec_idx + max)
                && self.head().subrange(max, self.head().len() as int) == b.subrange(self.iovec_idx + max, b.len() as int) by {
                assert(self.head().subrange(0, max) =~= b.subrange(self.iovec_idx as int, self.iovec_idx + max));
                assert(self.head().subrange(max, self.head().len() as int) =~= b.subrange(self.iovec_idx + max, b.len() as int));
            }
        }
    }
}
