SOURCE = "bfffs-core/src/label.rs"
HEADER = """#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, unused_braces)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
"""
PRELUDE = r"""
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum Error { EINVAL, EINTEGRITY, EDOOFUS, EIO }
pub type Result<T, E = Error> = core::result::Result<T, E>;
fn vp_panic() requires false {}
// ---- assumed contract on std::hash::Hasher and AsRef<[u8]>, as in util.py
pub trait Hasher: Sized {
    spec fn stream(&self) -> Seq<u8>;
    fn write(&mut self, bytes: &[u8]) ensures final(self).stream() == old(self).stream() + bytes@;
}
pub trait AsRef { spec fn bytes(&self) -> Seq<u8>; fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bytes(); }
// ---- assumed contract on MetroHash64: a function of the bytes written
#[verifier::external_body] pub struct MetroHash64 { x: u8 }
impl Hasher for MetroHash64 {
    uninterp spec fn stream(&self) -> Seq<u8>;
    #[verifier::external_body] fn write(&mut self, bytes: &[u8]) { unimplemented!() }
}
impl MetroHash64 {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.stream() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn finish(&self) -> (r: u64) ensures r == metro(self.stream()) { unimplemented!() }
}
/// x.to_be().hash(h): the eight bytes of x, most significant first, whatever the machine
pub struct Be { pub x: u64 }
pub trait ToBe { fn vp_to_be(self) -> (r: Be) ensures r.x == self.w(); spec fn w(self) -> u64; }
impl ToBe for u64 { open spec fn w(self) -> u64 { self } fn vp_to_be(self) -> (r: Be) { Be { x: self } } }
impl Be { #[verifier::external_body] pub fn hash(self, h: &mut MetroHash64) ensures final(h).stream() == old(h).stream() + be8(self.x) { unimplemented!() } }
// ---- assumed contract on byteorder::BigEndian
pub struct BigEndian {}
impl BigEndian {
    #[verifier::external_body] pub fn read_u64(b: &[u8]) -> (r: u64) requires b@.len() >= 8 ensures r == unbe(b@.subrange(0, 8)) { unimplemented!() }
    /// write_u64(&mut buf[at..], x)
    #[verifier::external_body] pub fn write_u64(b: &mut DivBufMut, at: usize, x: u64) requires at + 8 <= old(b)@.len()
        ensures final(b)@ == old(b)@.subrange(0, at as int) + be8(x) + old(b)@.subrange(at + 8, old(b)@.len() as int) { unimplemented!() }
}
// ---- assumed contract on divbuf
#[verifier::external_body] pub struct IoVec { x: Vec<u8> }
#[verifier::external_body] pub struct DivBufShared { x: Vec<u8> }
#[verifier::external_body] pub struct DivBufMut { x: Vec<u8> }
pub type DivBuf = IoVec;
pub type SGList = Vec<IoVec>;
impl AsRef for IoVec { uninterp spec fn bytes(&self) -> Seq<u8>; #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
impl IoVec { #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.bytes().len() { unimplemented!() } }
impl DivBufShared {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn from(v: Vec<u8>) -> (r: Self) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    /// never fail on a buffer that was just made and is not shared
    #[verifier::external_body] pub fn try_const(&self) -> (r: core::result::Result<IoVec, u8>) ensures r is Ok, r->Ok_0.bytes() == self@ { unimplemented!() }
    #[verifier::external_body] pub fn try_mut(&self) -> (r: core::result::Result<DivBufMut, u8>) ensures r is Ok, r->Ok_0@ == self@ { unimplemented!() }
}
impl DivBufMut {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn extend(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    /// the only accessor that reaches the end of its buffer
    #[verifier::external_body] pub fn try_resize(&mut self, n: usize, x: u8) -> (r: core::result::Result<(), u8>) requires n >= old(self)@.len()
        ensures r is Ok, final(self)@ == old(self)@ + Seq::new((n - old(self)@.len()) as nat, |i: int| x) { unimplemented!() }
    #[verifier::external_body] pub fn freeze(self) -> (r: IoVec) ensures r.bytes() == self@ { unimplemented!() }
}
pub trait VpVec: Sized { spec fn sv(&self) -> Seq<IoVec>;
    fn vp_rev(self) -> (r: Vec<IoVec>) ensures r@ == rev(self.sv());
    fn vp_extend(&mut self, v: Vec<IoVec>) ensures final(self).sv() == old(self).sv() + v@; }
impl VpVec for Vec<IoVec> { open spec fn sv(&self) -> Seq<IoVec> { self@ }
    #[verifier::external_body] fn vp_rev(self) -> (r: Vec<IoVec>) { unimplemented!() }
    #[verifier::external_body] fn vp_extend(&mut self, v: Vec<IoVec>) { unimplemented!() } }
// ---- assumed contract on speedy: a value has one encoding, no encoding is the beginning of another
#[verifier::external_body] pub struct SpeedyError { x: u8 }
#[verifier::external] impl core::fmt::Debug for SpeedyError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
pub trait Writable: Sized { spec fn enc(&self) -> Seq<u8>;
    fn write_to_vec(t: &Self) -> (r: core::result::Result<Vec<u8>, SpeedyError>) ensures r is Ok ==> r->Ok_0@ == t.enc(); }
pub trait Readable: Sized { spec fn dec(s: Seq<u8>) -> Option<(Self, int)>;
    fn read_from_stream_unbuffered(c: &mut io::Cursor<Vec<u8>>) -> (r: core::result::Result<Self, SpeedyError>)
        ensures final(c).bytes() == old(c).bytes(), r is Ok <==> Self::dec(old(c).rest()) is Some,
            r is Ok ==> (r->Ok_0, final(c).pos() - old(c).pos()) == Self::dec(old(c).rest())->0; }
pub trait Stored: Writable + Readable { proof fn law(&self, after: Seq<u8>) ensures Self::dec(self.enc() + after) == Some((*self, self.enc().len() as int)); }
pub enum SeekFrom { Start(u64) }
pub mod io { use vstd::prelude::*; verus! {
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Cursor<T> { x: T }
impl Cursor<Vec<u8>> {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn rest(&self) -> Seq<u8> { self.bytes().subrange(self.pos(), self.bytes().len() as int) }
    #[verifier::external_body] pub fn new(v: Vec<u8>) -> (r: Self) ensures r.bytes() == v@, r.pos() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn seek(&mut self, to: super::SeekFrom) -> (r: core::result::Result<u64, u8>) ensures r is Ok, final(self).bytes() == old(self).bytes(), final(self).pos() == to->Start_0 { unimplemented!() }
} } }
pub type LbaT = u64;
// ---- assumed contract on tokio_file: reading at an offset fills the buffer or fails
pub mod fs { use vstd::prelude::*; verus! { #[verifier::external_body] pub struct File { x: u8 }
impl File { pub uninterp spec fn area(&self, off: int, len: int) -> Option<Seq<u8>>; } } }
#[derive(Clone, Copy)] pub struct Errno { pub e: i32 }
impl Error { #[verifier::external_body] pub fn from(e: Errno) -> (r: Error) { unimplemented!() } }
#[verifier::external_body] fn vp_read_at(f: &fs::File, b: &mut Vec<u8>, off: u64) -> (r: core::result::Result<usize, Errno>)
    ensures final(b)@.len() == old(b)@.len(), r is Ok <==> f.area(off as int, old(b)@.len() as int) is Some, r is Ok ==> final(b)@ == f.area(off as int, old(b)@.len() as int)->0 { unimplemented!() }
"""
SUB = [("AsRef<[u8]>", "AsRef", "AsRef<[u8]> is the contract trait AsRef")]
STD = [("std::result::Result", "core::result::Result", "std::result is core::result"), ("speedy::Error", "SpeedyError", "speedy's error type is opaque")]
U = "bfffs-core/src/util.rs"
TYPES = [("const", "MAGIC", {"subst": [("&[u8;", "&'static [u8;")]})] + [("const", n, {}) for n in ("MAGIC_LEN", "CHECKSUM_LEN", "LENGTH_LEN", "LABEL_COUNT", "LABEL_LBAS", "LABEL_SIZE")] + [("const", "BYTES_PER_LBA", {"file": U}), ("struct", "LabelReader", {}), ("struct", "LabelWriter", {})]
LEMMAS = ["label.lemmas.rs"]
FNS = []
def fn(impl, name, **k): FNS.append(dict(impl=impl, name=name, **k))
fn(None, "checksum_iovec", file=U, mono=[("T", "IoVec"), ("H", "MetroHash64")], subst=SUB, no_probe=True, ensures=["final(hasher).stream() == old(hasher).stream() + iovec.bytes()"])
fn(None, "checksum_sglist", file=U, mono=[("T", "IoVec"), ("H", "MetroHash64")], subst=SUB, no_probe=True,
   ensures=["final(hasher).stream() == old(hasher).stream() + cat(sglist@)"],
   ghost_start="let ghost h0 = hasher.stream();",
   loops=[dict(kind="for", iter="it",
       invariant=["hasher.stream() == h0 + cat(sglist@.take(it.index@))", "it.seq().len() == sglist@.len()", "forall|i:int| 0<=i<sglist@.len() ==> *(#[trigger] it.seq()[i]) == sglist@[i]"],
       start="assert(sglist@.take(it.index@ + 1).drop_last() == sglist@.take(it.index@));", after="assert(sglist@.take(sglist@.len() as int) == sglist@);")])
LR, LW = "LabelReader", "LabelWriter"
fn(LR, "new", subst=[("to_be()", "vp_to_be()", "u64::to_be().hash() writes the big-endian bytes")],
   ensures=["ret is Ok <==> intact(buffer@)", "ret is Err && wellformed(buffer@) ==> ret->Err_0 == Error::EINTEGRITY", "ret is Err && !wellformed(buffer@) ==> ret->Err_0 == Error::EINVAL",
            "ret is Ok ==> ret->Ok_0.cursor.bytes() == buffer@ && ret->Ok_0.cursor.pos() == 32"],
   after_let={"calc_checksum": "let b = buffer@; assert(b.subrange(24, 32).subrange(0, 8) =~= b.subrange(24, 32)); assert(b.subrange(16, 24).subrange(0, 8) =~= b.subrange(16, 24)); assert(MAGIC@ =~= b.subrange(0, 16)); assert(hasher.stream() =~= be8(len_of(b)) + contents_of(b));"},
   before_stmt=[], start="")
fn(LR, "lba", requires=["label < 2"], ensures=["ret == 4 * label"])
fn(LR, "deserialize", subst=STD + [("<'a, T>", "<T>", "a lifetime"), ("Readable<'a, LittleEndian>", "Readable", "speedy's Readable is the contract trait")],
   ensures=["final(self).cursor.bytes() == old(self).cursor.bytes()", "ret is Ok <==> T::dec(old(self).cursor.rest()) is Some",
            "ret is Ok ==> (ret->Ok_0, final(self).cursor.pos() - old(self).cursor.pos()) == T::dec(old(self).cursor.rest())->0"])
fn(LW, "lba", requires=["self.label < 2"], ensures=["ret == 4 * self.label"])
fn(LW, "new", subst=[("SGList::default()", "Vec::new()", "the default list is empty")], requires=["label < 2"], ensures=["ret.label == label", "ret.buffers@.len() == 0"])
fn(LW, "serialize", resmap=True, subst=STD + [("Writable<LittleEndian>", "Writable", "speedy's Writable is the contract trait")],
   ensures=["final(self).label == old(self).label", "ret is Err ==> final(self).buffers@ == old(self).buffers@",
            "ret is Ok ==> final(self).buffers@.len() == old(self).buffers@.len() + 1 && final(self).buffers@.drop_last() == old(self).buffers@ && final(self).buffers@.last().bytes() == t.enc()"])
fn(LW, "into_sglist", rangemut=True,
   pre=[("self.buffers.into_iter().rev().collect::<Vec<_>>()", "self.buffers.vp_rev()", "the buffers in reverse"), ("DivBuf::len", "|vp_b| vp_b.len()", "a method passed by name is a closure")],
   subst=[("(contents_len as u64).to_be()", "(contents_len as u64).vp_to_be()", "u64::to_be().hash() writes the big-endian bytes"), ("sglist.extend(contents)", "sglist.vp_extend(contents)", "Vec::extend appends")],
   pipes=dict(kinds={}),
   requires=["self.buffers@.len() < usize::MAX - 2", "stacked(self.buffers@).len() < usize::MAX"],
   start="lemma_magic();", loops=[dict(invariant=["vp_i <= contents@.len()", "vp_acc == total(contents@.take(vp_i as int))", "total(contents@) < usize::MAX"], decreases="contents@.len() - vp_i", start="lemma_total(contents@, vp_i as int);",
               ghost_before="proof { lemma_rev(self.buffers@); }", after="assert(contents@.take(vp_i as int) =~= contents@);")],
   before_tail="let k = stacked(self.buffers@); lemma_rev(self.buffers@); assert(hasher.stream() =~= be8(k.len() as u64) + k); lemma_cat_cons(sglist@[0], contents@); assert(sglist@ =~= seq![sglist@[0]] + contents@); assert(sglist@[0].bytes() =~= magic() + be8(metro(be8(k.len() as u64) + k)) + be8(k.len() as u64)); assert(cat(sglist@) =~= encoded(k));",
   ensures=["cat(ret@) == encoded(stacked(self.buffers@))"])
fn("Manager", "read_label", file="bfffs-core/src/vdev_block.rs", subst=[("f.read_at(&mut rbuf[..], offset).unwrap().await", "vp_read_at(f, &mut rbuf, offset)", "the read is its result, awaited on the spot"), ("let mut r = Err(", "let mut r: Result<LabelReader> = Err(", "type annotation"), ("let mut rbuf = vec![0; LABEL_SIZE];", "let mut rbuf: Vec<u8> = vec![0; LABEL_SIZE];", "type annotation")],
   ensures=["ret is Ok <==> good(*f, 0) || good(*f, 1)", "ret is Ok ==> ret->Ok_0.cursor.pos() == 32 && ret->Ok_0.cursor.bytes() == label_of(*f, if good(*f, 0) { 0 } else { 1 })->0"],
   loops=[dict(kind="for", iter="it", invariant_except_break=["forall|j: int| 0 <= j < it.index@ ==> !good(*f, j)", "r is Err"],
       ensures=["r is Ok <==> good(*f, 0) || good(*f, 1)", "r is Ok ==> r->Ok_0.cursor.pos() == 32 && r->Ok_0.cursor.bytes() == label_of(*f, if good(*f, 0) { 0 } else { 1 })->0"],
       after_let={"offset": "assert(offset == label_at(label as int));"})])
POSTLUDE = r"""
pub struct Manager {}
/// what was put into a label comes out of it in the reverse order, whatever else is on the disk after it
fn prop_l01_round_trip<A: Stored, B: Stored>(a: &A, b: &B, which: u32, Ghost(pad): Ghost<Seq<u8>>)
    requires which < 2, a.enc().len() + b.enc().len() < usize::MAX
{
    let mut w = LabelWriter::new(which);
    if let Ok(()) = w.serialize(b) { if let Ok(()) = w.serialize(a) {
        let ghost k = a.enc() + b.enc();
        proof { lemma_two(w.buffers@, a.enc(), b.enc()); lemma_magic(); lemma_encoded(k, pad); }
        let sg = w.into_sglist();
        let disk = vp_disk(&sg, Ghost(pad));
        let mut r = LabelReader::new(disk);
        assert(r is Ok);
        if let Ok(mut r) = r {
            proof { assert(r.cursor.rest() =~= a.enc() + (b.enc() + pad)); a.law(b.enc() + pad); }
            let x: Result<A, SpeedyError> = r.deserialize();
            assert(x is Ok && x->Ok_0 == *a);
            proof { assert(r.cursor.rest() =~= b.enc() + pad); b.law(pad); }
            let y: Result<B, SpeedyError> = r.deserialize();
            assert(y is Ok && y->Ok_0 == *b);
        }
    } }
}
/// the two labels of a device do not overlap and end where the space maps begin
fn prop_l01_places(i: u32) requires i < 2 {
    let w = LabelWriter::new(i);
    let (a, b) = (w.lba(), LabelReader::lba(i));
    assert(a == b);
    let c = LabelReader::lba(1 - i);
    assert(a + LABEL_LBAS <= c || c + LABEL_LBAS <= a);
    assert(a + LABEL_LBAS <= LABEL_COUNT * LABEL_LBAS && LABEL_SIZE == LABEL_LBAS * 4096);
}
"""
