import re
from vp.rustsrc import *
from vp.rustsrc import lex
SOURCE = "bfffs-core/src/fs.rs@fn Fs::readdir"
FS = "bfffs-core/src/fs.rs"
HEADER = """#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, unused_braces)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
"""
PRELUDE = r"""
fn vp_panic() requires false {}
#[verifier::external_body] fn vp_never<T>() -> T requires false { unimplemented!() }
pub enum Poll<T> { Ready(T), Pending }
pub struct Error;
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body] pub struct Context { x: u8 }
// ---- assumed contracts: a directory's entries, as the ordered tree yields them (K01 says which keys a range holds)
#[verifier::external_body] pub struct FSKey { x: u128 }
impl FSKey {
    pub uninterp spec fn off(&self) -> u64;
    #[verifier::external_body] pub fn offset(&self) -> (r: u64) ensures r == self.off() { unimplemented!() }
    #[verifier::external_body] pub fn dirent_range(ino: u64, offset: u64) -> (r: VpRange) ensures r.ino == ino, r.offset == offset { unimplemented!() }
}
pub struct VpRange { pub ino: u64, pub offset: u64 }
#[verifier::external_body] pub struct Dirent { x: u8 }
pub enum FSValue { DirEntry(Dirent), DirEntries(Vec<Dirent>), Other }
/// what the caller of readdir gets
pub struct LibcDirent { pub d_off: i64, pub of: Ghost<Dirent> }
impl Dirent { #[verifier::external_body] pub fn into_libc_dirent(self, offs: u64) -> (r: LibcDirent) ensures r.d_off == offs as i64, r.of@ == self { unimplemented!() } }
pub type Items = Seq<(FSKey, FSValue)>;
#[verifier::external_body] pub struct RangeQuery { x: u8 }
impl RangeQuery { pub uninterp spec fn view(&self) -> Items;
    #[verifier::external_body] pub fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<Result<(FSKey, FSValue)>>>)
        ensures r is Pending ==> final(self)@ == old(self)@, r matches Poll::Ready(None) ==> old(self)@.len() == 0 && final(self)@ == old(self)@,
            r matches Poll::Ready(Some(Ok(x))) ==> old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.drop_first(), r matches Poll::Ready(Some(Err(_))) ==> final(self)@ == old(self)@ { unimplemented!() } }
#[derive(Clone, Copy)] pub struct VpTree { pub x: u64 }
pub struct Fs { pub db: VpDb, pub tree: VpTree }
#[verifier::external_body] pub struct VpDb { x: u8 }
impl VpDb { /// the entries of a directory in hash order
    pub uninterp spec fn dir(&self, ino: u64) -> Items;
    #[verifier::external_body] pub fn vp_dataset(&self, tree: VpTree) -> (r: VpDataset) ensures forall|i: u64| r.dir(i) == self.dir(i) { unimplemented!() } }
#[verifier::external_body] pub struct VpDataset { x: u8 }
impl VpDataset { pub uninterp spec fn dir(&self, ino: u64) -> Items;
    #[verifier::external_body] pub fn range(&self, r: VpRange) -> (q: RangeQuery) ensures q@ == at(self.dir(r.ino), r.offset) { unimplemented!() } }
pub struct FileData { pub ino: u64 }
"""
TYPES = [("struct", "Bucketing", dict(pub_fields=True)), ("struct", "ReaddirStream", dict(pub_fields=True, subst=[("RangeQuery<FSKey, FSKey, FSValue>", "RangeQuery")]))]
LEMMAS = ["listing.lemmas.rs"]
def EXTRA(file, log):
    """the getters bitfield! generates for Cursor"""
    it = [i for i in file(SOURCE).items if i.kind == "macro" and i.name == "bitfield"]
    if len(it) != 1: raise Lost("bitfield! Cursor")
    ts = it[0].ts; t = text(ts[next(k for k, x in enumerate(ts) if x.s == "{") + 1:-1]); t = re.sub(r"\s+", " ", t)
    m = re.fullmatch(r"\s*struct Cursor ?\( ?u64 ?\) ?;(.*)", t)
    if not m: raise Lost("bitfield! Cursor")
    out = "pub struct Cursor(pub u64);\nimpl Cursor {\n"; n = 0
    for ty, nm, hi, lo in re.findall(r"(u64|u8) ?; ?(\w+) ?, ?_ ?: ?(\d+) ?, ?(\d+) ?;", m.group(1)):
        want = {"offset": "cur_off(self.0)", "bucket_idx": "cur_idx(self.0)"}.get(nm)
        if want is None: raise Lost("field " + nm)
        a, b = 63 - int(hi), 63 - int(hi) + int(lo); n += 1
        w = {"offset": "x >> 8u64", "bucket_idx": "(x & 0xff) as u8"}[nm]
        out += f"    pub fn {nm}(&self) -> (r: {ty}) ensures r == {want} {{ proof {{ let x = self.0; assert((((x << {a}u64) >> {b}u64) as {ty}) == ({w})) by (bit_vector); }} ((self.0 << {a}u64) >> {b}u64) as {ty} }}\n"
    if n != 2: raise Lost("fields of Cursor")
    log.add("bitfield!'s getters are written out as the shifts the macro makes of them")
    return out + "}\n"
S = [("libc::dirent", "LibcDirent", "")]
PIN = [("mut self: Pin<&mut Self>", "&mut self", "Pin<&mut Self> of an Unpin stream is &mut self"), ("Pin::new(&mut self.rq)", "self.rq", "Pin<&mut Self> of an Unpin stream is &mut self")]
FNS = [
    dict(impl="Cursor", name="new", requires=["offset < 0x100_0000_0000_0000", "bucket_idx <= 255"], ensures=["ret.0 == cursor(offset, bucket_idx as int)"], ret_type="Cursor"),
    dict(impl="From<i64> for Cursor", as_impl="Cursor", name="from", ensures=["ret.0 == t as u64"], ret_type="Cursor"),
    dict(impl="ReaddirStream", name="pop_bucket", subst=[*PIN, *S], no_probe=True,
        requires=["old(self).inv()", "old(self).bucketing is Some"],
        ensures=["final(self).inv()", "final(self).rq@ == old(self).rq@", "same_skip(*old(self), *final(self))", "old(self).rest().len() > 0", "shows(ret, old(self).rest()[0])", "final(self).rest() =~= old(self).rest().drop_first()"],
        start="lemma_pop(old(self).bucketing->0.bucket@, old(self).bucketing->0.kofs, old(self).bucketing->0.returned as int);"),
    dict(impl="Stream for ReaddirStream", as_impl="ReaddirStream", name="poll_next", subst=[*PIN, *S, ("Self::Item", "Result<LibcDirent>", ""), ("=> vp_panic()", "=> vp_never()", "")], no_probe=True,
        requires=["old(self).inv()"], decreases="old(self).rq@.len()",
        ensures=["final(self).inv()",
            "ret matches Poll::Ready(Some(Ok(d))) ==> old(self).rest().len() > 0 && shows(d, old(self).rest()[0]) && final(self).rest() =~= old(self).rest().drop_first()",
            "ret matches Poll::Ready(None) ==> old(self).rest().len() == 0 && final(self).rest().len() == 0",
            "ret is Pending ==> final(self).rest() =~= old(self).rest()",
            "ret matches Poll::Ready(Some(Err(_))) ==> final(self).rest() =~= old(self).rest()"],
        start="lemma_step(old(self).rq@, old(self).offset, old(self).bucket_idx as int);",
        ghost_start="let ghost vp_v = if old(self).rq@.len() > 0 { match old(self).rq@[0].1 { FSValue::DirEntries(v) => v@, _ => seq![] } } else { seq![] };",
        loops=[dict(kind="for", iter="it", invariant=["bucket@ == (if it.index@ <= vp_v.len() { vp_v.take(vp_v.len() - it.index@) } else { seq![] })"])]),
    dict(file=FS, impl="Fs", name="readdir", drop_items=True, ret_type="ReaddirStream", requires=["good(self.db.dir(fd.ino))"],
        ensures=["ret.inv()", "ret.rest() =~= list_from(self.db.dir(fd.ino), soffs as u64)"],
        subst=[("self.db.fsreads(self.tree, move |dataset| {", "{ let dataset = self.db.vp_dataset(self.tree); proof { lemma_at(self.db.dir(fd.ino), cur_off(soffs as u64)); lemma_off(soffs as u64); }", "Database::fsreads runs its closure on the tree's dataset"), ("}).map_err(Error::into)", "}", "errors are passed on"), *S]),
]
POSTLUDE = ""
