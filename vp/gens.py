"""Cuts items out of files of /repo of which only a part can compile here, verbatim (token for token)."""
import os, re
from . import rustsrc
from .rustsrc import Lost, text

def item_text(it): return "\n".join(text(a) for a in it.attrs) + "\n" + text(it.ts) + "\n"
def cut(path, keep):
    """All items keep(item, code) accepts, in order."""
    f = rustsrc.File(path)
    out = []
    for it in f.items:
        if it.cfg_test(): continue
        if any(text(a).startswith("#!") for a in it.attrs): it.attrs = [a for a in it.attrs if not text(a).startswith("#!")]
        if keep(it, text(it.ts)): out.append(item_text(it))
    return "".join(out)

TYPES_DROP_USE = re.compile(r"\buse (divbuf|enum_primitive_derive|num_traits|thiserror|bfffs_isa_l|nix|libc|std :: io)\b")
def types(repo, divbuf=False):
    """types.rs less the Error type (FreeBSD's errnos) and what names it."""
    def keep(it, c):
        if it.kind == "use": return not re.search(r"\buse (enum_primitive_derive|num_traits|thiserror)\b", c) and (divbuf or "divbuf" not in c)
        if it.name == "Error" or it.kind == "impl" and re.search(r"\bfor Error\b|^Error$|From\s*<\s*(nix::)?Error|From<Error>", it.name): return False
        if it.kind == "type" and it.name == "Result": return False
        if not divbuf and it.kind == "type" and re.search(r"IoVec|DivBuf|SGList", c): return False
        return True
    return cut(repo + "/bfffs-core/src/types.rs", keep)

def obl(name, base):
    r = lambda f: open(os.path.join(base, "contracts", "kani", f)).read()
    return r("oblig.rs") + r(name + "_obl.rs")

# name -> (files generated from /repo, module declarations)
def ids(repo):
    return {"src/types.rs": types(repo)}, "pub mod types;\n"

CRATES = {"ids": ids}

ERRORS = """
#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash)]
pub enum Error { EPERM, ENOENT, EIO, ENXIO, E2BIG, EBADF, ENOMEM, EACCES, EBUSY, EEXIST, EXDEV, ENODEV, ENOTDIR, EISDIR, EINVAL, EFBIG, ENOSPC, EROFS, EPIPE, ERANGE, EAGAIN, ENOTSUP, ENOTEMPTY, ENAMETOOLONG, ENOATTR, EOVERFLOW, EOPNOTSUPP, EUNKNOWN, ECKSUM, EINTEGRITY }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
"""
FSM_ACCESS = """
/// access for the check: nothing but calls
pub mod vp_access {
    use super::*;
    pub struct F(FreeSpaceMap);
    type V = Vec<(char, u64, u64, u64)>;
    fn view(f: &FreeSpaceMap) -> V { (0..f.total_zones).map(|z| { let k = if f.is_open(z) { 'O' } else if f.is_dead(z) { 'D' } else if f.is_empty(z) { 'E' } else if f.is_closed(z) { 'C' } else { '?' };
        (k, if k == 'E' { 0 } else { f.allocated(z) }, f.in_use(z), f.available(z)) }).collect() }
    impl F {
        pub fn of(c: &Cluster) -> V { view(&c.fsm.read().unwrap()) }
        pub fn new(n: ZoneT) -> Self { F(FreeSpaceMap::new(n)) }
        pub fn view(&self) -> V { view(&self.0) }
        pub fn totals(&self) -> (u64, u64) { (self.0.allocated_total(), self.0.in_use_total()) }
        pub fn find_empty(&self) -> Option<ZoneT> { self.0.find_empty() }
        pub fn open_zone(&mut self, id: ZoneT, s: u64, e: u64, l: u64, t: u32) -> std::result::Result<Option<(ZoneT, LbaT)>, ()> { self.0.open_zone(id, s, e, l, TxgT(t)).map_err(|_| ()) }
        pub fn try_allocate(&mut self, n: u64) -> (Option<(ZoneT, LbaT)>, Vec<ZoneT>) { self.0.try_allocate(n) }
        pub fn free(&mut self, z: ZoneT, n: u64) { self.0.free(z, n) }
        pub fn waste_space(&mut self, z: ZoneT, n: u64) { self.0.waste_space(z, n) }
        pub fn finish_zone(&mut self, z: ZoneT, t: u32) -> u64 { self.0.finish_zone(z, TxgT(t)) }
        pub fn kill_zone(&mut self, z: ZoneT) -> u64 { self.0.kill_zone(z) }
        pub fn reap(&mut self) -> Vec<ZoneT> { self.0.reap().into_iter().collect() }
    }
}
"""
LABEL_STUB = """
pub struct LabelReader;
pub struct LabelWriter { pub label: u32 }
impl LabelWriter { pub fn new(label: u32) -> Self { LabelWriter { label } } }
"""
def fsm(repo):
    """The whole of cluster.rs, with an access module appended; types.rs less Error; label.rs' space map constants."""
    c = open(repo + "/bfffs-core/src/cluster.rs").read()
    lab = "use crate::types::*;\n" + cut(repo + "/bfffs-core/src/label.rs", lambda it, t: it.name in ("SPACEMAP_ZONES_PER_LBA", "spacemap_space"))
    base = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "replay")
    return {"src/cluster.rs": c + FSM_ACCESS, "src/types.rs": types(repo, divbuf=True) + ERRORS, "src/label.rs": lab + LABEL_STUB, "src/raid.rs": open(os.path.join(base, "fsm_raid.rs")).read()}

# ---- the whole block layer: label, scheduler, mirror, RAID, cluster on an in-memory disk
STACK_DEPS = '''serde = { version = "1", features = ["derive"] }
serde_derive = "1"
speedy = { version = "0.8", features = ["uuid"] }
uuid = { version = "1", features = ["v4"] }
futures = "0.3"
fixedbitset = { version = "0.4.0", default-features = false }
divbuf = { version = "0.4.0", features = ["experimental"] }
metrohash = "1.0"
tracing = { version = "0.1", features = ["attributes"] }
enum_dispatch = "0.3.12"
auto_enums = { version = "0.8", features = ["futures03"] }
pin-project = "1"
itertools = "0.13"
bfffs-isa-l = { path = "@REPO@/bfffs-isa-l" }
'''
STACK_ERR = """
impl From<std::io::Error> for Error { fn from(e: std::io::Error) -> Self { match e.raw_os_error() { Some(11) => Error::EAGAIN, Some(2) => Error::ENOENT, Some(6) => Error::ENXIO, Some(22) => Error::EINVAL, Some(25) => Error::ENOTTY, Some(28) => Error::ENOSPC, _ => Error::EIO } } }
impl From<Error> for i32 { fn from(e: Error) -> i32 { match e { Error::EAGAIN => 11, Error::ENOENT => 2, Error::ENXIO => 6, Error::EINVAL => 22, Error::ENOTTY => 25, Error::ENOSPC => 28, _ => 5 } } }
"""
STACK_SHIMS = [(r"use atomic_enum::atomic_enum;", "use crate::vpshim::{nix, tokio_file, fs, ffi::{self, *}, AsFd, AsRawFd, BorrowedFd, RawFd, EraseMethod, AtomicEraseMethod};"), (r"#\[atomic_enum\]\nenum EraseMethod \{[^}]*\}", ""), (r"#\[doc\(hidden\)\]\nmod ffi \{.*?\n\}\n", ""), (r"use ffi::\{[^}]*\};", ""), (r"use nix::libc::", "use crate::vpshim::nix::libc::"),
    (r"    fs,\n    io::\{self, IoSlice, IoSliceMut\}", "    io::{self, IoSlice, IoSliceMut}"), (r"    os::\{\n.*?\n    \},\n(?=    pin::Pin)", ""), (r"\bcfg_select! \{\n\s*have_fspacectl => \{.*?\}\n\s*_ => (\{.*?\n\s*\})\n\s*\}", r"\1"),
    (r"use mockall_double::double;", ""), (r"#\[double\]", ""), (r"use nonzero_ext::nonzero;", "use crate::vpshim::nonzero;"), (r"\bbyteorder::", "crate::vpshim::byteorder::"),
    (r"use nix::unistd::\{sysconf, SysconfVar\};", "use crate::vpshim::{sysconf, SysconfVar};"), (r"use tokio_file::AioFileExt;", "use crate::vpshim::AioFileExt;"), (r"fs::\{self, OpenOptions\}", "process"), (r"use tokio::", "use crate::vpshim::tokio::"),
    (r"(?<![\w:])tokio::", "crate::vpshim::tokio::"), (r"os::unix::fs::OpenOptionsExt,", ""), (r"use crate::\{\n    label::\*,\n    types::\*,\n    util::\*,\n    vdev::\*,\n    vdev_file::\*,\n\};", "use crate::{label::*, types::*, util::*, vdev::*, vdev_file::*, vpshim::{fs, OpenOptions, libc}};")]
def stack(repo, access=None):
    """Every file as it is, but for the names of crates that are absent here, which become local modules."""
    src = repo + "/bfffs-core/src/"
    out = {"src/types.rs": types(repo, divbuf=True) + ERRORS.replace("EINTEGRITY }", "EINTEGRITY, EDOOFUS, ENOTTY }") + STACK_ERR}
    for f in ("label.rs", "vdev.rs", "vdev_file.rs", "vdev_block.rs", "mirror.rs", "raid/mod.rs", "raid/null_raid.rs", "raid/vdev_raid.rs", "raid/vdev_raid_api.rs", "raid/codec.rs", "raid/declust.rs", "raid/prime_s.rs", "raid/sgcursor.rs", "util.rs", "cluster.rs"):
        t = open(src + f).read()
        for a, b in STACK_SHIMS: t = re.sub(a, b, t, flags=re.S)
        out["src/" + f] = t + (access or {}).get(f, "")
    base = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "replay")
    out["src/vpshim.rs"] = open(os.path.join(base, "stack", "vpshim.rs")).read()
    return out

# ---- fs_tree.rs and parts of fs.rs on an ordered map
FS_DEPS = '''serde = { version = "1", features = ["derive", "rc"] }
serde_derive = "1"
speedy = { version = "0.8", features = ["uuid"] }
uuid = { version = "1", features = ["v4"] }
futures = "0.3"
divbuf = { version = "0.4.0", features = ["experimental"] }
metrohash = "1.0"
tracing = { version = "0.1", features = ["attributes"] }
auto_enums = { version = "0.8", features = ["futures03"] }
pin-project = "1"
thiserror = "1"
libc = "0.2"
nix = { version = "0.29", features = ["time"] }
'''
FS_SHIMS = [(r"use bitfield::(bitfield|\*);", "use crate::vpfs::{bitfield, hexdump, libc};"), (r"use num_enum::FromPrimitive;", ""), (r"#\[derive\(Debug, FromPrimitive\)\]", "#[derive(Debug)]"), (r"#\[num_enum\(default\)\]", ""), (r"use ::time::", "use crate::vpfs::time::"), (r"\bhexdump::hexdump_iter", "crate::vpfs::hexdump::hexdump_iter")]
FS_DML = "use crate::types::*; use std::{pin::Pin, fmt::Debug}; use futures::Future; use divbuf::{DivBuf, DivBufShared};\n#[derive(Clone, Copy, Debug, PartialEq)] pub enum Compression { None }\npub trait Cacheable: 'static {} impl Cacheable for DivBufShared {}\npub trait CacheRef {} impl CacheRef for DivBuf {}\n"
FS_USES = "impl From<Error> for i32 { fn from(e: Error) -> i32 { e as i32 } }\npub struct FileData { pub ino: u64 }\npub struct Fs { pub db: Arc<Database>, pub tree: TreeID }\n"
FS_DB = '''use crate::{types::*, fs_tree::*, dataset::*};
pub type TreeID = u64;
use futures::{Future, Stream, StreamExt, stream};
use std::{collections::BTreeMap, sync::{Arc, Mutex}, ops::{Bound, RangeBounds}};
pub type Tree = Arc<Mutex<BTreeMap<FSKey, FSValue>>>;
pub struct ReadOnlyFilesystem(pub Tree);
pub struct ReadWriteFilesystem(pub Tree);
impl AsRef<ReadWriteFilesystem> for ReadWriteFilesystem { fn as_ref(&self) -> &Self { self } }
fn get(t: &Tree, k: FSKey) -> impl Future<Output = Result<Option<FSValue>>> + Send + use<> { let t = t.clone(); async move { pause().await; Ok(t.lock().unwrap().get(&k).cloned()) } }
pub fn range<R: RangeBounds<FSKey>>(t: &Tree, r: R) -> RangeQuery<FSKey, FSKey, FSValue> { let v: Vec<_> = match (r.start_bound(), r.end_bound()) { (Bound::Included(a), Bound::Excluded(b)) if a >= b => vec![], _ => t.lock().unwrap().range(r).map(|(k, v)| (*k, v.clone())).collect() }; RangeQuery { items: v.into_iter(), late: false, _p: std::marker::PhantomData } }
impl ReadDataset<FSKey, FSValue> for ReadOnlyFilesystem { fn get(&self, k: FSKey) -> futures::future::BoxFuture<\'static, Result<Option<FSValue>>> { Box::pin(get(&self.0, k)) } fn range<R: RangeBounds<FSKey> + Send + \'static>(&self, r: R) -> RangeQuery<FSKey, FSKey, FSValue> { range(&self.0, r) } }
impl ReadDataset<FSKey, FSValue> for ReadWriteFilesystem { fn get(&self, k: FSKey) -> futures::future::BoxFuture<\'static, Result<Option<FSValue>>> { Box::pin(get(&self.0, k)) } fn range<R: RangeBounds<FSKey> + Send + \'static>(&self, r: R) -> RangeQuery<FSKey, FSKey, FSValue> { range(&self.0, r) } }
impl ReadWriteFilesystem {
    pub fn insert(&self, k: FSKey, v: FSValue) -> impl Future<Output = Result<Option<FSValue>>> + Send + use<> { let t = self.0.clone(); async move { pause().await; Ok(t.lock().unwrap().insert(k, v)) } }
    pub fn remove(&self, k: FSKey) -> impl Future<Output = Result<Option<FSValue>>> + Send + use<> { let t = self.0.clone(); async move { pause().await; Ok(t.lock().unwrap().remove(&k)) } }
}
pub struct Database(pub Tree);
impl Database {
    pub fn fsreads<F, B, R>(&self, _tree: TreeID, f: F) -> impl Stream<Item = Result<R>> + Send + use<F, B, R> where F: FnOnce(ReadOnlyFilesystem) -> B + Send + \'static, B: Stream<Item = Result<R>> + Send + \'static, R: \'static { f(ReadOnlyFilesystem(self.0.clone())) }
}
/// gives up its turn now and then
pub fn pause() -> impl Future<Output = ()> + Send { let mut n = 0; futures::future::poll_fn(move |cx| { n += 1; if n == 1 && crate::coin() { cx.waker().wake_by_ref(); std::task::Poll::Pending } else { std::task::Poll::Ready(()) } }) }
'''
FS_DS = '''use crate::{types::*, tree::*};
use futures::{Future, Stream, task::{Context, Poll}};
use std::{ops::RangeBounds, pin::Pin};
pub struct RangeQuery<K: Key, T, V: Value> { pub items: std::vec::IntoIter<(K, V)>, pub late: bool, pub _p: std::marker::PhantomData<fn() -> T> }
impl<K: Key, T, V: Value> Unpin for RangeQuery<K, T, V> {}
impl<K: Key, T, V: Value> Stream for RangeQuery<K, T, V> { type Item = Result<(K, V)>; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> { self.late = !self.late && crate::coin(); if self.late { cx.waker().wake_by_ref(); return Poll::Pending } Poll::Ready(self.items.next().map(Ok)) } }
pub trait ReadDataset<K: Key, V: Value> { fn get(&self, k: K) -> futures::future::BoxFuture<\'static, Result<Option<V>>>; fn range<R: RangeBounds<K> + Send + \'static>(&self, r: R) -> RangeQuery<K, K, V>; }
'''
FS_ACCESS = '''
pub mod vp_access {
    use super::*;
    pub async fn get<T: HTItem>(d: &ReadWriteFilesystem, ro: bool, k: FSKey, a: T::Aux, n: OsString) -> Result<T> { if ro { let x = ReadOnlyFilesystem(d.0.clone()); htable::get::<T>(&htable::ReadFilesystem::ReadOnly(&x), k, a, n).await } else { htable::get::<T>(&htable::ReadFilesystem::ReadWrite(d), k, a, n).await } }
    pub async fn insert<T: HTItem>(d: Arc<ReadWriteFilesystem>, k: FSKey, v: T, n: OsString) -> Result<Option<T>> { htable::insert(d, k, v, n).await }
    pub async fn remove<T: HTItem>(d: Arc<ReadWriteFilesystem>, k: FSKey, a: T::Aux, n: OsString) -> Result<T> { htable::remove::<Arc<ReadWriteFilesystem>, T>(d, k, a, n).await }
    pub async fn ok_to_rmdir(d: &ReadWriteFilesystem, ino: u64, parent: u64, n: OsString) -> Result<()> { Fs::ok_to_rmdir(d, ino, parent, n).await }
}
'''
def fstree(repo, extra=""):
    """fs_tree.rs as it is, but for crates that are absent here; of fs.rs the hash tables and the directory stream; of tree/node.rs the traits."""
    src = repo + "/bfffs-core/src/"
    t = open(src + "fs_tree.rs").read()
    for a, b in FS_SHIMS: t = re.sub(a, b, t)
    node = cut(src + "tree/node.rs", lambda it, c: it.kind == "trait" and it.name in ("Key", "Value", "MinValue") or it.kind == "impl" and re.match(r"MinValue for (RID|PBA)|Key for (RID|PBA)", it.name))
    disc = "\nimpl From<u8> for ObjKeyDiscriminant { fn from(x: u8) -> Self { match x { 0 => Self::DirEntry, 1 => Self::Inode, 2 => Self::Extent, 3 => Self::ExtAttr, 4 => Self::Property, 5 => Self::DyingInode, _ => Self::Unknown } } }\n"
    dml = open(src + "dml.rs").read(); dml = cut(src + "dml.rs", lambda it, c: it.kind == "trait" and it.name == "DML"); dml = re.sub(r"fn repay\b[^;]*;", "", dml)
    fns = {n: text(x.item.ts) for n, x in rustsrc.File(src + "fs.rs").fns("Fs").items()}
    uses = cut(src + "fs.rs", lambda it, c: it.kind == "use").replace("bitfield::*", "crate::vpfs::{bitfield, libc}").replace("use libc::", "use crate::vpfs::libc::")
    htab = cut(src + "fs.rs", lambda it, c: it.kind == "mod" and it.name == "htable")
    base = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "replay")
    return {"src/types.rs": types(repo, divbuf=True) + ERRORS, "src/util.rs": open(src + "util.rs").read(), "src/property.rs": open(src + "property.rs").read(), "src/fs_tree.rs": t + disc + extra,
        "src/tree.rs": "use crate::{dml::DML, types::*};\nuse futures::Future;\nuse serde::{Serialize, de::DeserializeOwned};\nuse speedy::{Readable, Writable};\nuse std::{collections::BTreeMap, fmt::Debug, pin::Pin};\n" + node,
        "src/dml.rs": FS_DML + dml, "src/fs.rs": uses + FS_USES + htab + "impl Fs {\n" + "\n".join(fns[n] for n in ("readdir", "ok_to_rmdir")) + "\n}\n" + FS_ACCESS,
        "src/database.rs": FS_DB, "src/dataset.rs": FS_DS, "src/vpfs.rs": open(os.path.join(base, "stack", "vpfs.rs")).read()}

# ---- the keys of fs_tree.rs, for Kani
KEYS_USES = """use crate::{vpk::{bitfield, libc, MetroHash64}, property::PropertyName};
use serde_derive::{Deserialize, Serialize};
use serde::ser::{Serialize, Serializer, SerializeStruct};
use speedy::{Readable, Reader, Writable, Writer};
use std::{ffi::{OsStr, OsString}, fmt::{self, Debug}, hash::{Hash, Hasher}, ops::{Bound, Range, RangeBounds}, os::unix::ffi::{OsStrExt, OsStringExt}};
"""
KEYS_SHIM = """
#[macro_export] macro_rules! vp_bitfield {
    ($(#[$m:meta])* $v:vis struct $n:ident($t:ty); $($rest:tt)*) => { $(#[$m])* $v struct $n(pub $t); impl $n { $crate::vp_fields!{ $t; $($rest)* } } };
}
#[macro_export] macro_rules! vp_fields {
    ($b:ty;) => {};
    ($b:ty; $t:ty; $v:vis $f:ident, _: $hi:expr, $lo:expr; $($rest:tt)*) => { $v fn $f(&self) -> $t { let w = (std::mem::size_of::<$b>() * 8) as u32; ((self.0 << (w - 1 - $hi)) >> (w - 1 - $hi + $lo)) as $t } $crate::vp_fields!{ $b; $($rest)* } };
}
pub use crate::vp_bitfield as bitfield;
pub mod libc { pub const EXTATTR_NAMESPACE_USER: i32 = 1; pub const EXTATTR_NAMESPACE_SYSTEM: i32 = 2; }
/// a hash function that gives whatever is asked of it
pub struct MetroHash64(());
pub static H: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
impl MetroHash64 { pub fn new() -> Self { MetroHash64(()) } }
impl std::hash::Hasher for MetroHash64 { fn write(&mut self, _: &[u8]) {} fn finish(&self) -> u64 { H.load(std::sync::atomic::Ordering::Relaxed) } }
"""
def keys(repo):
    src = repo + "/bfffs-core/src/"
    def keep(it, c):
        if it.kind in ("enum", "struct"): return it.name in ("ExtAttrNamespace", "ObjKeyDiscriminant", "ObjKey")
        if it.kind == "impl": return bool(re.fullmatch(r"(.* for )?(ExtAttrNamespace|ObjKey|FSKey)", it.name)) and not re.match(r"(Debug|Key|MinValue|TypicalSize)\b", it.name)
        return "FSKey" in c and it.kind == "macro"
    t = cut(src + "fs_tree.rs", keep)
    for n in ("ObjKeyDiscriminant", "enum ObjKey", "struct FSKey", "impl FSKey", "impl ObjKey"):
        if n not in t: raise Lost(n + " not found in fs_tree.rs")
    for a, b in [(r"# ?\[ ?derive ?\( ?Debug ?, ?FromPrimitive ?\) ?\]", "#[derive(Debug)]"), (r"# ?\[ ?num_enum ?\( ?default ?\) ?\]", "")]: t = re.sub(a, b, t)
    prop = cut(src + "property.rs", lambda it, c: it.kind == "enum" and it.name == "PropertyName")
    return {"src/fs_tree.rs": KEYS_USES + t, "src/property.rs": "use serde_derive::{Deserialize, Serialize};\nuse speedy::{Readable, Writable};\n" + prop, "src/vpk.rs": KEYS_SHIM}, "pub mod vpk;\npub mod property;\npub mod fs_tree;\n"
CRATES["keys"] = keys

# ---- the B+tree, over a stand-in for the data management layer
TREE_NODE = """
mod node_serializer { use super::{Addr, Key, Node, Value}; use serde::{Deserializer, Serializer};
    pub(super) fn deserialize<'de, A, DE, K, V>(_: DE) -> Result<Box<Node<A, K, V>>, DE::Error> where A: Addr, DE: Deserializer<'de>, K: Key, V: Value { unimplemented!() }
    pub(super) fn serialize<A, S, K, V>(_: &Node<A, K, V>, _: S) -> Result<S::Ok, S::Error> where A: Addr, S: Serializer, K: Key, V: Value { unimplemented!() } }
"""
TREE_ACCESS = """
/// access for the check
pub mod vp_access { use super::*;
    pub fn tree<A: Addr, D: DML<Addr=A>, K: Key, V: Value>(dml: Arc<D>, seq: bool, l: (u16, u16, u16, u16)) -> Tree<A, D, K, V> { Tree::new(dml, Limits::new(l.0, l.1, l.2, l.3), seq, None) }
    pub fn limits<A: Addr, D: DML<Addr=A>, K: Key, V: Value>(t: &Tree<A, D, K, V>) -> Limits { t.limits }
    pub fn root<A: Addr, D: DML<Addr=A>, K: Key, V: Value>(t: &Tree<A, D, K, V>) -> Option<(u8, K, Range<TxgT>)> { t.root.try_read().ok().map(|g| (g.height, g.elem.key, g.elem.txgs.clone())) }
    pub fn overlap(x: &Range<TxgT>, y: &Range<TxgT>) -> bool { ranges_overlap(x, y) }
}
"""
TREE_DEPS = FS_DEPS + '\nmetrohash = "1.0"\ndowncast = "0.11"\nfixedbitset = { version = "0.4.0", default-features = false }\npin-project = "1"\nauto_enums = { version = "0.8", features = ["futures03"] }\n'
TREE_DEPS = "\n".join(dict((l.split("=")[0].strip(), l) for l in TREE_DEPS.split("\n") if l.strip()).values()) + "\n"
def tree(repo, extra=""):
    """tree/{mod,node}.rs and tree/tree/mod.rs as they are, but for YAML and for crates that are absent here; writeback and the cache's traits as they are."""
    src = repo + "/bfffs-core/src/"
    def shim(t):
        for a, b in ((r"use futures_locks\s*::\s*\*\s*;", "use crate::vplock::*;"), (r"tracing_futures\s*::\s*Instrument", "tracing::Instrument"), (r"tokio\s*::\s*spawn", "crate::vplock::spawn")): t = re.sub(a, b, t)
        return t
    top = cut(src + "tree/mod.rs", lambda it, c: "cfg_select" not in c) + "pub use self::tree::{RangeQuery, Tree};\n"
    node = shim(cut(src + "tree/node.rs", lambda it, c: not (it.kind == "mod" and it.name == "node_serializer"))) + TREE_NODE
    p = src + "tree/tree/mod.rs"; t = cut(p, lambda it, c: True)
    for im in [n for n in {i.name for i in rustsrc.File(p).items if i.kind == "impl" and not i.cfg_test()}]:
        for n, f in rustsrc.File(p).fns(im).items():
            if n in ("dump", "dump_r"): t = t.replace(text(f.item.ts), "")
    t = t.replace("use futures_locks::RwLock;", "use crate::vplock::RwLock;")
    t = re.sub(r"use futures_locks\s*::\s*RwLock\s*;", "use crate::vplock::RwLock;", t)
    dml = cut(src + "dml.rs", lambda it, c: it.kind == "trait" and it.name == "DML" or it.kind == "enum" and it.name == "Compression")
    ddml = cut(src + "ddml/mod.rs", lambda it, c: it.kind == "struct" and it.name == "DRP" or it.kind == "impl" and it.name in ("DRP", "TypicalSize for DRP"))
    base = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "replay")
    return {"src/types.rs": types(repo, divbuf=True) + ERRORS.replace("EINTEGRITY }", "EINTEGRITY, EDEADLK }"), "src/util.rs": open(src + "util.rs").read(), "src/tree/mod.rs": top, "src/tree/node.rs": node, "src/tree/tree/mod.rs": shim(t) + TREE_ACCESS + extra,
        "src/dml.rs": "pub use crate::cache::{Cacheable, CacheRef};\nuse crate::{writeback::Credit, types::*};\nuse futures::Future;\nuse std::{num::NonZeroU8, pin::Pin};\nimpl Compression { pub fn is_compressed(self) -> bool { self != Compression::None } }\n" + dml,
        "src/ddml.rs": "use crate::{dml::Compression, types::*, util::*};\nuse serde_derive::{Deserialize, Serialize};\nuse speedy::{Readable, Writable};\n" + ddml,
        "src/vplock.rs": open(os.path.join(base, "stack", "vplock.rs")).read()}
