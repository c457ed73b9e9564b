import re
from vp.rustsrc import *
from vp.rustsrc import lex
SOURCE = "bfffs-core/src/fs.rs@mod htable"
FT = "bfffs-core/src/fs_tree.rs"
HEADER = """#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, unused_braces)]
use vstd::prelude::*; use core::mem; use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
"""
PRELUDE = r"""
fn vp_panic() requires false {}
#[verifier::external_body] fn vp_never<T>() -> T requires false { unimplemented!() }
pub assume_specification<T>[core::mem::replace::<T>](dest: &mut T, src: T) -> (r: T) ensures *final(dest) == src, r == *old(dest);
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum Error { ENOENT, ENOATTR, EIO }
#[verifier::external] impl core::fmt::Debug for Error { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } }
pub type Result<T> = core::result::Result<T, Error>;
#[derive(Clone, Copy)] pub struct FSKey(pub u128);
#[verifier::external_body] pub fn vp_take<T>(v: &mut Vec<T>, i: usize) -> (r: T) requires i < old(v)@.len() ensures r == old(v)@[i as int], final(v)@ == old(v)@ { unimplemented!() }
// ---- names
#[verifier::external_body] pub struct OsString { x: u8 }
pub type OsStr = OsString;
pub trait VpName: Sized { spec fn os(&self) -> OsString; fn as_ref(&self) -> (r: &OsString) ensures *r == self.os(); }
impl VpName for OsString { open spec fn os(&self) -> OsString { *self } fn as_ref(&self) -> (r: &OsString) { self } }
impl VpName for &OsString { open spec fn os(&self) -> OsString { **self } fn as_ref(&self) -> (r: &OsString) { *self } }
impl PartialEq for OsString { #[verifier::external_body] fn eq(&self, o: &OsString) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl for OsString { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &OsString) -> bool { *self == *o } }
impl PartialEq<&OsString> for OsString { #[verifier::external_body] fn eq(&self, o: &&OsString) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl<&OsString> for OsString { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&OsString) -> bool { *self == **o } }
#[verifier::external_body] pub struct VpExtent { x: u8 }
pub type InlineExtent = VpExtent; pub type BlobExtent = VpExtent;
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum ExtAttrNamespace { User, System }
#[verifier::external_body] pub struct VpOther { x: u8 }
pub enum FSValue { DirEntry(Dirent), DirEntries(Vec<Dirent>), ExtAttr(ExtAttr), ExtAttrs(Vec<ExtAttr>), Other(VpOther) }
// ---- the tree: an ordered map whose operations may fail
pub struct World { pub m: Ghost<Map<FSKey, FSValue>>, pub failed: Ghost<bool> }
#[verifier::external_body] pub struct VpFs { x: u8 }
pub open spec fn others(a: World, b: World, k: FSKey) -> bool { a.m@.remove(k) =~= b.m@.remove(k) }
pub open spec fn at(w: World, k: FSKey) -> Option<FSValue> { if w.m@.dom().contains(k) { Some(w.m@[k]) } else { None } }
impl VpFs {
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &Self) ensures r == self { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: FSKey, w: &mut World) -> (r: Result<Option<FSValue>>)
        ensures final(w).m@ == old(w).m@, match r { Ok(v) => v == at(*old(w), k) && final(w).failed@ == old(w).failed@, Err(_) => final(w).failed@ } { unimplemented!() }
    #[verifier::external_body] pub fn insert(&self, k: FSKey, v: FSValue, w: &mut World) -> (r: Result<Option<FSValue>>)
        ensures match r { Ok(o) => o == at(*old(w), k) && final(w).m@ == old(w).m@.insert(k, v) && final(w).failed@ == old(w).failed@, Err(_) => final(w).failed@ && others(*old(w), *final(w), k) } { unimplemented!() }
    #[verifier::external_body] pub fn remove(&self, k: FSKey, w: &mut World) -> (r: Result<Option<FSValue>>)
        ensures match r { Ok(o) => o == at(*old(w), k) && final(w).m@ == old(w).m@.remove(k) && final(w).failed@ == old(w).failed@, Err(_) => final(w).failed@ && others(*old(w), *final(w), k) } { unimplemented!() }
}
// ---- what a kind of hashed item is: the trait's own text, with its contract
pub enum HTValue<T: HTItem> { Single(T), Bucket(Vec<T>), Other(FSValue), None }
/// an item's identity: its name, and for some kinds something else beside it
pub trait HTItem: Sized {
    type Aux: Copy;
    spec fn id(&self) -> (int, OsString);
    spec fn want(aux: Self::Aux, name: OsString) -> (int, OsString);
    spec fn saux(&self) -> Self::Aux;
    spec fn sname(&self) -> OsString;
    /// a value in the tree that holds items of this kind, and in what form
    spec fn one(v: FSValue) -> Option<Self>;
    spec fn many(v: FSValue) -> Option<Vec<Self>>;
    spec fn enotfound() -> Error;
    fn vp_enotfound() -> (r: Error) ensures r == Self::enotfound();
    fn aux(&self) -> (ret: Self::Aux) ensures ret == self.saux();
    fn from_table(fsvalue: Option<FSValue>) -> (ret: HTValue<Self>)
        ensures match ret { HTValue::Single(x) => fsvalue is Some && Self::one(fsvalue->0) == Some(x) && Self::many(fsvalue->0) is None, HTValue::Bucket(v) => fsvalue is Some && Self::many(fsvalue->0) == Some(v) && Self::one(fsvalue->0) is None,
            HTValue::Other(x) => fsvalue == Some(x) && Self::one(x) is None && Self::many(x) is None, HTValue::None => fsvalue is None };
    fn into_bucket(selves: Vec<Self>) -> (ret: FSValue) ensures Self::many(ret) == Some(selves), Self::one(ret) is None;
    fn into_fsvalue(self) -> (ret: FSValue) ensures Self::one(ret) == Some(self), Self::many(ret) is None;
    fn same<N: VpName>(&self, aux: Self::Aux, name: N) -> (ret: bool) ensures ret == (self.id() == Self::want(aux, name.os()));
    fn try_from(fsvalue: FSValue) -> (ret: core::result::Result<Self, ()>) ensures match ret { Ok(x) => Self::one(fsvalue) == Some(x), Err(_) => Self::one(fsvalue) is None };
}
"""
D = dict(file=FT, derive_keep=[], pub_fields=True)
TYPES = [("struct", "Dirent", dict(D)), ("struct", "InlineExtAttr", dict(D)), ("struct", "BlobExtAttr", dict(D)), ("enum", "ExtAttr", dict(D))]
LEMMAS = ["htable.lemmas.rs"]
def EXTRA(file, log):
    """the associated constants and types of the two implementations"""
    out = ""
    for k in ("Dirent", "ExtAttr"):
        its = [i for i in file(FT).items if i.kind == "impl" and i.name == "HTItem for " + k]
        if len(its) != 1: raise Lost("impl HTItem for " + k)
        c = text(its[0].ts); m = re.search(r"const ENOTFOUND ?: ?Error ?= ?Error ?:: ?(\w+) ?;", c); a = re.search(r"type Aux ?= ?(\w+) ?;", c)
        if not m or not a: raise Lost("constants of HTItem for " + k)
        if a.group(1) != dict(Dirent="u64", ExtAttr="ExtAttrNamespace")[k]: raise Lost("Aux of " + k)
        out += "pub open spec fn enotfound_%s() -> Error { Error::%s }\n" % (k, m.group(1))
        IMPL_EXTRA["HTItem for " + k] = GHOST[k] + "    fn vp_enotfound() -> (r: Error) { Error::%s }\n" % m.group(1)
    log.add("associated constants become functions (traits' constants are not supported)")
    return out
IMPL_EXTRA = {}
def ghost(k, aux, one, many, name, idn):
    return f"""    type Aux = {aux};
    open spec fn id(&self) -> (int, OsString) {{ ({idn("self.saux()")}, self.sname()) }}
    open spec fn want(aux: {aux}, name: OsString) -> (int, OsString) {{ ({idn("aux")}, name) }}
    open spec fn saux(&self) -> {aux} {{ {name[0]} }}
    open spec fn sname(&self) -> OsString {{ {name[1]} }}
    open spec fn one(v: FSValue) -> Option<Self> {{ match v {{ FSValue::{one}(x) => Some(x), _ => None }} }}
    open spec fn many(v: FSValue) -> Option<Vec<Self>> {{ match v {{ FSValue::{many}(x) => Some(x), _ => None }} }}
    open spec fn enotfound() -> Error {{ enotfound_{k}() }}
"""
GHOST = dict(Dirent=ghost("Dirent", "u64", "DirEntry", "DirEntries", ("self.ino", "self.name"), lambda a: "0"),
    ExtAttr=ghost("ExtAttr", "ExtAttrNamespace", "ExtAttr", "ExtAttrs", ("match self { ExtAttr::Inline(x) => x.namespace, ExtAttr::Blob(x) => x.namespace }", "match self { ExtAttr::Inline(x) => x.name, ExtAttr::Blob(x) => x.name }"), lambda a: "if %s == ExtAttrNamespace::User { 1 } else { 2 }" % a))
NAME = [("name: T", "name: N", "")]
def impls(k):
    g = dict(file=FT, impl="HTItem for " + k, trait_impl=True)
    return [dict(g, name=n, subst=NAME, **(dict(generics="<N: VpName>") if n == "same" else {}), no_probe=True) for n in ("aux", "from_table", "into_bucket", "into_fsvalue", "same")] + [dict(file=FT, impl="TryFrom<FSValue> for " + k, as_impl="HTItem for " + k, name="try_from", no_probe=True, subst=[("std::result::Result", "core::result::Result", "")])]
S = [("dataset: D", "dataset: &VpFs", "AsRef<ReadWriteFilesystem> is a reference to it"), ("vp_hint", "T", ""), ("dataset: &ReadFilesystem", "dataset: &VpFs", "either kind of dataset is the tree"),
     ("T::ENOTFOUND", "T::vp_enotfound()", ""), ("=> vp_panic()", "=> vp_never()", ""), ("{ vp_panic() ; }", "{ vp_never() }", ""), ("{ vp_panic() }", "{ vp_never() }", "")]
G = [(("get", "insert", "remove"), "vp_m")]
def look(v, n):
    """the search of a bucket `v`: an index below which nothing is the item looked for"""
    return dict(kind="while", ghost_before="let ghost vp_b = %s@;" % v, invariant_except_break=["vp_acc is None", "forall|j: int| 0 <= j < vp_i ==> #[trigger] vp_b[j].id() != T::want(aux, name)"],
        invariant=["%s@ == vp_b" % v, "vp_i <= vp_b.len()"], decreases="vp_b.len() - vp_i",
        ensures=["match vp_acc { None => forall|j: int| 0 <= j < vp_b.len() ==> #[trigger] vp_b[j].id() != T::want(aux, name), Some(%s) => %s }" % n])
POS = ("vp_p", "vp_p < vp_b.len() && vp_b[vp_p as int].id() == T::want(aux, name)")
C = dict(futs=True, probe_generics="<T: HTItem>", ghost_start="broadcast use {g_push, g_update, g_swap};", generics="<T: HTItem>", ghost_param="vp_m: &mut World", ghost_calls=G, subst=S, pipes=dict(), requires=["!old(vp_m).failed@", "good::<T>(*old(vp_m), key)"])
FNS = [
    *impls("Dirent"),
    dict(file=FT, impl="ExtAttr", name="name", subst=[("'a", "", "")], ensures=["*ret == self.sname()"], no_probe=True),
    dict(file=FT, impl="ExtAttr", name="namespace", ensures=["ret == self.saux()"], no_probe=True),
    *impls("ExtAttr"),
    dict(C, impl=None, name="get", pipes=dict(kinds={"old": "vec"}, types=["vp_hint"], lazy=True), loops=[look("vp_s", ("vp_p", "exists|j: int| 0 <= j < vp_b.len() && #[trigger] vp_b[j] == vp_p && vp_p.id() == T::want(aux, name)"))], ret_type="Result<T>", ensures=[
        "final(vp_m).m@ == old(vp_m).m@",
        "!final(vp_m).failed@ ==> match ret { Ok(x) => holds(*old(vp_m), key, x) && x.id() == T::want(aux, name), Err(e) => e == T::enotfound() && !found::<T>(*old(vp_m), key, T::want(aux, name)) }"]),
    dict(C, impl=None, name="insert", loops=[look("old", POS)], ret_type="Result<Option<T>>", requires=C["requires"] + ["value.id() == T::want(value.saux(), name)"], ensures=[
        "others(*old(vp_m), *final(vp_m), key)",
        "!final(vp_m).failed@ ==> ret is Ok && good::<T>(*final(vp_m), key) && (forall|x: T| #[trigger] holds(*final(vp_m), key, x) <==> x == value || holds(*old(vp_m), key, x) && x.id() != value.id())",
        "!final(vp_m).failed@ ==> match ret->Ok_0 { Some(x) => holds(*old(vp_m), key, x) && x.id() == value.id(), None => !found::<T>(*old(vp_m), key, value.id()) }"]),
    dict(C, impl=None, name="remove", loops=[look("old", POS)], ret_type="Result<T>", ensures=[
        "others(*old(vp_m), *final(vp_m), key)",
        "!final(vp_m).failed@ ==> good::<T>(*final(vp_m), key) && (forall|x: T| #[trigger] holds(*final(vp_m), key, x) <==> holds(*old(vp_m), key, x) && x.id() != T::want(aux, name))",
        "!final(vp_m).failed@ ==> match ret { Ok(x) => holds(*old(vp_m), key, x) && x.id() == T::want(aux, name), Err(e) => e == T::enotfound() && !found::<T>(*old(vp_m), key, T::want(aux, name)) }"]),
]
POSTLUDE = ""
