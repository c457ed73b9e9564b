SOURCE = "bfffs-core/src/property.rs"
HEADER = """#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, unused_braces, unreachable_patterns)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
"""
PRELUDE = r"""
fn vp_panic() requires false {}
#[verifier::external_body] fn vp_streq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
// ---- decimal numbers, as str::parse and Display have them
pub open spec fn dchar(d: nat) -> char { ('0' as u32 + d) as char }
pub open spec fn isd(c: char) -> bool { '0' as u32 <= c as u32 <= '9' as u32 }
pub open spec fn dval(c: char) -> nat { (c as u32 - '0' as u32) as nat }
pub open spec fn digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> isd(#[trigger] s[i]) }
pub open spec fn value(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { 10 * value(s.drop_last()) + dval(s.last()) } }
pub open spec fn parse_num(s: Seq<char>) -> Option<nat> {
    let t = if s.len() > 0 && s[0] == '+' { s.subrange(1, s.len() as int) } else { s };
    if digits(t) && value(t) <= usize::MAX { Some(value(t)) } else { None }
}
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![dchar(n)] } else { dec(n / 10).push(dchar(n % 10)) } }
// ---- splitting at the first '='
pub open spec fn eq_at(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0] == c { 0 } else { 1 + eq_at(s.subrange(1, s.len() as int), c) } }
pub open spec fn head(s: Seq<char>, c: char) -> Seq<char> { s.subrange(0, eq_at(s, c)) }
pub open spec fn rest(s: Seq<char>, c: char) -> Option<Seq<char>> { if eq_at(s, c) < s.len() { Some(s.subrange(eq_at(s, c) + 1, s.len() as int)) } else { None } }
#[verifier::external_body] pub struct VpSplit<'a> { x: &'a str }
impl<'a> VpSplit<'a> {
    pub uninterp spec fn sep(&self) -> char;
    pub uninterp spec fn left(&self) -> int;                    // pieces that may still be produced
    pub uninterp spec fn todo(&self) -> Option<Seq<char>>;      // what is left to be split
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures (r is Some) == (old(self).left() > 0 && old(self).todo() is Some), final(self).sep() == old(self).sep(),
            r matches Some(p) ==> final(self).left() == old(self).left() - 1 && p@ == (if old(self).left() == 1 { old(self).todo()->0 } else { head(old(self).todo()->0, old(self).sep()) })
               && final(self).todo() == (if old(self).left() == 1 { None } else { rest(old(self).todo()->0, old(self).sep()) }),
            r is None ==> final(self).todo() is None || final(self).left() <= 0
    { unimplemented!() }
}
pub trait VpStr { spec fn sv(&self) -> Seq<char>;
    fn vp_splitn(&self, n: usize, c: char) -> (r: VpSplit<'_>) ensures r.sep() == c, r.left() == n, r.todo() == Some(self.sv());
    fn vp_split_once(&self, c: char) -> (r: Option<(&str, &str)>) ensures (r is Some) == (rest(self.sv(), c) is Some), r matches Some(p) ==> p.0@ == head(self.sv(), c) && p.1@ == rest(self.sv(), c)->0;
    fn vp_parse_usize(&self) -> (r: Result<usize, ()>) ensures (r is Ok) == (parse_num(self.sv()) is Some), r matches Ok(n) ==> n == parse_num(self.sv())->0;
    fn vp_to_string(&self) -> (r: String) ensures r@ == self.sv();
}
impl VpStr for str { open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vp_splitn(&self, n: usize, c: char) -> (r: VpSplit<'_>) { unimplemented!() }
    #[verifier::external_body] fn vp_split_once(&self, c: char) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn vp_parse_usize(&self) -> (r: Result<usize, ()>) { unimplemented!() }
    #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() }
}
// ---- Display: fmt with default flags appends to what was written
#[verifier::external_body] pub struct VpFormatter { x: u8 }
impl VpFormatter { pub uninterp spec fn view(&self) -> Seq<char>; }
pub type VpFmtResult = Result<(), ()>;
pub trait VpDisplay { spec fn shown(&self) -> Seq<char>;
    fn vp_fmt(&self, f: &mut VpFormatter) -> (r: VpFmtResult) ensures final(f)@ == old(f)@ + self.shown(); }
impl VpDisplay for &str { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_fmt(&self, f: &mut VpFormatter) -> (r: VpFmtResult) { unimplemented!() } }
impl VpDisplay for String { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_fmt(&self, f: &mut VpFormatter) -> (r: VpFmtResult) { unimplemented!() } }
impl VpDisplay for i32 { open spec fn shown(&self) -> Seq<char> { if *self >= 0 { dec(*self as nat) } else { seq!['-'] + dec((-*self) as nat) } } #[verifier::external_body] fn vp_fmt(&self, f: &mut VpFormatter) -> (r: VpFmtResult) { unimplemented!() } }
impl VpDisplay for u32 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vp_fmt(&self, f: &mut VpFormatter) -> (r: VpFmtResult) { unimplemented!() } }
impl VpDisplay for u64 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vp_fmt(&self, f: &mut VpFormatter) -> (r: VpFmtResult) { unimplemented!() } }
impl VpDisplay for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vp_fmt(&self, f: &mut VpFormatter) -> (r: VpFmtResult) { unimplemented!() } }
"""
TYPES = [("enum", "Property", dict(pub_fields=True)), ("enum", "ParsePropertyError", dict(pub_fields=True)), ("enum", "PropertyName", dict(pub_fields=True, derive="Clone, Copy, PartialEq, Eq, Structural")),
         ("struct", "ParsePropertyNameError", dict(pub_fields=False)), ("enum", "PropertySource", dict(pub_fields=True, derive="Clone, Copy, PartialEq, Eq, Structural")), ("struct", "ParsePropertySourceError", dict(pub_fields=False))]
LEMMAS = ["property.lemmas.rs"]
STD = [("std::result::Result", "Result", "std::result::Result is Result"), (".splitn(", ".vp_splitn(", "str::splitn by a char"), (".split_once(", ".vp_split_once(", "str::split_once"),
       (".parse::<usize>()", ".vp_parse_usize()", "str::parse::<usize>"), (".to_string()", ".vp_to_string()", "str::to_string"), (".fmt(f)", ".vp_fmt(f)", "Display::fmt of the standard types"),
       ("&mut fmt::Formatter<'_>", "&mut VpFormatter", "fmt::Formatter"), ("&mut fmt::Formatter", "&mut VpFormatter", "fmt::Formatter"), ("fmt::Result", "VpFmtResult", "fmt::Result"), ("(1 << i)", "(1i32 << (*i as u32))", "1 << i with i: &u8 is an i32 shift")]
LITS = ["atime", "basemountpoint", "mountpoint", "name", "recordsize", "recsize", "true", "on", "false", "off", "default", "local", "none", "inherited"]
REV = "proof { %s }" % " ".join('reveal_strlit("%s");' % x for x in LITS)
FNS = []
def fn(impl, name, **k): FNS.append(dict(impl=impl, name=name, as_impl=k.pop("as_impl", impl.split(" for ")[-1]), subst=STD + k.pop("subst", []), strs=True, consts=k.pop("consts", None), **k))
fn("PropertyName", "boolean", ensures=["ret == (self == PropertyName::Atime)"])
fn("Property", "name", ensures=["ret == name_of(*self)"])
fn("FromStr for PropertyName", "from_str", start="lemma_lits();", ensures=["ret == parse_name(s@)"])
fn("FromStr for Property", "from_str", start="broadcast use axiom_string; lemma_split(s@); lemma_lits();", ensures=["agrees(ret, parse_prop(s@))"])
fn("FromStr for PropertySource", "from_str", start="lemma_lits();", consts="PropertySource", ensures=["ret == parse_src(s@)"])
fn("fmt::Display for PropertyName", "fmt", ensures=["final(f)@ == old(f)@ + show_name(*self)"])
fn("fmt::Display for PropertySource", "fmt", consts="PropertySource", ensures=["final(f)@ == old(f)@ + show_src(*self)"])
fn("fmt::Display for Property", "fmt", requires=["displayable(*self)"], start="lemma_shl();", ensures=["final(f)@ == old(f)@ + show(*self)"])
fn("PropertySource", "is_inherited", ensures=["ret == (self matches PropertySource::Set(i) && i > 0)"])
POSTLUDE = ""
