pub broadcast axiom fn axiom_string(a: String, b: String) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
// ---- the documented meaning
pub open spec fn name_of(p: Property) -> PropertyName { match p {
    Property::Atime(_) => PropertyName::Atime, Property::BaseMountpoint(_) => PropertyName::BaseMountpoint, Property::Mountpoint(_) => PropertyName::Mountpoint,
    Property::Name(_) => PropertyName::Name, Property::RecordSize(_) => PropertyName::RecordSize } }
pub open spec fn show_name(n: PropertyName) -> Seq<char> { match n {
    PropertyName::Atime => "atime"@, PropertyName::BaseMountpoint => "basemountpoint"@, PropertyName::Mountpoint => "mountpoint"@, PropertyName::Name => "name"@, PropertyName::RecordSize => "recordsize"@ } }
pub open spec fn parse_name(s: Seq<char>) -> Result<PropertyName, ParsePropertyNameError> {
    if s == "atime"@ { Ok(PropertyName::Atime) } else if s == "basemountpoint"@ { Ok(PropertyName::BaseMountpoint) } else if s == "mountpoint"@ { Ok(PropertyName::Mountpoint) }
    else if s == "name"@ { Ok(PropertyName::Name) } else if s == "recordsize"@ || s == "recsize"@ { Ok(PropertyName::RecordSize) } else { Err(ParsePropertyNameError) } }
pub open spec fn show_src(s: PropertySource) -> Seq<char> { match s { PropertySource::None => "none"@, PropertySource::Default => "default"@, PropertySource::Set(i) => if i == 0 { "local"@ } else { "inherited"@ } } }
pub open spec fn parse_src(s: Seq<char>) -> Result<PropertySource, ParsePropertySourceError> {
    if s == "none"@ { Ok(PropertySource::None) } else if s == "default"@ { Ok(PropertySource::Default) } else if s == "local"@ { Ok(PropertySource::Set(0)) }
    else if s == "inherited"@ { Ok(PropertySource::Set(1)) } else { Err(ParsePropertySourceError) } }
/// 2^i for the record sizes
pub open spec fn rs_bytes(i: nat) -> nat { vstd::arithmetic::power2::pow2(i) }
pub enum P { Atime(bool), Mount(Seq<char>), Rs(nat) }
pub enum E { NoEquals, Name, ReadOnly, Value(Seq<char>) }
pub open spec fn agrees(r: Result<Property, ParsePropertyError>, e: Result<P, E>) -> bool { match (r, e) {
    (Ok(Property::Atime(b)), Ok(P::Atime(c))) => b == c, (Ok(Property::Mountpoint(m)), Ok(P::Mount(c))) => m@ == c, (Ok(Property::RecordSize(i)), Ok(P::Rs(c))) => i == c,
    (Err(ParsePropertyError::NoEquals), Err(E::NoEquals)) => true, (Err(ParsePropertyError::Name(_)), Err(E::Name)) => true, (Err(ParsePropertyError::ReadOnly), Err(E::ReadOnly)) => true,
    (Err(ParsePropertyError::Value(v)), Err(E::Value(w))) => v@ == w, _ => false } }
pub open spec fn rs_of(n: nat) -> Option<nat> {
    if n == 4096 { Some(12nat) } else if n == 8192 { Some(13nat) } else if n == 16384 { Some(14nat) } else if n == 32768 { Some(15nat) } else if n == 65536 { Some(16nat) }
    else if n == 131072 { Some(17nat) } else if n == 262144 { Some(18nat) } else if n == 524288 { Some(19nat) } else if n == 1048576 || n == 1048776 { Some(20nat) } else { None } }
pub open spec fn parse_value(n: PropertyName, v: Seq<char>) -> Result<P, E> { match n {
    PropertyName::Atime => if v == "true"@ || v == "on"@ { Ok(P::Atime(true)) } else if v == "false"@ || v == "off"@ { Ok(P::Atime(false)) } else { Err(E::Value(v)) },
    PropertyName::Mountpoint => Ok(P::Mount(v)),
    PropertyName::RecordSize => match parse_num(v) { Some(x) => match rs_of(x) { Some(i) => Ok(P::Rs(i)), None => Err(E::Value(v)) }, None => Err(E::Value(v)) },
    _ => Err(E::ReadOnly) } }
pub open spec fn parse_prop(s: Seq<char>) -> Result<P, E> { match parse_name(head(s, '=')) {
    Err(_) => Err(E::Name),
    Ok(n) => match rest(s, '=') { Some(v) => parse_value(n, v), None => if n == PropertyName::Atime { parse_value(n, "on"@) } else { Err(E::NoEquals) } } } }
pub open spec fn displayable(p: Property) -> bool { p matches Property::RecordSize(i) ==> i < 31 }
pub open spec fn settable(p: Property) -> bool { match p { Property::Atime(_) => true, Property::Mountpoint(_) => true, Property::RecordSize(i) => 12 <= i <= 20, _ => false } }
pub open spec fn show(p: Property) -> Seq<char> { match p { Property::Atime(b) => if b { "on"@ } else { "off"@ }, Property::BaseMountpoint(s) => s@, Property::Mountpoint(s) => s@, Property::Name(s) => s@, Property::RecordSize(i) => dec(rs_bytes(i as nat)) } }
pub proof fn lemma_split(s: Seq<char>) ensures 0 <= eq_at(s, '=') <= s.len() decreases s.len() { if s.len() > 0 && s[0] != '=' { lemma_split(s.subrange(1, s.len() as int)); } }
pub proof fn lemma_shl() ensures forall|i: u8| #![trigger (i as u32)] i < 31 ==> (1i32 << (i as u32)) == rs_bytes(i as nat) && (1i32 << (i as u32)) >= 0
{
    assert forall|i: u8| #![trigger (i as u32)] i < 31 implies (1i32 << (i as u32)) == rs_bytes(i as nat) && (1i32 << (i as u32)) >= 0 by {
        assert((1i32 << (i as u32)) as u64 == 1u64 << (i as u64) && (1i32 << (i as u32)) >= 0) by (bit_vector) requires i < 31;
        vstd::arithmetic::power2::lemma2_to64(); vstd::arithmetic::power2::lemma_pow2_strictly_increases(i as nat, 32);
        vstd::bits::lemma_u64_shl_is_mul(1, i as u64);
    }
}
pub proof fn lemma_dec(n: nat) ensures digits(dec(n)), value(dec(n)) == n, dec(n)[0] != '+' decreases n {
    if n < 10 { assert(dec(n).drop_last() =~= Seq::<char>::empty()); assert(value(dec(n).drop_last()) == 0); }
    else { lemma_dec(n / 10); assert(dec(n).drop_last() =~= dec(n / 10)); }
}
pub proof fn lemma_first(a: Seq<char>, b: Seq<char>) requires forall|i: int| 0 <= i < a.len() ==> a[i] != '='
    ensures head(a + seq!['='] + b, '=') == a, rest(a + seq!['='] + b, '=') == Some(b) decreases a.len()
{
    let s = a + seq!['='] + b;
    if a.len() == 0 { assert(eq_at(s, '=') == 0); assert(head(s, '=') =~= a); assert(s.subrange(1, s.len() as int) =~= b); }
    else {
        let t = a.subrange(1, a.len() as int);
        assert(s.subrange(1, s.len() as int) =~= t + seq!['='] + b);
        lemma_first(t, b);
        lemma_split(t + seq!['='] + b);
        let k = eq_at(t + seq!['='] + b, '=');
        assert(eq_at(s, '=') == 1 + k);
        assert(head(t + seq!['='] + b, '=').len() == k);
        assert(k == t.len());
        assert(head(s, '=') =~= a);
        assert(s.subrange(a.len() as int + 1, s.len() as int) =~= b);
    }
}
proof fn lemma_names() ensures forall|n: PropertyName| #[trigger] parse_name(show_name(n)) == Ok::<_, ParsePropertyNameError>(n),
    forall|n: PropertyName, i: int| 0 <= i < show_name(n).len() ==> #[trigger] show_name(n)[i] != '='
{
    reveal_strlit("atime"); reveal_strlit("basemountpoint"); reveal_strlit("mountpoint"); reveal_strlit("name"); reveal_strlit("recordsize"); reveal_strlit("recsize"); reveal_strlit("true"); reveal_strlit("on"); reveal_strlit("false"); reveal_strlit("off"); reveal_strlit("default"); reveal_strlit("local"); reveal_strlit("none"); reveal_strlit("inherited");
    assert("atime"@ =~= seq!['a','t','i','m','e']);
    assert("basemountpoint"@ =~= seq!['b','a','s','e','m','o','u','n','t','p','o','i','n','t']);
    assert("mountpoint"@ =~= seq!['m','o','u','n','t','p','o','i','n','t']);
    assert("name"@ =~= seq!['n','a','m','e']);
    assert("recordsize"@ =~= seq!['r','e','c','o','r','d','s','i','z','e']);
    assert("atime"@[0] == 'a' && "basemountpoint"@[0] == 'b' && "mountpoint"@[0] == 'm' && "name"@[0] == 'n' && "recordsize"@[0] == 'r' && "recordsize"@.len() == 10);
}
// ---- the property
/// whatever can be set and displayed parses back to itself
proof fn prop_t01_round_trip(p: Property) requires settable(p)
    ensures displayable(p), match (p, parse_prop(show_name(name_of(p)) + seq!['='] + show(p))) {
        (Property::Atime(b), Ok(P::Atime(c))) => b == c, (Property::Mountpoint(m), Ok(P::Mount(c))) => m@ == c, (Property::RecordSize(i), Ok(P::Rs(c))) => i == c, _ => false }
{
    let n = name_of(p);
    lemma_names();
    lemma_first(show_name(n), show(p));
    reveal_strlit("atime"); reveal_strlit("basemountpoint"); reveal_strlit("mountpoint"); reveal_strlit("name"); reveal_strlit("recordsize"); reveal_strlit("recsize"); reveal_strlit("true"); reveal_strlit("on"); reveal_strlit("false"); reveal_strlit("off"); reveal_strlit("default"); reveal_strlit("local"); reveal_strlit("none"); reveal_strlit("inherited");
    assert("on"@[1] == 'n' && "on"@.len() == 2 && "off"@.len() == 3 && "true"@.len() == 4 && "false"@.len() == 5);
    assert("false"@[0] == 'f');
    if let Property::RecordSize(i) = p {
        vstd::arithmetic::power2::lemma2_to64();
        lemma_dec(rs_bytes(i as nat));
    }
}
/// every name, and every source keyword, parses back to its meaning
proof fn prop_t01_names(n: PropertyName, s: PropertySource)
    ensures parse_name(show_name(n)) == Ok::<_, ParsePropertyNameError>(n),
        parse_src(show_src(s)) == Ok::<_, ParsePropertySourceError>(match s { PropertySource::Set(i) => if i == 0 { s } else { PropertySource::Set(1) }, _ => s })
{
    lemma_names(); reveal_strlit("atime"); reveal_strlit("basemountpoint"); reveal_strlit("mountpoint"); reveal_strlit("name"); reveal_strlit("recordsize"); reveal_strlit("recsize"); reveal_strlit("true"); reveal_strlit("on"); reveal_strlit("false"); reveal_strlit("off"); reveal_strlit("default"); reveal_strlit("local"); reveal_strlit("none"); reveal_strlit("inherited");
    assert("none"@[0] == 'n' && "default"@[0] == 'd' && "local"@[0] == 'l' && "inherited"@[0] == 'i');
}
/// an alias means the same as its canonical form; read-only properties cannot be set
proof fn prop_t01_aliases(v: Seq<char>)
    ensures parse_prop("recsize"@ + seq!['='] + v) == parse_prop("recordsize"@ + seq!['='] + v),
        parse_prop("atime"@) == parse_prop("atime"@ + seq!['='] + "on"@), parse_prop("atime"@ + seq!['='] + "true"@) == parse_prop("atime"@ + seq!['='] + "on"@),
        parse_prop("atime"@ + seq!['='] + "false"@) == parse_prop("atime"@ + seq!['='] + "off"@),
        parse_prop("name"@ + seq!['='] + v) == Err::<P, E>(E::ReadOnly), parse_prop("basemountpoint"@ + seq!['='] + v) == Err::<P, E>(E::ReadOnly)
{
    lemma_names(); reveal_strlit("atime"); reveal_strlit("basemountpoint"); reveal_strlit("mountpoint"); reveal_strlit("name"); reveal_strlit("recordsize"); reveal_strlit("recsize"); reveal_strlit("true"); reveal_strlit("on"); reveal_strlit("false"); reveal_strlit("off"); reveal_strlit("default"); reveal_strlit("local"); reveal_strlit("none"); reveal_strlit("inherited");
    assert("recsize"@ =~= seq!['r','e','c','s','i','z','e']);
    assert forall|i: int| 0 <= i < "recsize"@.len() implies "recsize"@[i] != '=' by {}
    let na = show_name(PropertyName::Atime); let nn = show_name(PropertyName::Name); let nb = show_name(PropertyName::BaseMountpoint); let nr = show_name(PropertyName::RecordSize);
    lemma_first("recsize"@, v); lemma_first(nr, v); lemma_first(na, "on"@); lemma_first(na, "true"@); lemma_first(na, "false"@); lemma_first(na, "off"@); lemma_first(nn, v); lemma_first(nb, v);
    assert(parse_name("recsize"@) == Ok::<_, ParsePropertyNameError>(PropertyName::RecordSize)) by {
        assert("recsize"@[0] == 'r' && "atime"@[0] == 'a' && "basemountpoint"@[0] == 'b' && "mountpoint"@[0] == 'm' && "name"@[0] == 'n'); }
    lemma_none(na);
    assert("false"@[0] == 'f' && "false"@.len() == 5 && "on"@.len() == 2 && "true"@.len() == 4 && "off"@.len() == 3);
}
proof fn lemma_none(a: Seq<char>) requires forall|i: int| 0 <= i < a.len() ==> a[i] != '=' ensures eq_at(a, '=') == a.len(), head(a, '=') == a decreases a.len()
{ if a.len() > 0 { lemma_none(a.subrange(1, a.len() as int)); } assert(head(a, '=') =~= a); }
/// the literals of one match are pairwise different, so the order of its arms does not matter
pub proof fn lemma_lits() ensures "atime"@ != "basemountpoint"@, "atime"@ != "mountpoint"@, "atime"@ != "name"@, "atime"@ != "recordsize"@, "atime"@ != "recsize"@, "basemountpoint"@ != "mountpoint"@, "basemountpoint"@ != "name"@, "basemountpoint"@ != "recordsize"@, "basemountpoint"@ != "recsize"@, "mountpoint"@ != "name"@, "mountpoint"@ != "recordsize"@, "mountpoint"@ != "recsize"@, "name"@ != "recordsize"@, "name"@ != "recsize"@, "recordsize"@ != "recsize"@, "true"@ != "on"@, "true"@ != "false"@, "true"@ != "off"@, "on"@ != "false"@, "on"@ != "off"@, "false"@ != "off"@, "default"@ != "local"@, "default"@ != "none"@, "default"@ != "inherited"@, "local"@ != "none"@, "local"@ != "inherited"@, "none"@ != "inherited"@
{
    reveal_strlit("atime"); reveal_strlit("basemountpoint"); reveal_strlit("mountpoint"); reveal_strlit("name"); reveal_strlit("recordsize"); reveal_strlit("recsize"); reveal_strlit("true"); reveal_strlit("on"); reveal_strlit("false"); reveal_strlit("off"); reveal_strlit("default"); reveal_strlit("local"); reveal_strlit("none"); reveal_strlit("inherited");
    assert("atime"@.len() == 5); assert("atime"@[0] == 'a'); assert("atime"@[1] == 't'); assert("atime"@[2] == 'i'); assert("atime"@[3] == 'm'); assert("atime"@[4] == 'e');
    assert("basemountpoint"@.len() == 14); assert("basemountpoint"@[0] == 'b'); assert("basemountpoint"@[1] == 'a'); assert("basemountpoint"@[2] == 's'); assert("basemountpoint"@[3] == 'e'); assert("basemountpoint"@[4] == 'm'); assert("basemountpoint"@[5] == 'o'); assert("basemountpoint"@[6] == 'u'); assert("basemountpoint"@[7] == 'n'); assert("basemountpoint"@[8] == 't'); assert("basemountpoint"@[9] == 'p'); assert("basemountpoint"@[10] == 'o'); assert("basemountpoint"@[11] == 'i'); assert("basemountpoint"@[12] == 'n'); assert("basemountpoint"@[13] == 't');
    assert("mountpoint"@.len() == 10); assert("mountpoint"@[0] == 'm'); assert("mountpoint"@[1] == 'o'); assert("mountpoint"@[2] == 'u'); assert("mountpoint"@[3] == 'n'); assert("mountpoint"@[4] == 't'); assert("mountpoint"@[5] == 'p'); assert("mountpoint"@[6] == 'o'); assert("mountpoint"@[7] == 'i'); assert("mountpoint"@[8] == 'n'); assert("mountpoint"@[9] == 't');
    assert("name"@.len() == 4); assert("name"@[0] == 'n'); assert("name"@[1] == 'a'); assert("name"@[2] == 'm'); assert("name"@[3] == 'e');
    assert("recordsize"@.len() == 10); assert("recordsize"@[0] == 'r'); assert("recordsize"@[1] == 'e'); assert("recordsize"@[2] == 'c'); assert("recordsize"@[3] == 'o'); assert("recordsize"@[4] == 'r'); assert("recordsize"@[5] == 'd'); assert("recordsize"@[6] == 's'); assert("recordsize"@[7] == 'i'); assert("recordsize"@[8] == 'z'); assert("recordsize"@[9] == 'e');
    assert("recsize"@.len() == 7); assert("recsize"@[0] == 'r'); assert("recsize"@[1] == 'e'); assert("recsize"@[2] == 'c'); assert("recsize"@[3] == 's'); assert("recsize"@[4] == 'i'); assert("recsize"@[5] == 'z'); assert("recsize"@[6] == 'e');
    assert("true"@.len() == 4); assert("true"@[0] == 't'); assert("true"@[1] == 'r'); assert("true"@[2] == 'u'); assert("true"@[3] == 'e');
    assert("on"@.len() == 2); assert("on"@[0] == 'o'); assert("on"@[1] == 'n');
    assert("false"@.len() == 5); assert("false"@[0] == 'f'); assert("false"@[1] == 'a'); assert("false"@[2] == 'l'); assert("false"@[3] == 's'); assert("false"@[4] == 'e');
    assert("off"@.len() == 3); assert("off"@[0] == 'o'); assert("off"@[1] == 'f'); assert("off"@[2] == 'f');
    assert("default"@.len() == 7); assert("default"@[0] == 'd'); assert("default"@[1] == 'e'); assert("default"@[2] == 'f'); assert("default"@[3] == 'a'); assert("default"@[4] == 'u'); assert("default"@[5] == 'l'); assert("default"@[6] == 't');
    assert("local"@.len() == 5); assert("local"@[0] == 'l'); assert("local"@[1] == 'o'); assert("local"@[2] == 'c'); assert("local"@[3] == 'a'); assert("local"@[4] == 'l');
    assert("none"@.len() == 4); assert("none"@[0] == 'n'); assert("none"@[1] == 'o'); assert("none"@[2] == 'n'); assert("none"@[3] == 'e');
    assert("inherited"@.len() == 9); assert("inherited"@[0] == 'i'); assert("inherited"@[1] == 'n'); assert("inherited"@[2] == 'h'); assert("inherited"@[3] == 'e'); assert("inherited"@[4] == 'r'); assert("inherited"@[5] == 'i'); assert("inherited"@[6] == 't'); assert("inherited"@[7] == 'e'); assert("inherited"@[8] == 'd');
}
