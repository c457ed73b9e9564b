/// the items at a key
pub open spec fn items<T: HTItem>(w: World, k: FSKey) -> Seq<T> {
    match at(w, k) { None => seq![], Some(v) => match T::one(v) { Some(x) => seq![x], None => match T::many(v) { Some(b) => b@, None => seq![] } } }
}
pub open spec fn holds<T: HTItem>(w: World, k: FSKey, x: T) -> bool { items::<T>(w, k).contains(x) }
pub open spec fn found<T: HTItem>(w: World, k: FSKey, id: (int, OsString)) -> bool { exists|x: T| #[trigger] holds(w, k, x) && x.id() == id }
/// a key holds nothing, one item of its kind, or at least two with different identities
pub open spec fn good<T: HTItem>(w: World, k: FSKey) -> bool {
    (at(w, k) matches Some(v) ==> (T::one(v) is Some || T::many(v) is Some) && (T::one(v) is None ==> (T::many(v)->0)@.len() > 1)) && distinct(items::<T>(w, k))
}
pub open spec fn distinct<T: HTItem>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).id() != (#[trigger] s[j]).id() }
pub broadcast proof fn g_push<T>(s: Seq<T>, a: T, y: T) ensures #[trigger] s.push(a).contains(y) <==> s.contains(y) || y == a {
    if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(a)[i] == y); }
    assert(s.push(a)[s.len() as int] == a);
}
pub broadcast proof fn g_update<T: HTItem>(s: Seq<T>, i: int, x: T, y: T) requires 0 <= i < s.len(), distinct(s), x.id() == s[i].id()
    ensures #[trigger] s.update(i, x).contains(y) <==> y == x || s.contains(y) && y.id() != x.id() {
    let u = s.update(i, x); assert(u[i] == x);
    if s.contains(y) && y.id() != x.id() { let j = choose|j: int| 0 <= j < s.len() && s[j] == y; assert(u[j] == y); }
    if u.contains(y) && y != x { let j = choose|j: int| 0 <= j < u.len() && u[j] == y; assert(s[j] == y); assert(j != i); assert(s[j].id() != s[i].id()); }
}
pub broadcast proof fn g_swap<T: HTItem>(s: Seq<T>, i: int, y: T) requires 0 <= i < s.len(), distinct(s)
    ensures #[trigger] s.update(i, s.last()).drop_last().contains(y) <==> s.contains(y) && y.id() != s[i].id() {
    let u = s.update(i, s.last()).drop_last();
    if s.contains(y) && y.id() != s[i].id() { let j = choose|j: int| 0 <= j < s.len() && s[j] == y; if j < s.len() - 1 { assert(u[j] == y); } else { assert(u[i] == y); } }
    if u.contains(y) { let j = choose|j: int| 0 <= j < u.len() && u[j] == y; if j == i { assert(s[s.len() - 1] == y); assert(s[i].id() != s[s.len() - 1].id()); } else { assert(s[j] == y); assert(s[i].id() != s[j].id()); } }
}
