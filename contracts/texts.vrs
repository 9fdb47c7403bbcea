// ---- TRUSTED: what the methods of str of std do, on characters and their lengths in UTF-8
spec fn blen(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { blen(s.drop_last()) + utf8(s.last()) }
}
proof fn lemma_blen_add(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        lemma_blen_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
proof fn lemma_blen_take(s: Seq<char>, i: int, j: int)
    requires 0 <= i < j <= s.len(),
    ensures blen(s.take(i)) < blen(s.take(j)),
    decreases j,
{
    assert(s.take(j).drop_last() =~= s.take(j - 1));
    if i < j - 1 { lemma_blen_take(s, i, j - 1); }
}
/// A pattern which is a text of its own: how many characters it has, and where it occurs.
trait VsPat: Sized {
    spec fn width(self) -> int;
    spec fn bytes(self) -> nat;
    spec fn occurs(self, s: Seq<char>, k: int) -> bool;
}
impl VsPat for char {
    spec fn width(self) -> int { 1 }
    spec fn bytes(self) -> nat { utf8(self) }
    spec fn occurs(self, s: Seq<char>, k: int) -> bool { 0 <= k < s.len() && s[k] == self }
}
impl<'a> VsPat for &'a str {
    spec fn width(self) -> int { self@.len() as int }
    spec fn bytes(self) -> nat { blen(self@) }
    spec fn occurs(self, s: Seq<char>, k: int) -> bool { 0 <= k && k + self@.len() <= s.len() && s.subrange(k, k + self@.len()) =~= self@ }
}
#[verifier::external_body]
fn vs_starts_with<P: VsPat>(s: &str, p: P) -> (r: bool)
    ensures r == p.occurs(s@, 0),
{ unimplemented!() }
#[verifier::external_body]
fn vs_strip_prefix<'a, P: VsPat>(s: &'a str, p: P) -> (r: Option<&'a str>)
    ensures
        r is Some <==> p.occurs(s@, 0),
        r is Some ==> r->Some_0@ == s@.skip(p.width()),
{ unimplemented!() }
#[verifier::external_body]
fn vs_strip_suffix<'a, P: VsPat>(s: &'a str, p: P) -> (r: Option<&'a str>)
    ensures
        r is Some <==> p.occurs(s@, s@.len() - p.width()),
        r is Some ==> r->Some_0@ == s@.take(s@.len() - p.width()),
{ unimplemented!() }
#[verifier::external_body]
fn vs_str_len(s: &str) -> (r: usize)
    ensures r == blen(s@), r <= isize::MAX,
{ unimplemented!() }
/// Characters up to index k take n bytes.
spec fn boundary(s: Seq<char>, n: int, k: int) -> bool { 0 <= k <= s.len() && blen(s.take(k)) == n }
#[verifier::external_body]
fn vs_str_get<'a>(s: &'a str, g: std::ops::RangeFrom<usize>) -> (r: Option<&'a str>)
    ensures
        r is Some ==> exists|k: int| #[trigger] boundary(s@, g.start as int, k) && r->Some_0@ == s@.skip(k),
        r is None ==> forall|n: int, k: int| n == g.start ==> !#[trigger] boundary(s@, n, k),
{ unimplemented!() }
#[verifier::external_body]
fn vs_find<P: VsPat>(s: &str, p: P) -> (r: Option<usize>)
    ensures
        r is Some ==> exists|k: int| #[trigger] boundary(s@, r->Some_0 as int, k) && p.occurs(s@, k) && forall|j: int| 0 <= j < k ==> !#[trigger] p.occurs(s@, j),
        r is Some ==> r->Some_0 + p.bytes() <= blen(s@) <= isize::MAX,
        r is None ==> forall|j: int| !#[trigger] p.occurs(s@, j),
{ unimplemented!() }
#[verifier::external_body]
fn vs_split_at<'a>(s: &'a str, n: usize) -> (r: (&'a str, &'a str))
    requires exists|k: int| #[trigger] boundary(s@, n as int, k),
    ensures exists|k: int| #[trigger] boundary(s@, n as int, k) && r.0@ == s@.take(k) && r.1@ == s@.skip(k),
{ unimplemented!() }
spec fn replaced(s: Seq<char>, from: char, to: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { replaced(s.drop_last(), from, to) + if s.last() == from { to } else { seq![s.last()] } }
}
#[verifier::external_body]
fn vs_replace(s: &str, from: char, to: &str) -> (r: String)
    ensures r@ == replaced(s@, from, to@),
{ unimplemented!() }
#[verifier::external_body]
fn vs_to_string(s: &str) -> (r: String)
    ensures r@ == s@,
{ s.to_string() }
#[verifier::external_body]
fn vs_string_from(s: &str) -> (r: String)
    ensures r@ == s@,
{ s.to_string() }
// ---- TRUSTED: `format!` with texts is those texts joined
trait VsText { spec fn chars(&self) -> Seq<char>; }
impl VsText for String { spec fn chars(&self) -> Seq<char> { self@ } }
impl<'a> VsText for &'a str { spec fn chars(&self) -> Seq<char> { (*self)@ } }
#[verifier::external_body]
fn vs_literal(s: &str) -> (r: String)
    ensures r@ == s@,
{ s.to_string() }
#[verifier::external_body]
fn vs_join<T: VsText>(a: String, b: &T) -> (r: String)
    ensures r@ == a@ + b.chars(),
{ unimplemented!() }
// ---- of std, with the bodies it gives them
fn vs_and_then<A, B, F: FnOnce(A) -> Option<B>>(o: Option<A>, f: F) -> (r: Option<B>)
    requires o is Some ==> f.requires((o->Some_0,)),
    ensures
        o is None ==> r is None,
        o is Some ==> f.ensures((o->Some_0,), r),
{ match o { Some(x) => f(x), None => None } }
fn vs_ok_or_else<A, E, F: FnOnce() -> E>(o: Option<A>, f: F) -> (r: Result<A, E>)
    requires o is None ==> f.requires(()),
    ensures
        o is Some ==> r == Ok::<A, E>(o->Some_0),
        o is None ==> r is Err && f.ensures((), r->Err_0),
{ match o { Some(x) => Ok(x), None => Err(f()) } }
fn vs_map_or<A, B, F: FnOnce(A) -> B>(o: Option<A>, d: B, f: F) -> (r: B)
    requires o is Some ==> f.requires((o->Some_0,)),
    ensures
        o is None ==> r == d,
        o is Some ==> f.ensures((o->Some_0,), r),
{ match o { Some(x) => f(x), None => d } }
fn vs_result_map<A, B, E, F: FnOnce(A) -> B>(o: Result<A, E>, f: F) -> (r: Result<B, E>)
    requires o is Ok ==> f.requires((o->Ok_0,)),
    ensures
        o is Err ==> r == Err::<B, E>(o->Err_0),
        o is Ok ==> r is Ok && f.ensures((o->Ok_0,), r->Ok_0),
{ match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
