pub mod iter_axioms {
    use vstd::prelude::*;
    use vstd::std_specs::iter::*;
    /// TRUSTED: when a mutable slice iterator ends, the elements it has not handed out keep their values.
    pub broadcast axiom fn axiom_iter_mut_has_resolved<'a, T>(it: std::slice::IterMut<'a, T>, i: int)
        requires
            0 <= i < IteratorSpec::remaining(&it).len(),
            has_resolved(it),
        ensures
            #[trigger] has_resolved(IteratorSpec::remaining(&it)[i]);
}
broadcast use {vstd::group_vstd_default, iter_axioms::axiom_iter_mut_has_resolved};

/// `Iterator::take` of a borrowed iterator, with the body std gives it.
pub struct VTake<'a, I> { pub it: &'a mut I, pub n: usize }
fn vs_take<'a, I: Iterator>(it: &'a mut I, n: usize) -> (r: VTake<'a, I>)
    ensures *r.it == *old(it), *final(it) == *final(r.it), r.n == n,
{ VTake { it, n } }
impl<'a, I: Iterator> VTake<'a, I> {
    fn next(&mut self) -> (r: Option<I::Item>)
        requires IteratorSpec::obeys_prophetic_iter_laws(&*old(self).it),
        ensures
            IteratorSpec::obeys_prophetic_iter_laws(&*final(self).it),
            *final(final(self).it) == *final(old(self).it),
            old(self).n == 0 || IteratorSpec::remaining(&*old(self).it).len() == 0 ==> r is None && IteratorSpec::remaining(&*final(self).it) == IteratorSpec::remaining(&*old(self).it),
            old(self).n > 0 && IteratorSpec::remaining(&*old(self).it).len() > 0 ==> {
                &&& r == Some(IteratorSpec::remaining(&*old(self).it)[0])
                &&& final(self).n == old(self).n - 1
                &&& IteratorSpec::remaining(&*final(self).it) == IteratorSpec::remaining(&*old(self).it).drop_first()
            },
    {
        if self.n != 0 {
            self.n -= 1;
            self.it.next()
        } else {
            None
        }
    }
}

// ---- std adaptors over slices: evaluated eagerly, which a pure closure cannot tell
#[verifier::prophetic]
spec fn map_post<A, U, F: Fn(A) -> U>(s: Seq<A>, f: F, r: Seq<U>) -> bool {
    &&& r.len() == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> f.ensures((s[i],), #[trigger] r[i])
}
#[verifier::exec_allows_no_decreases_clause]
fn vs_map<A, I: Iterator<Item = A>, U, F: Fn(A) -> U>(it: I, f: F) -> (r: std::vec::IntoIter<U>)
    requires
        IteratorSpec::obeys_prophetic_iter_laws(&it),
        forall|i: int| 0 <= i < IteratorSpec::remaining(&it).len() ==> f.requires((#[trigger] IteratorSpec::remaining(&it)[i],)),
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::decrease(&r) is Some,
        map_post(IteratorSpec::remaining(&it), f, IteratorSpec::remaining(&r)),
{
    let mut v: Vec<U> = Vec::new();
    let ghost s = IteratorSpec::remaining(&it);
    let mut it = it;
    let ghost mut k: int = 0;
    loop
        invariant
            0 <= k <= s.len(),
            IteratorSpec::obeys_prophetic_iter_laws(&it),
            IteratorSpec::remaining(&it) == s.skip(k),
            v@.len() == k,
            forall|i: int| 0 <= i < s.len() ==> f.requires((#[trigger] s[i],)),
            forall|i: int| 0 <= i < k ==> f.ensures((s[i],), #[trigger] v@[i]),
        ensures k == s.len(),
    {
        match it.next() {
            None => break,
            Some(x) => {
                proof { assert(x == s[k]); assert(s.skip(k).drop_first() =~= s.skip(k + 1)); }
                let y = f(x);
                v.push(y);
                proof { k = k + 1; }
            },
        }
    }
    v.into_iter()
}
spec fn somes<U>(o: Seq<Option<U>>) -> Seq<U>
    decreases o.len(),
{
    if o.len() == 0 { Seq::empty() } else {
        match o.last() { Some(x) => somes(o.drop_last()).push(x), None => somes(o.drop_last()) }
    }
}
#[verifier::prophetic]
spec fn filter_map_with<A, U, F: Fn(A) -> Option<U>>(s: Seq<A>, f: F, r: Seq<U>, o: Seq<Option<U>>) -> bool {
    &&& o.len() == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> f.ensures((s[i],), #[trigger] o[i])
    &&& r == somes(o)
}
#[verifier::prophetic]
spec fn filter_map_post<A, U, F: Fn(A) -> Option<U>>(s: Seq<A>, f: F, r: Seq<U>) -> bool {
    exists|o: Seq<Option<U>>| #[trigger] filter_map_with(s, f, r, o)
}
#[verifier::exec_allows_no_decreases_clause]
fn vs_filter_map<A, I: Iterator<Item = A>, U, F: Fn(A) -> Option<U>>(it: I, f: F) -> (r: std::vec::IntoIter<U>)
    requires
        IteratorSpec::obeys_prophetic_iter_laws(&it),
        forall|i: int| 0 <= i < IteratorSpec::remaining(&it).len() ==> f.requires((#[trigger] IteratorSpec::remaining(&it)[i],)),
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::decrease(&r) is Some,
        filter_map_post(IteratorSpec::remaining(&it), f, IteratorSpec::remaining(&r)),
{
    let mut v: Vec<U> = Vec::new();
    let ghost s = IteratorSpec::remaining(&it);
    let mut it = it;
    let ghost mut o: Seq<Option<U>> = Seq::empty();
    loop
        invariant
            0 <= o.len() <= s.len(),
            IteratorSpec::obeys_prophetic_iter_laws(&it),
            IteratorSpec::remaining(&it) == s.skip(o.len() as int),
            v@ == somes(o),
            forall|i: int| 0 <= i < s.len() ==> f.requires((#[trigger] s[i],)),
            forall|i: int| 0 <= i < o.len() ==> f.ensures((s[i],), #[trigger] o[i]),
        ensures o.len() == s.len(),
    {
        match it.next() {
            None => break,
            Some(x) => {
                let ghost k = o.len() as int;
                proof { assert(x == s[k]); assert(s.skip(k).drop_first() =~= s.skip(k + 1)); }
                let y = f(x);
                let ghost o0 = o;
                proof { o = o.push(y); assert(o.drop_last() =~= o0); }
                if let Some(u) = y { v.push(u); }
            },
        }
    }
    let r = v.into_iter();
    assert(filter_map_with(s, f, v@, o));
    r
}
fn vs_collect<U>(it: std::vec::IntoIter<U>) -> (r: Vec<U>)
    requires IteratorSpec::obeys_prophetic_iter_laws(&it), IteratorSpec::decrease(&it) is Some,
    ensures r@ == IteratorSpec::remaining(&it),
{
    let ghost s = IteratorSpec::remaining(&it);
    let mut v: Vec<U> = Vec::new();
    for x in y: it
        invariant v@ == s.take(y.index@), y.seq() == s,
    { proof { assert(s.take(y.index@).push(x) =~= s.take(y.index@ + 1)); } v.push(x); }
    proof { assert(s.take(s.len() as int) =~= s); }
    v
}
