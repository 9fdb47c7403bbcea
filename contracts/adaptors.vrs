/// `Iterator::zip`
#[verifier::exec_allows_no_decreases_clause]
fn vs_zip<A, I: Iterator<Item = A>, B, J: Iterator<Item = B>>(it: I, jt: J) -> (r: std::vec::IntoIter<(A, B)>)
    requires
        IteratorSpec::obeys_prophetic_iter_laws(&it),
        IteratorSpec::obeys_prophetic_iter_laws(&jt),
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::decrease(&r) is Some,
        IteratorSpec::remaining(&r).len() == if IteratorSpec::remaining(&it).len() <= IteratorSpec::remaining(&jt).len() { IteratorSpec::remaining(&it).len() } else { IteratorSpec::remaining(&jt).len() },
        forall|i: int| 0 <= i < IteratorSpec::remaining(&r).len() ==> #[trigger] IteratorSpec::remaining(&r)[i] == (IteratorSpec::remaining(&it)[i], IteratorSpec::remaining(&jt)[i]),
{
    let mut v: Vec<(A, B)> = Vec::new();
    let ghost s = IteratorSpec::remaining(&it);
    let ghost t = IteratorSpec::remaining(&jt);
    let mut it = it;
    let mut jt = jt;
    let ghost mut k: int = 0;
    proof { assert(s.skip(0) =~= s); assert(t.skip(0) =~= t); }
    loop
        invariant_except_break
            IteratorSpec::obeys_prophetic_iter_laws(&it),
            IteratorSpec::obeys_prophetic_iter_laws(&jt),
            IteratorSpec::remaining(&it) == s.skip(k),
            IteratorSpec::remaining(&jt) == t.skip(k),
        invariant
            0 <= k <= s.len(),
            k <= t.len(),
            v@.len() == k,
            forall|i: int| 0 <= i < k ==> #[trigger] v@[i] == (s[i], t[i]),
        ensures k == if s.len() <= t.len() { s.len() } else { t.len() },
    {
        match it.next() {
            None => break,
            Some(x) => {
                match jt.next() {
                    None => break,
                    Some(y) => {
                        proof { assert(s.skip(k).drop_first() =~= s.skip(k + 1)); assert(t.skip(k).drop_first() =~= t.skip(k + 1)); }
                        v.push((x, y));
                        proof { k = k + 1; }
                    },
                }
            },
        }
    }
    v.into_iter()
}
/// `Iterator::min`
#[verifier::exec_allows_no_decreases_clause]
fn vs_min_usize<I: Iterator<Item = usize>>(it: I) -> (r: Option<usize>)
    requires IteratorSpec::obeys_prophetic_iter_laws(&it),
    ensures
        r is None <==> IteratorSpec::remaining(&it).len() == 0,
        r is Some ==> IteratorSpec::remaining(&it).contains(r->Some_0),
        forall|i: int| 0 <= i < IteratorSpec::remaining(&it).len() ==> r->Some_0 <= #[trigger] IteratorSpec::remaining(&it)[i],
{
    let mut it = it;
    let ghost s = IteratorSpec::remaining(&it);
    let ghost mut k: int = 0;
    let mut r: Option<usize> = None;
    proof { assert(s.skip(0) =~= s); }
    loop
        invariant
            IteratorSpec::obeys_prophetic_iter_laws(&it),
            0 <= k <= s.len(),
            IteratorSpec::remaining(&it) == s.skip(k),
            r is None <==> k == 0,
            r is Some ==> s.contains(r->Some_0),
            forall|i: int| 0 <= i < k ==> r->Some_0 <= #[trigger] s[i],
        ensures k == s.len(),
    {
        match it.next() {
            None => break,
            Some(x) => {
                proof { assert(x == s[k]); assert(s.skip(k).drop_first() =~= s.skip(k + 1)); }
                r = match r { None => Some(x), Some(y) => if x < y { Some(x) } else { Some(y) } };
                proof { k = k + 1; }
            },
        }
    }
    r
}
proof fn lemma_somes_all<U>(o: Seq<Option<U>>)
    ensures
        forall|i: int| 0 <= i < o.len() && #[trigger] o[i] is Some ==> somes(o).contains(o[i]->Some_0),
        forall|x: U| #[trigger] somes(o).contains(x) ==> exists|i: int| 0 <= i < o.len() && #[trigger] o[i] == Some(x),
    decreases o.len(),
{
    if o.len() > 0 {
        let p = o.drop_last();
        lemma_somes_all(p);
        let l = o.len() - 1;
        assert forall|i: int| 0 <= i < o.len() && #[trigger] o[i] is Some implies somes(o).contains(o[i]->Some_0) by {
            if i < l {
                assert(p[i] == o[i]);
                let j = choose|j: int| 0 <= j < somes(p).len() && somes(p)[j] == o[i]->Some_0;
                assert(somes(o)[j] == o[i]->Some_0);
            } else {
                assert(somes(o).last() == o[i]->Some_0);
            }
        }
        assert forall|x: U| #[trigger] somes(o).contains(x) implies exists|i: int| 0 <= i < o.len() && #[trigger] o[i] == Some(x) by {
            let j = choose|j: int| 0 <= j < somes(o).len() && somes(o)[j] == x;
            if j < somes(p).len() {
                assert(somes(p)[j] == x);
                assert(somes(p).contains(x));
                let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == Some(x);
                assert(o[i] == Some(x));
            } else {
                assert(o[l] == Some(x));
            }
        }
    }
}
/// `slice::to_vec` of plain data
fn vs_to_vec<T: Copy>(s: &[T]) -> (r: Vec<T>)
    ensures r@ == s@,
{
    let mut v: Vec<T> = Vec::new();
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), v@ =~= s@.take(i as int),
        decreases s@.len() - i,
    {
        v.push(s[i]);
        i = i + 1;
    }
    v
}
/// `Iterator::enumerate`
#[verifier::exec_allows_no_decreases_clause]
fn vs_enumerate<A, I: Iterator<Item = A>>(it: I) -> (r: std::vec::IntoIter<(usize, A)>)
    requires
        IteratorSpec::obeys_prophetic_iter_laws(&it),
        IteratorSpec::remaining(&it).len() <= usize::MAX,
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::decrease(&r) is Some,
        IteratorSpec::remaining(&r).len() == IteratorSpec::remaining(&it).len(),
        forall|i: int| 0 <= i < IteratorSpec::remaining(&r).len() ==> #[trigger] IteratorSpec::remaining(&r)[i] == (i as usize, IteratorSpec::remaining(&it)[i]),
{
    let mut v: Vec<(usize, A)> = Vec::new();
    let ghost s = IteratorSpec::remaining(&it);
    let mut it = it;
    let mut k: usize = 0;
    proof { assert(s.skip(0) =~= s); }
    loop
        invariant_except_break
            IteratorSpec::obeys_prophetic_iter_laws(&it),
            IteratorSpec::remaining(&it) == s.skip(k as int),
        invariant
            k <= s.len() <= usize::MAX,
            v@.len() == k,
            forall|i: int| 0 <= i < k ==> #[trigger] v@[i] == (i as usize, s[i]),
        ensures k == s.len(),
    {
        match it.next() {
            None => break,
            Some(x) => {
                proof { assert(s.skip(k as int).drop_first() =~= s.skip(k + 1)); }
                v.push((k, x));
                k = k + 1;
            },
        }
    }
    v.into_iter()
}
/// The k-th of the mutable references is the first one the closure takes; the others are given back.
#[verifier::prophetic]
spec fn found_at<'a, A, F: Fn(&&'a mut A) -> bool>(s: Seq<&'a mut A>, f: F, r: &'a mut A, k: int) -> bool {
    &&& 0 <= k < s.len()
    &&& r == s[k]
    &&& f.ensures((&s[k],), true)
    &&& forall|i: int| 0 <= i < k ==> f.ensures((&#[trigger] s[i],), false)
    &&& forall|i: int| 0 <= i < s.len() && i != k ==> has_resolved(#[trigger] s[i])
}
#[verifier::prophetic]
spec fn found_none<'a, A, F: Fn(&&'a mut A) -> bool>(s: Seq<&'a mut A>, f: F) -> bool {
    forall|i: int| 0 <= i < s.len() ==> f.ensures((&#[trigger] s[i],), false) && has_resolved(s[i])
}
/// `Iterator::find` over mutable references
#[verifier::exec_allows_no_decreases_clause]
fn vs_find_mut<'a, A, F: Fn(&&'a mut A) -> bool>(it: std::slice::IterMut<'a, A>, f: F) -> (r: Option<&'a mut A>)
    requires
        IteratorSpec::obeys_prophetic_iter_laws(&it),
        forall|i: int| 0 <= i < IteratorSpec::remaining(&it).len() ==> f.requires((&#[trigger] IteratorSpec::remaining(&it)[i],)),
    ensures match r {
        None => found_none(IteratorSpec::remaining(&it), f),
        Some(x) => exists|k: int| #[trigger] found_at(IteratorSpec::remaining(&it), f, x, k),
    },
{
    let ghost s = IteratorSpec::remaining(&it);
    let mut jt = it;
    let ghost mut k: int = 0;
    let mut r: Option<&'a mut A> = None;
    proof { assert(s.skip(0) =~= s); }
    loop
        invariant_except_break
            r is None,
            IteratorSpec::remaining(&jt) == s.skip(k),
        invariant
            IteratorSpec::obeys_prophetic_iter_laws(&jt),
            s == IteratorSpec::remaining(&it),
            0 <= k <= s.len(),
            forall|i: int| 0 <= i < s.len() ==> f.requires((&#[trigger] s[i],)),
            forall|i: int| 0 <= i < k ==> f.ensures((&#[trigger] s[i],), false) && has_resolved(s[i]),
        ensures match r { None => k == s.len(), Some(x) => found_at(s, f, x, k) },
    {
        match jt.next() {
            None => break,
            Some(x) => {
                proof { assert(x == s[k]); assert(s.skip(k).drop_first() =~= s.skip(k + 1)); }
                let ghost rest = IteratorSpec::remaining(&jt);
                if f(&x) {
                    proof {
                        assert(forall|i: int| 0 <= i < rest.len() ==> has_resolved(#[trigger] rest[i]));
                        assert forall|i: int| k < i < s.len() implies has_resolved(#[trigger] s[i]) by { assert(rest[i - k - 1] == s[i]); }
                        assert(found_at(s, f, x, k));
                    }
                    let found = Some(x);
                    r = found;
                    break;
                }
                proof { k = k + 1; }
            },
        }
    }
    r
}
fn vs_slice<T>(s: &[T]) -> (r: &[T])
    ensures r@ == s@,
{ s }
