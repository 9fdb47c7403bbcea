spec fn has_object(ix: Index, p: Seq<char>) -> bool { exists|s: String| ix.objects@.contains_key(s) && #[trigger] s@ == p }
/// A text of these characters is among the items.
spec fn among(s: Seq<&str>, p: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == p }
spec fn among_strings(s: Seq<&String>, p: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == p }
proof fn lemma_keys<V>(m: Map<String, V>, ks: Seq<&String>)
    requires
        ks.unref().to_set() == m.dom(),
    ensures
        forall|i: int| 0 <= i < ks.len() ==> m.contains_key(*#[trigger] ks[i]),
        forall|s: String| #[trigger] m.contains_key(s) ==> exists|i: int| 0 <= i < ks.len() && *(#[trigger] ks[i]) == s,
{
    let u = ks.unref();
    assert forall|i: int| 0 <= i < ks.len() implies m.contains_key(*#[trigger] ks[i]) by { assert(u[i] == *ks[i]); assert(u.to_set().contains(u[i])); }
    assert forall|s: String| #[trigger] m.contains_key(s) implies exists|i: int| 0 <= i < ks.len() && *(#[trigger] ks[i]) == s by {
        assert(u.to_set().contains(s));
        let i = choose|i: int| 0 <= i < u.len() && u[i] == s;
        assert(*ks[i] == s);
    }
}
/// `Iterator::map`, with what it gives for every item.
fn vs_map_each<A, I: Iterator<Item = A>, U, F: Fn(A) -> U>(it: I, f: F) -> (r: std::vec::IntoIter<U>)
    requires
        IteratorSpec::obeys_prophetic_iter_laws(&it),
        forall|i: int| 0 <= i < IteratorSpec::remaining(&it).len() ==> f.requires((#[trigger] IteratorSpec::remaining(&it)[i],)),
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::decrease(&r) is Some,
        IteratorSpec::remaining(&r).len() == IteratorSpec::remaining(&it).len(),
        forall|i: int| #![trigger IteratorSpec::remaining(&it)[i]] #![trigger IteratorSpec::remaining(&r)[i]] 0 <= i < IteratorSpec::remaining(&it).len() ==> f.ensures((IteratorSpec::remaining(&it)[i],), IteratorSpec::remaining(&r)[i]),
{ vs_map(it, f) }
// ---- the order of strings: by code points, which is the order of their bytes in UTF-8
spec fn lex(a: Seq<char>, b: Seq<char>) -> bool
    decreases a.len(),
{
    if a.len() == 0 { true } else if b.len() == 0 { false } else if (a[0] as u32) < (b[0] as u32) { true } else if (a[0] as u32) > (b[0] as u32) { false } else { lex(a.skip(1), b.skip(1)) }
}
spec fn begins(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) =~= p }
proof fn lemma_begins_lex(p: Seq<char>, s: Seq<char>)
    requires begins(p, s),
    ensures lex(p, s),
    decreases p.len(),
{
    if p.len() > 0 {
        assert(s.take(p.len() as int)[0] == s[0]);
        assert(s.skip(1).take(p.len() - 1) =~= s.take(p.len() as int).skip(1));
        lemma_begins_lex(p.skip(1), s.skip(1));
    }
}
/// What lies between a text and one which begins with it begins with it as well.
proof fn lemma_between(p: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires lex(p, a), lex(a, b), begins(p, b),
    ensures begins(p, a),
    decreases p.len(),
{
    if p.len() > 0 {
        assert(b.take(p.len() as int)[0] == b[0]);
        assert(b.skip(1).take(p.len() - 1) =~= b.take(p.len() as int).skip(1));
        lemma_between(p.skip(1), a.skip(1), b.skip(1));
        let t = a.take(p.len() as int);
        assert forall|i: int| 0 <= i < p.len() implies #[trigger] t[i] == p[i] by {
            if i > 0 {
                assert(a.skip(1).take(p.len() - 1)[i - 1] == a[i]);
                assert(p.skip(1)[i - 1] == p[i]);
            }
        }
    } else { assert(a.take(0) =~= p); }
}
spec fn range_from(b: (Bound<String>, Bound<String>)) -> String { match b.0 { Bound::Included(s) => s, _ => arbitrary() } }
/// TRUSTED: the range of a map from a key on gives the entries from that key on, each once, in order.
#[verifier::external_body]
fn vs_range<'a, V>(m: &'a BTreeMap<String, V>, b: (Bound<String>, Bound<String>)) -> (r: std::vec::IntoIter<(&'a String, &'a V)>)
    requires matches!(b, (Bound::Included(_), Bound::Unbounded)),
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::decrease(&r) is Some,
        forall|i: int| 0 <= i < IteratorSpec::remaining(&r).len() ==> m@.contains_key(*(#[trigger] IteratorSpec::remaining(&r)[i]).0) && lex(range_from(b)@, IteratorSpec::remaining(&r)[i].0@),
        forall|s: String| #[trigger] m@.contains_key(s) && lex(range_from(b)@, s@) ==> exists|i: int| 0 <= i < IteratorSpec::remaining(&r).len() && *(#[trigger] IteratorSpec::remaining(&r)[i]).0 == s,
        forall|i: int, j: int| 0 <= i < j < IteratorSpec::remaining(&r).len() ==> lex((#[trigger] IteratorSpec::remaining(&r)[i]).0@, (#[trigger] IteratorSpec::remaining(&r)[j]).0@) && IteratorSpec::remaining(&r)[i].0@ != IteratorSpec::remaining(&r)[j].0@,
{ unimplemented!() }
#[verifier::prophetic]
spec fn taken<A, F: Fn(&A) -> bool>(s: Seq<A>, f: F, r: Seq<A>, k: int) -> bool {
    &&& 0 <= k <= s.len()
    &&& r.len() == k
    &&& forall|i: int| #![trigger s[i]] #![trigger r[i]] 0 <= i < k ==> r[i] == s[i] && f.ensures((&s[i],), true)
    &&& k < s.len() ==> f.ensures((&s[k],), false)
}
/// `Iterator::take_while`
#[verifier::exec_allows_no_decreases_clause]
fn vs_take_while<A, I: Iterator<Item = A>, F: Fn(&A) -> bool>(it: I, f: F) -> (r: std::vec::IntoIter<A>)
    requires
        IteratorSpec::obeys_prophetic_iter_laws(&it),
        forall|i: int| 0 <= i < IteratorSpec::remaining(&it).len() ==> f.requires((&#[trigger] IteratorSpec::remaining(&it)[i],)),
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::decrease(&r) is Some,
        exists|k: int| #[trigger] taken(IteratorSpec::remaining(&it), f, IteratorSpec::remaining(&r), k),
{
    let ghost s = IteratorSpec::remaining(&it);
    let mut jt = it;
    let mut v: Vec<A> = Vec::new();
    let ghost mut k: int = 0;
    proof { assert(s.skip(0) =~= s); }
    loop
        invariant_except_break
            IteratorSpec::remaining(&jt) == s.skip(k),
        invariant
            IteratorSpec::obeys_prophetic_iter_laws(&jt),
            s == IteratorSpec::remaining(&it),
            0 <= k <= s.len(),
            v@.len() == k,
            forall|i: int| 0 <= i < s.len() ==> f.requires((&#[trigger] s[i],)),
            forall|i: int| #![trigger s[i]] #![trigger v@[i]] 0 <= i < k ==> v@[i] == s[i] && f.ensures((&s[i],), true),
        ensures k < s.len() ==> f.ensures((&s[k],), false),
    {
        match jt.next() {
            None => break,
            Some(x) => {
                proof { assert(x == s[k]); assert(s.skip(k).drop_first() =~= s.skip(k + 1)); }
                if !f(&x) { break; }
                v.push(x);
                proof { k = k + 1; }
            },
        }
    }
    let r = v.into_iter();
    assert(taken(s, f, v@, k));
    r
}
/// Texts in order, from one on: those which begin with it come first.
proof fn lemma_run(p: Seq<char>, t: Seq<&str>)
    requires
        forall|i: int| 0 <= i < t.len() ==> lex(p, (#[trigger] t[i])@),
        forall|i: int, j: int| 0 <= i < j < t.len() ==> lex((#[trigger] t[i])@, (#[trigger] t[j])@),
    ensures
        forall|i: int, j: int| 0 <= i < j < t.len() && begins(p, (#[trigger] t[j])@) ==> begins(p, (#[trigger] t[i])@),
{
    assert forall|i: int, j: int| 0 <= i < j < t.len() && begins(p, (#[trigger] t[j])@) implies begins(p, (#[trigger] t[i])@) by { lemma_between(p, t[i]@, t[j]@); }
}
/// The group an object path names.
spec fn group_in(p: Seq<char>) -> Option<Seq<char>> { match parsed(p) { Some(x) => x.0, None => None } }
spec fn group_known(ix: Index, g: Seq<char>) -> bool { exists|p: Seq<char>| #[trigger] has_object(ix, p) && group_in(p) == Some(g) }
pub mod str_axioms {
    use vstd::prelude::*;
    use vstd::std_specs::btree::*;
    /// TRUSTED: strs are totally ordered, and strs of the same characters are equal.
    pub broadcast axiom fn axiom_str_items<'a>()
        ensures #[trigger] key_obeys_cmp_spec::<&'a str>();
    pub broadcast axiom fn axiom_str_eq<'a>(a: &'a str, b: &'a str)
        requires #[trigger] a@ == #[trigger] b@,
        ensures a == b;
}
/// TRUSTED: a set gives its items, each once.
#[verifier::external_body]
fn vs_set_items<'a>(s: BTreeSet<&'a str>) -> (r: std::vec::IntoIter<&'a str>)
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::decrease(&r) is Some,
        IteratorSpec::remaining(&r).no_duplicates(),
        forall|i: int| 0 <= i < IteratorSpec::remaining(&r).len() ==> s@.contains(#[trigger] IteratorSpec::remaining(&r)[i]),
        forall|x: &'a str| #[trigger] s@.contains(x) ==> exists|i: int| 0 <= i < IteratorSpec::remaining(&r).len() && #[trigger] IteratorSpec::remaining(&r)[i] == x,
{ unimplemented!() }
/// The group of an object is among these.
spec fn group_added(s: Set<&str>, p: Seq<char>) -> bool { match group_in(p) { Some(g) => exists|x: &str| #[trigger] s.contains(x) && x@ == g, None => true } }
proof fn lemma_groups_complete(ix: Index, ps: Seq<&str>, gs: Set<&str>)
    requires
        forall|p: Seq<char>| #[trigger] has_object(ix, p) ==> among(ps, p),
        forall|i: int| 0 <= i < ps.len() ==> group_added(gs, (#[trigger] ps[i])@),
    ensures
        forall|g: Seq<char>| #[trigger] group_known(ix, g) ==> exists|x: &str| #[trigger] gs.contains(x) && x@ == g,
{
    assert forall|g: Seq<char>| #[trigger] group_known(ix, g) implies exists|x: &str| #[trigger] gs.contains(x) && x@ == g by {
        let p = choose|p: Seq<char>| #[trigger] has_object(ix, p) && group_in(p) == Some(g);
        let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i])@ == p;
        assert(group_added(gs, ps[i]@));
    }
}
/// The path of the text of this path is in the group, when there is one.
spec fn wanted(gp: Seq<char>, p: Seq<char>) -> bool { levels(gp).len() == 0 || group_in(p) == Some(levels(gp)[0]) }
spec fn names_channel(p: Seq<char>) -> bool { parsed(p) is Some && parsed(p)->Some_0.1 is Some }
spec fn listed(ix: Index, gp: Seq<char>, p: Seq<char>) -> bool { has_object(ix, p) && begins(gp, p) && wanted(gp, p) && names_channel(p) }
/// TRUSTED: equality of optional texts is that of their characters.
#[verifier::external_body]
fn vs_same_name(a: &Option<&str>, b: &Option<&str>) -> (r: bool)
    ensures r == (opt_chars(*a) == opt_chars(*b)),
{ unimplemented!() }
/// r has the items of s at these places.
#[verifier::prophetic]
spec fn kept<A, F: Fn(&A) -> bool>(s: Seq<A>, f: F, r: Seq<A>, at: Seq<int>) -> bool {
    &&& at.len() == r.len()
    &&& forall|i: int| #![trigger at[i]] #![trigger r[i]] 0 <= i < r.len() ==> 0 <= at[i] < s.len() && r[i] == s[at[i]] && f.ensures((&s[at[i]],), true)
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] at[i]) < (#[trigger] at[j])
    &&& forall|k: int| 0 <= k < s.len() ==> at.contains(k) || f.ensures((&#[trigger] s[k],), false)
}
/// `Iterator::filter`
#[verifier::exec_allows_no_decreases_clause]
fn vs_filter<A, I: Iterator<Item = A>, F: Fn(&A) -> bool>(it: I, f: F) -> (r: std::vec::IntoIter<A>)
    requires
        IteratorSpec::obeys_prophetic_iter_laws(&it),
        forall|i: int| 0 <= i < IteratorSpec::remaining(&it).len() ==> f.requires((&#[trigger] IteratorSpec::remaining(&it)[i],)),
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::decrease(&r) is Some,
        exists|at: Seq<int>| #[trigger] kept(IteratorSpec::remaining(&it), f, IteratorSpec::remaining(&r), at),
{
    let ghost s = IteratorSpec::remaining(&it);
    let mut jt = it;
    let mut v: Vec<A> = Vec::new();
    let ghost mut k: int = 0;
    let ghost mut at: Seq<int> = Seq::empty();
    proof { assert(s.skip(0) =~= s); }
    loop
        invariant
            IteratorSpec::obeys_prophetic_iter_laws(&jt),
            IteratorSpec::remaining(&jt) == s.skip(k),
            0 <= k <= s.len(),
            v@.len() == at.len(),
            forall|i: int| 0 <= i < s.len() ==> f.requires((&#[trigger] s[i],)),
            forall|i: int| #![trigger at[i]] #![trigger v@[i]] 0 <= i < v@.len() ==> 0 <= at[i] < k && v@[i] == s[at[i]] && f.ensures((&s[at[i]],), true),
            forall|i: int, j: int| 0 <= i < j < v@.len() ==> (#[trigger] at[i]) < (#[trigger] at[j]),
            forall|m: int| 0 <= m < k ==> at.contains(m) || f.ensures((&#[trigger] s[m],), false),
        ensures k == s.len(),
    {
        match jt.next() {
            None => break,
            Some(x) => {
                proof { assert(x == s[k]); assert(s.skip(k).drop_first() =~= s.skip(k + 1)); }
                if f(&x) {
                    let ghost a0 = at;
                    v.push(x);
                    proof {
                        at = at.push(k);
                        assert forall|m: int| 0 <= m < k + 1 implies at.contains(m) || f.ensures((&#[trigger] s[m],), false) by {
                            if m == k { assert(at[a0.len() as int] == k); } else if a0.contains(m) { let q = choose|q: int| 0 <= q < a0.len() && a0[q] == m; assert(at[q] == m); }
                        }
                    }
                }
                proof { k = k + 1; }
            },
        }
    }
    let r = v.into_iter();
    assert(kept(s, f, v@, at));
    r
}
proof fn lemma_somes_at<U>(o: Seq<Option<U>>) -> (at: Seq<int>)
    ensures
        at.len() == somes(o).len(),
        forall|i: int| #![trigger at[i]] #![trigger somes(o)[i]] 0 <= i < at.len() ==> 0 <= at[i] < o.len() && o[at[i]] == Some(somes(o)[i]),
        forall|i: int, j: int| 0 <= i < j < at.len() ==> (#[trigger] at[i]) < (#[trigger] at[j]),
        forall|k: int| 0 <= k < o.len() ==> at.contains(k) || (#[trigger] o[k]) is None,
    decreases o.len(),
{
    if o.len() == 0 { Seq::empty() } else {
        let a = lemma_somes_at(o.drop_last());
        let n = o.len() - 1;
        match o.last() {
            None => {
                assert forall|k: int| 0 <= k < o.len() implies a.contains(k) || (#[trigger] o[k]) is None by { if k < n { assert(o.drop_last()[k] == o[k]); } }
                a
            },
            Some(u) => {
                let b = a.push(n);
                assert forall|k: int| 0 <= k < o.len() implies b.contains(k) || (#[trigger] o[k]) is None by {
                    if k == n { assert(b[a.len() as int] == n); } else {
                        assert(o.drop_last()[k] == o[k]);
                        if a.contains(k) { let q = choose|q: int| 0 <= q < a.len() && a[q] == k; assert(b[q] == k); }
                    }
                }
                b
            },
        }
    }
}
/// The channels the texts of s name.
spec fn made(s: Seq<&str>, r: Seq<ChannelPath>, at: Seq<int>) -> bool {
    &&& at.len() == r.len()
    &&& forall|i: int| #![trigger at[i]] #![trigger r[i]] 0 <= i < r.len() ==> 0 <= at[i] < s.len() && cpath(r[i]) == s[at[i]]@ && names_channel(s[at[i]]@)
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] at[i]) < (#[trigger] at[j])
    &&& forall|k: int| 0 <= k < s.len() ==> at.contains(k) || !names_channel((#[trigger] s[k])@)
}
spec fn are_made(s: Seq<&str>, r: Seq<ChannelPath>) -> bool { exists|at: Seq<int>| #[trigger] made(s, r, at) }
/// `filter_map` of texts with what makes channels of them
fn vs_channels_of<'a, I: Iterator<Item = &'a str>, F: Fn(&'a str) -> Option<ChannelPath>>(it: I, f: F) -> (r: std::vec::IntoIter<ChannelPath>)
    requires
        IteratorSpec::obeys_prophetic_iter_laws(&it),
        forall|x: &'a str| f.requires((x,)),
        forall|x: &'a str, y: Option<ChannelPath>| #[trigger] f.ensures((x,), y) ==> (match y { Some(c) => names_channel(x@) && cpath(c) == x@, None => !names_channel(x@) }),
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::decrease(&r) is Some,
        are_made(IteratorSpec::remaining(&it), IteratorSpec::remaining(&r)),
{
    let ghost s = IteratorSpec::remaining(&it);
    let r = vs_filter_map(it, f);
    proof {
        let o = choose|o: Seq<Option<ChannelPath>>| #[trigger] filter_map_with(s, f, IteratorSpec::remaining(&r), o);
        let at = lemma_somes_at(o);
        assert forall|k: int| 0 <= k < s.len() implies at.contains(k) || !names_channel((#[trigger] s[k])@) by { assert(f.ensures((s[k],), o[k])); }
        assert forall|i: int| #![trigger at[i]] 0 <= i < at.len() implies cpath(somes(o)[i]) == s[at[i]]@ && names_channel(s[at[i]]@) by { assert(f.ensures((s[at[i]],), o[at[i]])); }
        assert(made(s, IteratorSpec::remaining(&r), at));
    }
    r
}
spec fn sifted(s: Seq<&str>, w: spec_fn(Seq<char>) -> bool, r: Seq<&str>, at: Seq<int>) -> bool {
    &&& at.len() == r.len()
    &&& forall|i: int| #![trigger at[i]] #![trigger r[i]] 0 <= i < r.len() ==> 0 <= at[i] < s.len() && r[i] == s[at[i]] && w(r[i]@)
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] at[i]) < (#[trigger] at[j])
    &&& forall|k: int| 0 <= k < s.len() ==> at.contains(k) || !w((#[trigger] s[k])@)
}
/// r are the texts of s which are wanted.
spec fn are_sifted(s: Seq<&str>, w: spec_fn(Seq<char>) -> bool, r: Seq<&str>) -> bool { exists|at: Seq<int>| #[trigger] sifted(s, w, r, at) }
/// `filter` of texts with a closure which tells from the characters
fn vs_filter_texts<'a, I: Iterator<Item = &'a str>, F: Fn(&&'a str) -> bool>(it: I, f: F) -> (r: std::vec::IntoIter<&'a str>)
    requires
        IteratorSpec::obeys_prophetic_iter_laws(&it),
        forall|x: &&'a str| f.requires((x,)),
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::decrease(&r) is Some,
        forall|w: spec_fn(Seq<char>) -> bool| (forall|x: &&'a str, y: bool| #[trigger] f.ensures((x,), y) ==> y == w(x@)) ==> #[trigger] are_sifted(IteratorSpec::remaining(&it), w, IteratorSpec::remaining(&r)),
{
    let ghost s = IteratorSpec::remaining(&it);
    let r = vs_filter(it, f);
    proof {
        let at = choose|at: Seq<int>| #[trigger] kept(s, f, IteratorSpec::remaining(&r), at);
        assert forall|w: spec_fn(Seq<char>) -> bool| (forall|x: &&'a str, y: bool| #[trigger] f.ensures((x,), y) ==> y == w(x@)) implies #[trigger] are_sifted(s, w, IteratorSpec::remaining(&r)) by {
            assert(sifted(s, w, IteratorSpec::remaining(&r), at));
        }
    }
    r
}
/// All objects which are wanted, each once.
spec fn all_wanted(ix: Index, gp: Seq<char>, s: Seq<&str>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> has_object(ix, (#[trigger] s[i])@) && begins(gp, s[i]@) && wanted(gp, s[i]@)
    &&& forall|p: Seq<char>| #[trigger] has_object(ix, p) && begins(gp, p) && wanted(gp, p) ==> among(s, p)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i])@ != (#[trigger] s[j])@
}
proof fn lemma_wanted(ix: Index, gp: Seq<char>, s: Seq<&str>, w: spec_fn(Seq<char>) -> bool, r: Seq<&str>)
    requires
        are_sifted(s, w, r),
        forall|p: Seq<char>| #[trigger] w(p) == wanted(gp, p),
        forall|i: int| 0 <= i < s.len() ==> has_object(ix, #[trigger] s[i]@) && begins(gp, s[i]@),
        forall|p: Seq<char>| #[trigger] has_object(ix, p) && begins(gp, p) ==> among(s, p),
        forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i])@ != (#[trigger] s[j])@,
    ensures
        all_wanted(ix, gp, r),
{
    let at = choose|at: Seq<int>| #[trigger] sifted(s, w, r, at);
    assert forall|i: int| 0 <= i < r.len() implies has_object(ix, (#[trigger] r[i])@) && begins(gp, r[i]@) && wanted(gp, r[i]@) by { assert(r[i] == s[at[i]]); }
    assert forall|p: Seq<char>| #[trigger] has_object(ix, p) && begins(gp, p) && wanted(gp, p) implies among(r, p) by {
        let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k])@ == p;
        assert(at.contains(k));
        let i = choose|i: int| 0 <= i < at.len() && at[i] == k;
        assert(r[i]@ == p);
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i])@ != (#[trigger] r[j])@ by { assert(at[i] < at[j]); assert(s[at[i]]@ != s[at[j]]@); }
}
proof fn lemma_channels(ix: Index, gp: Seq<char>, s: Seq<&str>, r: Seq<ChannelPath>)
    requires
        all_wanted(ix, gp, s),
        are_made(s, r),
    ensures
        forall|i: int| 0 <= i < r.len() ==> listed(ix, gp, cpath(#[trigger] r[i])),
        forall|p: Seq<char>| #[trigger] listed(ix, gp, p) ==> exists|i: int| 0 <= i < r.len() && cpath(#[trigger] r[i]) == p,
        forall|i: int, j: int| 0 <= i < j < r.len() ==> cpath(#[trigger] r[i]) != cpath(#[trigger] r[j]),
{
    let at = choose|at: Seq<int>| #[trigger] made(s, r, at);
    assert forall|i: int| 0 <= i < r.len() implies listed(ix, gp, cpath(#[trigger] r[i])) by { assert(cpath(r[i]) == s[at[i]]@); }
    assert forall|p: Seq<char>| #[trigger] listed(ix, gp, p) implies exists|i: int| 0 <= i < r.len() && cpath(#[trigger] r[i]) == p by {
        let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k])@ == p;
        assert(at.contains(k));
        let i = choose|i: int| 0 <= i < at.len() && at[i] == k;
        assert(cpath(r[i]) == p);
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies cpath(#[trigger] r[i]) != cpath(#[trigger] r[j]) by { assert(at[i] < at[j]); assert(s[at[i]]@ != s[at[j]]@); }
}
