/// What `next`, `nth` and `count` of an iterator give, when nothing else is done with it.
fn vs_next<I: Iterator>(it: &mut I) -> (r: Option<I::Item>)
    requires IteratorSpec::obeys_prophetic_iter_laws(old(it)),
    ensures
        r is None <==> IteratorSpec::remaining(old(it)).len() == 0,
        r is Some ==> r->Some_0 == IteratorSpec::remaining(old(it))[0],
{ it.next() }
#[verifier::exec_allows_no_decreases_clause]
fn vs_nth<I: Iterator>(it: I, n: usize) -> (r: Option<I::Item>)
    requires IteratorSpec::obeys_prophetic_iter_laws(&it),
    ensures
        r is None <==> IteratorSpec::remaining(&it).len() <= n,
        r is Some ==> r->Some_0 == IteratorSpec::remaining(&it)[n as int],
{
    let ghost s = IteratorSpec::remaining(&it);
    let mut jt = it;
    let mut k: usize = 0;
    proof { assert(s.skip(0) =~= s); }
    loop
        invariant
            IteratorSpec::obeys_prophetic_iter_laws(&jt),
            s == IteratorSpec::remaining(&it),
            0 <= k <= n,
            k <= s.len(),
            IteratorSpec::remaining(&jt) == s.skip(k as int),
    {
        let x = jt.next();
        if x.is_none() || k == n { return x; }
        proof { assert(s.skip(k as int).drop_first() =~= s.skip(k + 1)); }
        k = k + 1;
    }
}
#[verifier::exec_allows_no_decreases_clause]
fn vs_count<I: Iterator>(it: I) -> (r: usize)
    requires IteratorSpec::obeys_prophetic_iter_laws(&it), IteratorSpec::remaining(&it).len() <= usize::MAX,
    ensures r == IteratorSpec::remaining(&it).len(),
{
    let ghost s = IteratorSpec::remaining(&it);
    let mut jt = it;
    let mut k: usize = 0;
    proof { assert(s.skip(0) =~= s); }
    loop
        invariant
            IteratorSpec::obeys_prophetic_iter_laws(&jt),
            k <= s.len() <= usize::MAX,
            IteratorSpec::remaining(&jt) == s.skip(k as int),
        ensures k == s.len(),
    {
        if jt.next().is_none() { break; }
        proof { assert(s.skip(k as int).drop_first() =~= s.skip(k + 1)); }
        k = k + 1;
    }
    k
}
proof fn lemma_quoted_nonempty(s: Seq<char>)
    ensures quoted_names(s).len() >= 1, quoted_names(s).len() <= s.len() + 1,
    decreases s.len(),
{
    lemma_first_sep(s, 1);
    if let Some(k) = name_end(s) {
        if 0 <= k && k + 2 <= s.len() { lemma_quoted_nonempty(s.skip(k + 2)); }
    }
}
proof fn lemma_unquoted_all(ns: Seq<Seq<char>>)
    ensures unquoted_all(ns).len() <= ns.len(),
    decreases ns.len(),
{ if ns.len() > 0 { lemma_unquoted_all(ns.drop_last()); } }
/// The levels of an object path are the names it stands for.
proof fn lemma_levels(s: Seq<char>)
    ensures
        levels(s).len() <= s.len() + 1,
        parsed(s) is Some ==> levels(s) == names_of(parsed(s)->Some_0),
{
    lemma_unquoted_all(names_in(after_slash(s)));
    if let Some(t) = after_slash(s) {
        lemma_quoted_nonempty(t);
        let ns = quoted_names(t);
        if parsed(s) is Some {
            reveal_with_fuel(unquoted_all, 4);
            if t.len() == 0 {
                assert(ns =~= seq![t]);
                assert(levels(s) =~= Seq::empty());
            } else if ns.len() == 1 {
                assert(ns.drop_last() =~= Seq::empty());
                assert(levels(s) =~= names_of(parsed(s)->Some_0));
            } else {
                assert(ns.drop_last().drop_last() =~= Seq::empty());
                assert(levels(s) =~= names_of(parsed(s)->Some_0));
            }
        }
    }
}
spec fn names_of(p: (Option<Seq<char>>, Option<Seq<char>>)) -> Seq<Seq<char>> {
    match p {
        (Some(g), Some(c)) => seq![g, c],
        (Some(g), None) => seq![g],
        _ => Seq::empty(),
    }
}
proof fn lemma_somes_views(s: Seq<&str>, o: Seq<Option<&str>>)
    requires o.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> opt_chars(#[trigger] o[i]) == unquoted(s[i]@),
    ensures views(somes(o)) == unquoted_all(views(s)),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() - 1 implies opt_chars(#[trigger] o.drop_last()[i]) == unquoted(s.drop_last()[i]@) by { assert(o[i] == o.drop_last()[i]); }
        lemma_somes_views(s.drop_last(), o.drop_last());
        assert(views(s).drop_last() =~= views(s.drop_last()));
        assert(opt_chars(o.last()) == unquoted(s.last()@));
        assert(views(somes(o)) =~= unquoted_all(views(s)));
    } else {
        assert(views(somes(o)) =~= unquoted_all(views(s)));
    }
}
/// `Iterator::filter_map` over names with a closure which takes their quotes off
fn vs_filter_names<'a, I: Iterator<Item = &'a str>, F: Fn(&'a str) -> Option<&'a str>>(it: I, f: F) -> (r: std::vec::IntoIter<&'a str>)
    requires
        IteratorSpec::obeys_prophetic_iter_laws(&it),
        forall|x: &'a str| f.requires((x,)),
        forall|x: &'a str, y: Option<&'a str>| #[trigger] f.ensures((x,), y) ==> opt_chars(y) == unquoted(x@),
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::decrease(&r) is Some,
        views(IteratorSpec::remaining(&r)) == unquoted_all(views(IteratorSpec::remaining(&it))),
{
    let r = vs_filter_map(it, f);
    proof {
        let o = choose|o: Seq<Option<&'a str>>| #[trigger] filter_map_with(IteratorSpec::remaining(&it), f, IteratorSpec::remaining(&r), o);
        lemma_somes_views(IteratorSpec::remaining(&it), o);
    }
    r
}
/// TRUSTED: no text has more bytes than an object can have.
#[verifier::external_body]
proof fn axiom_text_fits(s: String)
    ensures blen(s@) <= isize::MAX,
{ }
