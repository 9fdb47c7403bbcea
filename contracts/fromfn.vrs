/// What the iterator of `std::iter::from_fn` gives until its end, the state being the captured variable.
fn vs_split_all<'a>(remaining: Option<&'a str>) -> (r: std::vec::IntoIter<&'a str>)
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::decrease(&r) is Some,
        views(IteratorSpec::remaining(&r)) == names_in(opt_chars(remaining)),
{
    let mut v: Vec<&'a str> = Vec::new();
    let mut state = remaining;
    let ghost mut left: nat = match remaining { Some(s) => s@.len() + 1, None => 0 };
    proof { assert(views(v@) =~= Seq::empty()); assert(views(v@) + names_in(opt_chars(remaining)) =~= names_in(opt_chars(remaining))); }
    loop
        invariant
            views(v@) + names_in(opt_chars(state)) == names_in(opt_chars(remaining)),
            left == match state { Some(s) => s@.len() + 1, None => 0 },
        ensures views(v@) == names_in(opt_chars(remaining)),
        decreases left,
    {
        let ghost before = state;
        match vs_next_name(&mut state) {
            None => { proof { assert(views(v@) + Seq::empty() =~= views(v@)); } break; }
            Some(x) => {
                let ghost v0 = v@;
                v.push(x);
                proof {
                    lemma_first_sep(before->Some_0@, 1);
                    assert(views(v@) =~= views(v0).push(x@));
                    assert(names_in(opt_chars(before)) =~= seq![x@] + names_in(opt_chars(state)));
                    assert(views(v@) + names_in(opt_chars(state)) =~= views(v0) + (seq![x@] + names_in(opt_chars(state))));
                    left = match state { Some(s) => s@.len() + 1, None => 0 };
                }
            },
        }
    }
    v.into_iter()
}
