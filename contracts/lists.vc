# listings of the objects of a file
== Index::all_paths
ret r
shim map vs_map_each
closure 0 {{{ -> (r: &str) ensures r@ == path@ }}}
spec {{{
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::decrease(&r) is Some,
        forall|i: int| 0 <= i < IteratorSpec::remaining(&r).len() ==> has_object(*self, #[trigger] IteratorSpec::remaining(&r)[i]@),
        forall|p: Seq<char>| #[trigger] has_object(*self, p) ==> among(IteratorSpec::remaining(&r), p),
}}}
recv map 0 vs_keys {{{
            proof { lemma_keys(self.objects@, IteratorSpec::remaining(&vs_keys)); }
}}}

== Index::paths_starting_with
ret r
shim to_string vs_to_string
shim range @vs_range
shim map vs_map_each
shim take_while vs_take_while
shim starts_with vs_starts_with
closure 0 {{{ -> (r: &str) ensures r@ == vp0_0.0@ }}}
closure 1 {{{ -> (r: bool) ensures r == begins(path@, p@) }}}
spec {{{
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::decrease(&r) is Some,
        forall|i: int| 0 <= i < IteratorSpec::remaining(&r).len() ==> has_object(*self, #[trigger] IteratorSpec::remaining(&r)[i]@) && begins(path@, IteratorSpec::remaining(&r)[i]@),
        forall|p: Seq<char>| #[trigger] has_object(*self, p) && begins(path@, p) ==> among(IteratorSpec::remaining(&r), p),
        forall|i: int, j: int| 0 <= i < j < IteratorSpec::remaining(&r).len() ==> (#[trigger] IteratorSpec::remaining(&r)[i])@ != (#[trigger] IteratorSpec::remaining(&r)[j])@,
}}}
recv take_while 0 vs_texts {{{
            proof {
                lemma_run(path@, IteratorSpec::remaining(&vs_texts));
                assert forall|p: Seq<char>| begins(path@, p) implies #[trigger] lex(path@, p) by { lemma_begins_lex(path@, p); }
            }
}}}

== TdmsFile::list_groups
ret r
shim into_iter vs_set_items
spec {{{
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::decrease(&r) is Some,
        forall|i: int| 0 <= i < IteratorSpec::remaining(&r).len() ==> group_known(self.index, #[trigger] IteratorSpec::remaining(&r)[i]@),
        forall|g: Seq<char>| #[trigger] group_known(self.index, g) ==> among(IteratorSpec::remaining(&r), g),
        forall|i: int, j: int| 0 <= i < j < IteratorSpec::remaining(&r).len() ==> (#[trigger] IteratorSpec::remaining(&r)[i])@ != (#[trigger] IteratorSpec::remaining(&r)[j])@,
}}}
at before all_paths {{{
        broadcast use {str_axioms::axiom_str_items, str_axioms::axiom_str_eq};
}}}
loop 0 native vs_it {{{
            invariant
                vs_it.seq() == vs_paths,
                IteratorSpec::obeys_prophetic_iter_laws(&vs_it.iter),
                forall|i: int| 0 <= i < vs_paths.len() ==> has_object(self.index, #[trigger] vs_paths[i]@),
                forall|p: Seq<char>| #[trigger] has_object(self.index, p) ==> among(vs_paths, p),
                forall|x: &str| #[trigger] groups@.contains(x) ==> group_known(self.index, x@),
                forall|i: int| 0 <= i < vs_it.index@ ==> group_added(groups@, (#[trigger] vs_paths[i])@),
}}}
at loop 0 before {{{
        let ghost vs_paths = IteratorSpec::remaining(&paths);
}}}
at loop 0 body {{{
            broadcast use {str_axioms::axiom_str_items, str_axioms::axiom_str_eq};
            let ghost g0 = groups@;
            let ghost k = vs_it.index@;
}}}
at loop 0 end {{{
            proof {
                assert(g0.subset_of(groups@));
                assert(group_added(groups@, path@));
                assert forall|i: int| 0 <= i < k implies group_added(groups@, (#[trigger] vs_paths[i])@) by { assert(group_added(g0, vs_paths[i]@)); }
            }
}}}
at after insert {{{
                proof { assert(groups@.contains(group_name)); }
}}}
at before into_iter {{{
        proof { lemma_groups_complete(self.index, vs_paths, groups@); }
}}}

== TdmsFile::list_channels_in_group
ret r
shim filter vs_filter_texts
shim filter_map vs_channels_of
shim try_from vs_channel_text
eq vs_same_name
closure 0 {{{ -> (r: bool) ensures r == wanted(ppath(*group), path@) }}}
closure 1 {{{ -> (r: Option<ChannelPath>) ensures (match r { Some(c) => names_channel(path@) && cpath(c) == path@, None => !names_channel(path@) }) }}}
spec {{{
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::decrease(&r) is Some,
        forall|i: int| 0 <= i < IteratorSpec::remaining(&r).len() ==> listed(self.index, ppath(*group), cpath(#[trigger] IteratorSpec::remaining(&r)[i])),
        forall|p: Seq<char>| #[trigger] listed(self.index, ppath(*group), p) ==> exists|i: int| 0 <= i < IteratorSpec::remaining(&r).len() && cpath(#[trigger] IteratorSpec::remaining(&r)[i]) == p,
        forall|i: int, j: int| 0 <= i < j < IteratorSpec::remaining(&r).len() ==> cpath(#[trigger] IteratorSpec::remaining(&r)[i]) != cpath(#[trigger] IteratorSpec::remaining(&r)[j]),
}}}
at before group_name {{{
        let ghost s0 = IteratorSpec::remaining(&paths);
}}}
recv filter_map 0 vs_wanted {{{
            proof {
                let w = |p: Seq<char>| wanted(ppath(*group), p);
                assert(are_sifted(s0, w, IteratorSpec::remaining(&vs_wanted)));
                lemma_wanted(self.index, ppath(*group), s0, w, IteratorSpec::remaining(&vs_wanted));
            }
}}}
at ret {{{
        proof {
            let s = choose|s: Seq<&str>| #[trigger] all_wanted(self.index, ppath(*group), s) && are_made(s, IteratorSpec::remaining(&vs_ret));
            lemma_channels(self.index, ppath(*group), s, IteratorSpec::remaining(&vs_ret));
        }
}}}
