// ---- N02: what the listings give
/// The channels listed of a group are those of the file's objects whose path names a channel of that very group.
proof fn theorem_group_channels(ix: Index, g: Seq<char>)
    requires plain(g),
    ensures
        forall|p: Seq<char>| #[trigger] listed(ix, group_text(g), p) <==> has_object(ix, p) && exists|c: Seq<char>| parsed(p) == Some((Some(g), Some(c))) && p == #[trigger] channel_text(g, c),
        forall|c: Seq<char>| plain(c) && has_object(ix, #[trigger] channel_text(g, c)) ==> listed(ix, group_text(g), channel_text(g, c)),
{
    theorem_names(g, g);
    assert forall|p: Seq<char>| #[trigger] listed(ix, group_text(g), p) implies has_object(ix, p) && exists|c: Seq<char>| parsed(p) == Some((Some(g), Some(c))) && p == #[trigger] channel_text(g, c) by {
        theorem_forms(p);
        let c = parsed(p)->Some_0.1->Some_0;
        assert(parsed(p) == Some((Some(g), Some(c))) && p == channel_text(g, c));
    }
    assert forall|p: Seq<char>| has_object(ix, p) && (exists|c: Seq<char>| parsed(p) == Some((Some(g), Some(c))) && p == #[trigger] channel_text(g, c)) implies #[trigger] listed(ix, group_text(g), p) by {
        let c = choose|c: Seq<char>| parsed(p) == Some((Some(g), Some(c))) && p == #[trigger] channel_text(g, c);
        assert(p.take(group_text(g).len() as int) =~= group_text(g));
    }
    assert forall|c: Seq<char>| plain(c) && has_object(ix, #[trigger] channel_text(g, c)) implies listed(ix, group_text(g), channel_text(g, c)) by { theorem_names(g, c); }
}
/// The groups listed are those of the objects' paths, also where only a channel names them.
proof fn theorem_groups(ix: Index, g: Seq<char>)
    ensures
        group_known(ix, g) <==> exists|p: Seq<char>| #[trigger] has_object(ix, p) && (p == group_text(g) && parsed(p) == Some((Some(g), None::<Seq<char>>)) || exists|c: Seq<char>| p == #[trigger] channel_text(g, c) && parsed(p) == Some((Some(g), Some(c)))),
        plain(g) && has_object(ix, group_text(g)) ==> group_known(ix, g),
        forall|c: Seq<char>| plain(g) && plain(c) && has_object(ix, #[trigger] channel_text(g, c)) ==> group_known(ix, g),
{
    if group_known(ix, g) {
        let p = choose|p: Seq<char>| #[trigger] has_object(ix, p) && group_in(p) == Some(g);
        theorem_forms(p);
        if let Some((_, Some(c))) = parsed(p) { assert(p == channel_text(g, c)); }
    }
    if plain(g) {
        theorem_names(g, g);
        assert forall|c: Seq<char>| plain(c) && has_object(ix, #[trigger] channel_text(g, c)) implies group_known(ix, g) by { theorem_names(g, c); }
    }
}
/// Every channel of the file is listed in its group, and its group among the groups.
proof fn theorem_nothing_missing(ix: Index, p: Seq<char>)
    requires has_object(ix, p), names_channel(p),
    ensures
        group_known(ix, parsed(p)->Some_0.0->Some_0),
        plain(parsed(p)->Some_0.0->Some_0) ==> listed(ix, group_text(parsed(p)->Some_0.0->Some_0), p),
        listed(ix, seq!['/'], p),
{
    theorem_forms(p);
    let g = parsed(p)->Some_0.0->Some_0;
    let c = parsed(p)->Some_0.1->Some_0;
    assert(group_in(p) == Some(g));
    if plain(g) { theorem_group_channels(ix, g); assert(p == channel_text(g, c)); }
    theorem_names(Seq::empty(), Seq::empty());
    lemma_levels(seq!['/']);
    assert(p.take(1) =~= seq!['/']);
}
