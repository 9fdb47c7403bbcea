// ---- N01: names and the texts of paths
spec fn plain(n: Seq<char>) -> bool { forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] != '\'' }
proof fn lemma_escaped_plain(n: Seq<char>)
    ensures plain(escaped(n)), plain(n) ==> escaped(n) == n,
{
    if plain(n) { assert(escaped(n) =~= n); }
}
proof fn lemma_last_name(c: Seq<char>)
    requires plain(c),
    ensures quoted_names(seq!['\''] + c + seq!['\'']) == seq![seq!['\''] + c + seq!['\'']], unquoted(seq!['\''] + c + seq!['\'']) == Some(c),
{
    let t = seq!['\''] + c + seq!['\''];
    lemma_first_sep(t, 1);
    if let Some(k) = first_sep(t, 1) { assert(t[k] == c[k - 1]); }
    assert(t.subrange(1, t.len() - 1) =~= c);
}
proof fn lemma_first_name(g: Seq<char>, c: Seq<char>)
    requires plain(g), plain(c),
    ensures ({
        let t = channel_text(g, c).skip(1);
        let q = seq!['\''] + g + seq!['\''];
        quoted_names(t) == seq![q, seq!['\''] + c + seq!['\'']] && unquoted(q) == Some(g)
    }),
{
    let t = channel_text(g, c).skip(1);
    let q = seq!['\''] + g + seq!['\''];
    let e = g.len() as int + 1;
    assert(t =~= q + seq!['/'] + (seq!['\''] + c + seq!['\'']));
    assert(sep_at(t, e));
    assert forall|i: int| 1 <= i < e implies !sep_at(t, i) by { assert(t[i] == g[i - 1]); }
    lemma_first_is(t, 1, e);
    assert(t.take(e + 1) =~= q);
    assert(t.skip(e + 2) =~= seq!['\''] + c + seq!['\'']);
    lemma_last_name(c);
    assert(q.subrange(1, q.len() - 1) =~= g);
    assert(quoted_names(t) =~= seq![q, seq!['\''] + c + seq!['\'']]);
}
/// The text built for names parses back to exactly those names.
proof fn theorem_names(g: Seq<char>, c: Seq<char>)
    requires plain(g), plain(c),
    ensures
        escaped(g) == g,
        parsed(seq!['/']) == Some((None::<Seq<char>>, None::<Seq<char>>)),
        parsed(group_text(g)) == Some((Some(g), None::<Seq<char>>)),
        parsed(channel_text(g, c)) == Some((Some(g), Some(c))),
        levels(group_text(g)) == seq![g],
        levels(channel_text(g, c)) == seq![g, c],
{
    lemma_escaped_plain(g);
    assert(seq!['/'].skip(1) =~= Seq::empty());
    lemma_first_name(g, c);
    lemma_last_name(g);
    assert(group_text(g).skip(1) =~= seq!['\''] + g + seq!['\'']);
    assert(parsed(group_text(g)) == Some((Some(g), None::<Seq<char>>)));
    assert(parsed(channel_text(g, c)) == Some((Some(g), Some(c))));
    lemma_levels(group_text(g));
    lemma_levels(channel_text(g, c));
}
/// Other names give another text, whatever the names.
proof fn theorem_distinct(g: Seq<char>, c: Seq<char>, h: Seq<char>, d: Seq<char>)
    ensures
        channel_text(escaped(g), escaped(c)) == channel_text(escaped(h), escaped(d)) ==> escaped(g) == escaped(h) && escaped(c) == escaped(d),
        plain(g) && plain(c) && plain(h) && plain(d) && channel_text(g, c) == channel_text(h, d) ==> g == h && c == d,
        group_text(escaped(g)) == group_text(escaped(h)) ==> escaped(g) == escaped(h),
        channel_text(escaped(g), escaped(c)) != group_text(escaped(h)),
{
    lemma_escaped_plain(g); lemma_escaped_plain(c); lemma_escaped_plain(h); lemma_escaped_plain(d);
    theorem_names(escaped(g), escaped(c));
    theorem_names(escaped(h), escaped(d));
}
/// A text which is accepted has the form of what it is accepted as.
proof fn theorem_forms(s: Seq<char>)
    ensures match parsed(s) {
        None => true,
        Some((None, None)) => s == seq!['/'],
        Some((Some(g), None)) => s == group_text(g),
        Some((Some(g), Some(c))) => s == channel_text(g, c),
        Some((None, Some(_))) => false,
    },
{
    if let Some(t) = after_slash(s) {
        assert(s =~= seq!['/'] + t);
        if t.len() > 0 && parsed(s) is Some {
            let ns = quoted_names(t);
            lemma_first_sep(t, 1);
            assert(ns[0] =~= seq!['\''] + unquoted(ns[0])->Some_0 + seq!['\'']);
            match name_end(t) {
                Some(k) => {
                    let u = t.skip(k + 2);
                    lemma_quoted_nonempty(u);
                    lemma_first_sep(u, 1);
                    assert(ns == seq![t.take(k + 1)] + quoted_names(u));
                    assert(ns[1] == quoted_names(u)[0]);
                    if let Some(j) = name_end(u) { lemma_quoted_nonempty(u.skip(j + 2)); assert(quoted_names(u) == seq![u.take(j + 1)] + quoted_names(u.skip(j + 2))); }
                    assert(ns[1] == u);
                    assert(ns[1] =~= seq!['\''] + unquoted(ns[1])->Some_0 + seq!['\'']);
                    assert(t =~= t.take(k + 1) + seq!['/'] + u);
                    assert(s =~= channel_text(unquoted(ns[0])->Some_0, unquoted(ns[1])->Some_0));
                },
                None => { assert(s =~= group_text(unquoted(ns[0])->Some_0)); },
            }
        }
        if t.len() == 0 { assert(s =~= seq!['/']); }
    }
}
