spec fn views(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|x: &str| x@) }
proof fn lemma_replaced(s: Seq<char>)
    ensures replaced(s, '\'', "\""@) == escaped(s),
    decreases s.len(),
{
    reveal_strlit("\"");
    if s.len() > 0 {
        lemma_replaced(s.drop_last());
        assert(replaced(s, '\'', "\""@) =~= escaped(s));
    } else {
        assert(escaped(s) =~= Seq::empty());
    }
}
proof fn lemma_sep()
    ensures
        blen("'/'"@) == 3,
        forall|s: Seq<char>, k: int| #![trigger "'/'".occurs(s, k)] #![trigger sep_at(s, k)] "'/'".occurs(s, k) <==> sep_at(s, k),
{
    reveal_strlit("'/'");
    let p = "'/'"@;
    reveal_with_fuel(blen, 4);
    assert forall|s: Seq<char>, k: int| #[trigger] "'/'".occurs(s, k) <==> sep_at(s, k) by {
        if 0 <= k && k + 3 <= s.len() {
            let t = s.subrange(k, k + 3);
            assert(t[0] == s[k] && t[1] == s[k + 1] && t[2] == s[k + 2]);
            if sep_at(s, k) { assert(t =~= p); }
        }
    }
}
proof fn lemma_blen_min(s: Seq<char>)
    ensures blen(s) >= s.len(), s.len() == 1 ==> blen(s) == utf8(s[0]),
    decreases s.len(),
{
    reveal_with_fuel(blen, 2);
    if s.len() > 0 { lemma_blen_min(s.drop_last()); }
}
/// Two places of a text with as many bytes before them are the same place.
proof fn lemma_one_place(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= s.len(), 0 <= j <= s.len(), blen(s.take(i)) == blen(s.take(j)),
    ensures i == j,
{
    if i < j { lemma_blen_take(s, i, j); }
    if j < i { lemma_blen_take(s, j, i); }
}
/// The first byte of a text is its first character, if anything is.
proof fn lemma_first_byte(s: Seq<char>)
    ensures
        boundary(s, 1, 1) <==> s.len() > 0 && utf8(s[0]) == 1,
        forall|k: int| #[trigger] boundary(s, 1, k) ==> k == 1,
{
    assert(s.take(0) =~= Seq::empty());
    if s.len() > 0 {
        assert(s.take(1) =~= seq![s[0]]);
        lemma_blen_min(s.take(1));
    }
    assert forall|k: int| #[trigger] boundary(s, 1, k) implies k == 1 by { lemma_blen_min(s.take(k)); }
}
/// Where the name ends, in bytes and in characters.
proof fn lemma_name_end(s: Seq<char>, found: Option<usize>)
    requires match found {
        // nothing found behind the first character, or there is no first character of one byte
        None => !boundary(s, 1, 1) || forall|j: int| !#[trigger] sep_at(s.skip(1), j),
        Some(n) => boundary(s, 1, 1) && exists|i: int| #[trigger] boundary(s.skip(1), n as int, i) && sep_at(s.skip(1), i) && forall|j: int| 0 <= j < i ==> !#[trigger] sep_at(s.skip(1), j),
    },
    ensures match found {
        None => name_end(s) is None,
        Some(n) => name_end(s) is Some && boundary(s, n + 2, name_end(s)->Some_0 + 1)
            && sep_at(s, name_end(s)->Some_0)
            && s.skip(name_end(s)->Some_0 + 1).skip(1) == s.skip(name_end(s)->Some_0 + 2)
            && forall|k: int| #[trigger] boundary(s, n + 2, k) ==> k == name_end(s)->Some_0 + 1,
    },
{
    lemma_first_byte(s);
    let t = s.skip(1);
    if s.len() > 0 { assert forall|j: int| 0 <= j implies #[trigger] sep_at(t, j) == sep_at(s, j + 1) by {} }
    match found {
        None => {
            if name_end(s) is Some {
                lemma_first_sep(s, 1);
                assert(sep_at(t, name_end(s)->Some_0 - 1));
            }
        },
        Some(n) => {
            let i = choose|i: int| #[trigger] boundary(s.skip(1), n as int, i) && sep_at(s.skip(1), i) && forall|j: int| 0 <= j < i ==> !#[trigger] sep_at(s.skip(1), j);
            assert forall|m: int| 1 <= m < i + 1 implies !sep_at(s, m) by { assert(!sep_at(t, m - 1)); }
            assert(sep_at(s, i + 1));
            lemma_first_is(s, 1, i + 1);
            // up to and including the closing quote
            assert(s.take(i + 2) =~= s.take(1) + t.take(i) + seq!['\'']);
            lemma_blen_add(s.take(1) + t.take(i), seq!['\'']);
            lemma_blen_add(s.take(1), t.take(i));
            lemma_blen_min(seq!['\'']);
            assert(boundary(s, n + 2, i + 2));
            assert(s.skip(i + 2).skip(1) =~= s.skip(i + 3));
            assert forall|m: int| #[trigger] boundary(s, n + 2, m) implies m == i + 2 by { lemma_one_place(s, m, i + 2); }
        },
    }
}
