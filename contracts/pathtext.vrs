// ---- the texts of paths, as characters
/// How many bytes UTF-8 has for a character.
spec fn utf8(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
spec fn group_text(g: Seq<char>) -> Seq<char> { seq!['/', '\''] + g + seq!['\''] }
spec fn channel_text(g: Seq<char>, c: Seq<char>) -> Seq<char> { group_text(g) + group_text(c) }
/// A name with its single quotes made double quotes.
spec fn escaped(n: Seq<char>) -> Seq<char> { n.map_values(|c: char| if c == '\'' { '"' } else { c }) }
/// The piece `'/'` lies at k.
spec fn sep_at(s: Seq<char>, k: int) -> bool { 0 <= k && k + 3 <= s.len() && s[k] == '\'' && s[k + 1] == '/' && s[k + 2] == '\'' }
spec fn first_sep(s: Seq<char>, k: int) -> Option<int>
    decreases s.len() - k,
{
    if k + 3 > s.len() { None } else if sep_at(s, k) { Some(k) } else { first_sep(s, k + 1) }
}
/// Where the name at the start of s, with its opening quote, ends before a separator.
spec fn name_end(s: Seq<char>) -> Option<int> { if s.len() > 0 && utf8(s[0]) == 1 { first_sep(s, 1) } else { None } }
proof fn lemma_first_sep(s: Seq<char>, k: int)
    requires 0 <= k,
    ensures
        match first_sep(s, k) {
            Some(j) => k <= j && sep_at(s, j) && forall|i: int| k <= i < j ==> !sep_at(s, i),
            None => forall|i: int| k <= i ==> !sep_at(s, i),
        },
    decreases s.len() - k,
{
    if k + 3 <= s.len() && !sep_at(s, k) { lemma_first_sep(s, k + 1); }
}
proof fn lemma_first_is(s: Seq<char>, k: int, j: int)
    requires 0 <= k <= j, sep_at(s, j), forall|i: int| k <= i < j ==> !sep_at(s, i),
    ensures first_sep(s, k) == Some(j),
{ lemma_first_sep(s, k); }
/// The names in a text, with their quotes.
spec fn quoted_names(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len(),
{
    match name_end(s) {
        Some(k) => if 0 <= k && k + 2 <= s.len() { seq![s.take(k + 1)] + quoted_names(s.skip(k + 2)) } else { seq![s] },
        None => seq![s],
    }
}
spec fn names_in(s: Option<Seq<char>>) -> Seq<Seq<char>> { match s { Some(s) => quoted_names(s), None => Seq::empty() } }
spec fn after_slash(s: Seq<char>) -> Option<Seq<char>> { if s.len() > 0 && s[0] == '/' { Some(s.skip(1)) } else { None } }
/// A name without its quotes.
spec fn unquoted(s: Seq<char>) -> Option<Seq<char>> {
    if s.len() >= 2 && s[0] == '\'' && s.last() == '\'' { Some(s.subrange(1, s.len() - 1)) } else { None }
}
/// What an object path stands for; None for a text which is no object path.
spec fn parsed(s: Seq<char>) -> Option<(Option<Seq<char>>, Option<Seq<char>>)> {
    match after_slash(s) {
        None => None,
        Some(t) => if t.len() == 0 { Some((None, None)) } else {
            let ns = quoted_names(t);
            if ns.len() > 2 { None } else {
                match unquoted(ns[0]) {
                    None => None,
                    Some(g) => if ns.len() < 2 { Some((Some(g), None)) } else {
                        match unquoted(ns[1]) { None => None, Some(c) => Some((Some(g), Some(c))) }
                    },
                }
            }
        },
    }
}
spec fn opt_chars(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
/// The names of a path at its levels.
spec fn levels(s: Seq<char>) -> Seq<Seq<char>> { unquoted_all(names_in(after_slash(s))) }
spec fn unquoted_all(ns: Seq<Seq<char>>) -> Seq<Seq<char>>
    decreases ns.len(),
{
    if ns.len() == 0 { Seq::empty() } else {
        match unquoted(ns.last()) { Some(n) => unquoted_all(ns.drop_last()).push(n), None => unquoted_all(ns.drop_last()) }
    }
}
