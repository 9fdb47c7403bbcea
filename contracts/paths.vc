== ChannelPath::new
ret r
spec {{{
    ensures r.0.0@ == channel_text(escaped(group@), escaped(channel@)),
}}}

== PropertyPath::channel
ret r
texts
spec {{{
    ensures r.0@ == channel_text(escaped(group@), escaped(channel@)),
}}}
at ret {{{
        proof { assert(vs_ret.0@ =~= channel_text(escaped(group@), escaped(channel@))); }
}}}

== PropertyPath::group
ret r
texts
spec {{{
    ensures r.0@ == group_text(escaped(group@)),
}}}
at ret {{{
        proof { assert(vs_ret.0@ =~= group_text(escaped(group@))); }
}}}

== PropertyPath::file
ret r
texts
shim from vs_string_from
spec {{{
    ensures r.0@ == seq!['/'],
}}}
at ret {{{
        proof { assert(vs_ret.0@ =~= seq!['/']); }
}}}

== escape_name
ret r
texts
shim replace vs_replace
spec {{{
    ensures r@ == escaped(name@),
}}}
at ret {{{
        proof { lemma_replaced(name@); }
}}}

== split_names
ret r
texts
shim strip_prefix vs_strip_prefix
shim find vs_find
shim get vs_str_get
shim split_at vs_split_at
shim and_then vs_and_then
spec {{{
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::decrease(&r) is Some,
        views(IteratorSpec::remaining(&r)) == names_in(after_slash(path@)),
}}}
fromfn vs_next_name vs_split_all remaining : Option<&'a str> -> Option<&'a str> {{{
    ensures match *old(remaining) {
        None => r is None && *final(remaining) is None,
        Some(s) => r is Some && match name_end(s@) {
            Some(k) => r->Some_0@ == s@.take(k + 1) && *final(remaining) is Some && (*final(remaining))->Some_0@ == s@.skip(k + 2),
            None => r->Some_0@ == s@ && *final(remaining) is None,
        },
    }
}}}
closure 1 {{{
        -> (r: Option<usize>) ensures
        r is Some ==> (exists|k: int| #[trigger] boundary(name@, r->Some_0 as int, k) && sep_at(name@, k) && forall|j: int| 0 <= j < k ==> !#[trigger] sep_at(name@, j)),
        r is Some ==> r->Some_0 + 3 <= blen(name@) <= isize::MAX,
        r is None ==> (forall|j: int| !#[trigger] sep_at(name@, j)),
}}}
at before find {{{
        proof { lemma_sep(); lemma_first_byte(names@); }
}}}
at before =remaining 1 {{{
                proof { lemma_name_end(names@, None); }
}}}
at before split_at {{{
                proof { lemma_name_end(names@, Some(name_length)); }
}}}

== parse_name
ret r
shim strip_prefix vs_strip_prefix
shim strip_suffix vs_strip_suffix
spec {{{
    ensures opt_chars(r) == unquoted(name@),
}}}

== invert
ret r
shim map_or vs_map_or
shim map vs_result_map
swaparg map Some => |t: T| -> (r: Option<T>) ensures r == Some(t) { Some(t) }
closure 0 {{{ -> (r: Result<Option<T>, E>) ensures match v { Ok(t) => r == Ok::<Option<T>, E>(Some(t)), Err(e) => r == Err::<Option<T>, E>(e) } }}}
spec {{{
    ensures match x {
        None => r == Ok::<Option<T>, E>(None),
        Some(Ok(t)) => r == Ok::<Option<T>, E>(Some(t)),
        Some(Err(e)) => r == Err::<Option<T>, E>(e),
    }
}}}

== parse_path
ret r
shim starts_with vs_starts_with
shim len vs_str_len
shim to_string vs_to_string
shim map vs_map
shim ok_or_else vs_ok_or_else
at entry {{{
        proof { lemma_blen_min(path@); }
}}}
spec {{{
    ensures
        r is Ok <==> parsed(path@) is Some,
        r is Ok ==> (opt_chars(r->Ok_0.0), opt_chars(r->Ok_0.1)) == parsed(path@)->Some_0,
}}}
closure 0 {{{ -> (r: Result<&str, TdmsError>) ensures match unquoted(p@) { Some(n) => r is Ok && r->Ok_0@ == n, None => r is Err } }}}

== path_group_name
ret r
spec {{{
    ensures opt_chars(r) == match parsed(path@) { Some(x) => x.0, None => None },
}}}

== PropertyPath::path
ret r
spec {{{
    ensures r@ == ppath(*self),
}}}

== ChannelPath::path
ret r
spec {{{
    ensures r@ == cpath(*self),
}}}

== PropertyPath::path_levels
ret r
shim filter_map vs_filter_names
swaparg filter_map parse_name => |n| -> (r: Option<&str>) ensures opt_chars(r) == unquoted(n@) { parse_name(n) }
spec {{{
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::decrease(&r) is Some,
        views(IteratorSpec::remaining(&r)) == levels(ppath(*self)),
}}}

== PropertyPath::group_name
ret r
shim next &vs_next
spec {{{
    ensures
        r is None ==> levels(ppath(*self)).len() == 0,
        r is Some ==> levels(ppath(*self)).len() > 0 && r->Some_0@ == levels(ppath(*self))[0],
}}}

== PropertyPath::channel_name
ret r
shim nth vs_nth
spec {{{
    ensures
        r is None ==> levels(ppath(*self)).len() < 2,
        r is Some ==> levels(ppath(*self)).len() >= 2 && r->Some_0@ == levels(ppath(*self))[1],
}}}

== PropertyPath::path_depth
ret r
shim count vs_count
at entry {{{
        proof { lemma_levels(ppath(*self)); axiom_text_fits(self.0); lemma_blen_min(self.0@); }
}}}
recv count 0 vs_levels {{{
        proof { assert(views(IteratorSpec::remaining(&vs_levels)).len() == IteratorSpec::remaining(&vs_levels).len()); }
}}}
spec {{{
    ensures r == levels(ppath(*self)).len(),
}}}

== PropertyPath::is_channel
ret r
spec {{{
    ensures r == (levels(ppath(*self)).len() == 2),
}}}

== ChannelPath::group_name
ret r
spec {{{
    requires levels(cpath(*self)).len() == 2,
    ensures r@ == levels(cpath(*self))[0],
}}}

== ChannelPath::channel_name
ret r
spec {{{
    requires levels(cpath(*self)).len() == 2,
    ensures r@ == levels(cpath(*self))[1],
}}}

== <PropertyPath as TryFrom<ObjectPath<>>>::try_from
free vs_path_of
ret r
shim to_string vs_to_string
spec {{{
    ensures
        r is Ok <==> parsed(value@) is Some,
        r is Ok ==> ppath(r->Ok_0) == value@,
}}}

== <ChannelPath as TryFrom<PropertyPath>>::try_from
free vs_channel_of
ret r
shim to_string vs_to_string
spec {{{
    ensures
        r is Ok <==> levels(ppath(path)).len() == 2,
        r is Ok ==> r->Ok_0.0 == path,
}}}

== <ChannelPath as TryFrom<ObjectPath<>>>::try_from
free vs_channel_text
ret r
shim try_from vs_path_of
shim try_into vs_channel_of
spec {{{
    ensures
        r is Ok <==> parsed(value@) is Some && parsed(value@)->Some_0.1 is Some,
        r is Ok ==> cpath(r->Ok_0) == value@,
}}}
at entry {{{
        proof { lemma_levels(value@); }
}}}
