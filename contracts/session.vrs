// ---- writing through a session
@each T=RawDataMeta|DataFormat|RawDataIndex
/// TRUSTED: the derived equality of @T@ compares the values.
impl PartialEq for @T@ {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for @T@ {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
@end
/// Comparison by `==`.
trait VsEq<R> {
    spec fn same(&self, r: &R) -> bool;
    fn vs_eq(&self, r: &R) -> (b: bool)
        ensures b == self.same(r);
}
fn vs_eq<L: VsEq<R>, R>(l: &L, r: &R) -> (b: bool)
    ensures b == l.same(r),
{ l.vs_eq(r) }
impl<'a> VsEq<&'a str> for String {
    spec fn same(&self, r: &&'a str) -> bool { self@ == r@ }
    /// TRUSTED: a String equals a str of the same characters.
    #[verifier::external_body]
    fn vs_eq(&self, r: &&'a str) -> (b: bool) { self == r }
}
impl VsEq<usize> for usize {
    spec fn same(&self, r: &usize) -> bool { *self == *r }
    fn vs_eq(&self, r: &usize) -> (b: bool) { *self == *r }
}
impl<'a> VsEq<&'a DataFormat> for &'a DataFormat {
    spec fn same(&self, r: &&'a DataFormat) -> bool { **self == **r }
    fn vs_eq(&self, r: &&'a DataFormat) -> (b: bool) { *self == *r }
}
/// TRUSTED: the default table of contents has no flags.
#[verifier::external_body]
fn vs_no_toc() -> (r: ToC)
    ensures r == no_flags(),
{ unimplemented!() }
spec fn no_flags() -> ToC {
    ToC { contains_meta_data: false, contains_raw_data: false, contains_daqmx_raw_data: false, data_is_interleaved: false, big_endian: false, contains_new_object_list: false }
}
/// TRUSTED: the characters of a str are those of a String.
#[verifier::external_body]
proof fn axiom_str_string(s: &str)
    ensures exists|x: String| #[trigger] x@ == s@,
{}
proof fn lemma_named(s: &str)
    ensures string_of(s@)@ == s@,
{ axiom_str_string(s); }
/// `Iterator::fold` to a truth value: what is said of it is for a step which never gets back to true.
#[verifier::exec_allows_no_decreases_clause]
fn vs_fold<A, I: Iterator<Item = A>, F: Fn(bool, A) -> bool>(it: I, init: bool, f: F) -> (r: bool)
    requires
        IteratorSpec::obeys_prophetic_iter_laws(&it),
        forall|b: bool, a: A| #[trigger] f.requires((b, a)),
    ensures
        init && (forall|a: A| !#[trigger] f.ensures((false, a), true)) ==> {
            &&& r ==> forall|i: int| 0 <= i < IteratorSpec::remaining(&it).len() ==> f.ensures((true, #[trigger] IteratorSpec::remaining(&it)[i]), true)
            &&& !r ==> exists|i: int| 0 <= i < IteratorSpec::remaining(&it).len() && f.ensures((true, #[trigger] IteratorSpec::remaining(&it)[i]), false)
        },
{
    let ghost s = IteratorSpec::remaining(&it);
    let mut it = it;
    let mut b = init;
    let ghost mut k: int = 0;
    proof { assert(s.skip(0) =~= s); }
    loop
        invariant_except_break
            IteratorSpec::obeys_prophetic_iter_laws(&it),
            IteratorSpec::remaining(&it) == s.skip(k),
        invariant
            forall|b: bool, a: A| #[trigger] f.requires((b, a)),
            0 <= k <= s.len(),
            init && (forall|a: A| !#[trigger] f.ensures((false, a), true)) ==> {
                &&& b ==> forall|i: int| 0 <= i < k ==> f.ensures((true, #[trigger] s[i]), true)
                &&& !b ==> exists|i: int| 0 <= i < k && f.ensures((true, #[trigger] s[i]), false)
            },
        ensures k == s.len(),
    {
        match it.next() {
            None => break,
            Some(x) => {
                proof { assert(s.skip(k).drop_first() =~= s.skip(k + 1)); assert(x == s[k]); }
                let y = f(b, x);
                proof {
                    if init && (forall|a: A| !#[trigger] f.ensures((false, a), true)) {
                        if !b {
                            assert(f.ensures((false, x), y));
                            let i = choose|i: int| 0 <= i < k && f.ensures((true, #[trigger] s[i]), false);
                            assert(0 <= i < k + 1 && f.ensures((true, s[i]), false));
                        } else { assert(f.ensures((true, s[k]), y)); }
                    }
                    k = k + 1;
                }
                b = y;
            },
        }
    }
    b
}
/// `Iterator::all`
#[verifier::exec_allows_no_decreases_clause]
fn vs_all<A, I: Iterator<Item = A>, F: Fn(A) -> bool>(it: I, f: F) -> (r: bool)
    requires
        IteratorSpec::obeys_prophetic_iter_laws(&it),
        forall|a: A| #[trigger] f.requires((a,)),
    ensures
        r ==> forall|i: int| 0 <= i < IteratorSpec::remaining(&it).len() ==> f.ensures((#[trigger] IteratorSpec::remaining(&it)[i],), true),
        !r ==> exists|i: int| 0 <= i < IteratorSpec::remaining(&it).len() && f.ensures((#[trigger] IteratorSpec::remaining(&it)[i],), false),
{
    let ghost s = IteratorSpec::remaining(&it);
    let mut jt = it;
    let ghost mut k: int = 0;
    proof { assert(s.skip(0) =~= s); }
    loop
        invariant_except_break
            IteratorSpec::obeys_prophetic_iter_laws(&jt),
            IteratorSpec::remaining(&jt) == s.skip(k),
        invariant
            forall|a: A| #[trigger] f.requires((a,)),
            s == IteratorSpec::remaining(&it),
            0 <= k <= s.len(),
            forall|i: int| 0 <= i < k ==> f.ensures((#[trigger] s[i],), true),
        ensures k == s.len(),
    {
        match jt.next() {
            None => break,
            Some(x) => {
                proof { assert(s.skip(k).drop_first() =~= s.skip(k + 1)); assert(x == s[k]); }
                let y = f(x);
                proof { k = k + 1; }
                if !y { assert(f.ensures((s[k - 1],), false)); return false; }
                
            },
        }
    }
    true
}
/// The objects to be written are those which are live, in the same order.
spec fn live_is(k: Known, names: Seq<Seq<char>>) -> bool {
    &&& k.live.len() > 0
    &&& k.live.len() == names.len()
    &&& forall|i: int| 0 <= i < names.len() ==> (#[trigger] k.live[i])@ == names[i]
}
/// The index of a channel for its next block: that it is as before, if it is.
spec fn index_for(k: Known, name: Seq<char>, f: RawDataMeta) -> RawDataIndex {
    if obj_of(k.objs, string_of(name)).format == Some(f) { RawDataIndex::MatchPrevious } else { RawDataIndex::RawData(f) }
}
spec fn write_entry(k: Known, name: Seq<char>, f: RawDataMeta) -> ObjectMetaData {
    ObjectMetaData { path: string_of(name), properties: vec_of(Seq::empty()), raw_data_index: index_for(k, name, f) }
}
spec fn all_match(k: Known, names: Seq<Seq<char>>, f: RawDataMeta) -> bool {
    forall|i: int| 0 <= i < names.len() ==> index_for(k, #[trigger] names[i], f) is MatchPrevious
}
spec fn write_entries(k: Known, names: Seq<Seq<char>>, f: RawDataMeta) -> Seq<ObjectMetaData> {
    Seq::new(names.len(), |i: int| write_entry(k, names[i], f))
}
/// The metadata of a write: none if everything is as before.
spec fn write_meta(k: Known, names: Seq<Seq<char>>, f: RawDataMeta) -> Option<MetaData> {
    if live_is(k, names) && all_match(k, names, f) { None } else { Some(MetaData { objects: vec_of(write_entries(k, names, f)) }) }
}
spec fn write_toc(k: Known, names: Seq<Seq<char>>, layout: DataLayout) -> ToC {
    ToC { contains_new_object_list: !live_is(k, names), data_is_interleaved: layout is Interleaved, ..no_flags() }
}
/// The segment of a write of so many samples per channel.
spec fn write_segment_of<D: TdmsStorageType>(k: Known, names: Seq<Seq<char>>, values: Seq<D>, layout: DataLayout, big: bool) -> Segment {
    let f = of_samples::<D>(values.len() as int / names.len() as int);
    emitted(write_toc(k, names, layout), write_meta(k, names, f), Some(enc_all::<D>(values, false, values.len() as int).len()), big)
}
/// The arguments of a write which is refused.
spec fn refused<D: TdmsStorageType>(names: Seq<Seq<char>>, values: Seq<D>) -> bool {
    names.len() == 0 || values.len() == 0 || dt_size(D::NATURAL_TYPE) == 0 || values.len() % names.len() != 0
}
spec fn names_of<C>(cs: Seq<C>) -> Seq<Seq<char>> { Seq::new(cs.len(), |i: int| chars_of(cs[i])) }
spec fn names_in<'b>(o: Seq<(&'b str, DataFormat)>) -> Seq<Seq<char>> { o.map_values(|o: (&'b str, DataFormat)| o.0@) }
proof fn lemma_names_known(ix: Index)
    ensures
        known(ix).live.len() == ix.active_objects@.len(),
        forall|i: int| 0 <= i < ix.active_objects@.len() ==> #[trigger] known(ix).live[i] == ix.active_objects@[i].path,
{ }
proof fn lemma_found(ix: Index, path: &str, found: Option<&DataFormat>)
    requires
        found == match at_name(ix.objects@, path@) {
            Some(o) => match o.latest_data_format { Some(f) => Some(&f), None => None },
            None => None,
        },
    ensures
        obj_of(known(ix).objs, string_of(path@)).format == match found { Some(f) => Some(f->RawData_0), None => None },
{
    lemma_named(path);
    let s = string_of(path@);
    lemma_known_obj(ix.objects@, s);
    if ix.objects@.contains_key(s) { lemma_at_name(ix.objects@, s); }
    else { assert forall|t: String| ix.objects@.contains_key(t) implies #[trigger] t@ != path@ by { } }
}

/// The length of what is written is within what can be addressed.
spec fn write_fits<D: TdmsStorageType>(k: Known, names: Seq<Seq<char>>, values: Seq<D>) -> bool {
    meta_enc(write_meta(k, names, of_samples::<D>(values.len() as int / names.len() as int)), false).len() + enc_all::<D>(values, false, values.len() as int).len() <= usize::MAX
}
