// ---- the index
pub mod string_axioms {
    use vstd::prelude::*;
    use vstd::std_specs::btree::*;
    /// TRUSTED: strings of the same characters are equal.
    pub broadcast axiom fn axiom_string_ext(a: String, b: String)
        requires #[trigger] a@ == #[trigger] b@,
        ensures a == b;
    /// TRUSTED: strings are totally ordered, and a string and its str are ordered alike.
    pub broadcast axiom fn axiom_string_key()
        ensures #[trigger] key_obeys_cmp_spec::<String>();
    pub broadcast axiom fn axiom_str_key()
        ensures #[trigger] borrowed_key_ordering_matches::<String, str>();
    /// TRUSTED: a map with string keys is looked up by characters.
    pub broadcast axiom fn axiom_contains_str<V>(m: Map<String, V>, k: &str)
        ensures #[trigger] contains_borrowed_key::<String, V, str>(m, k) <==> exists|s: String| m.contains_key(s) && #[trigger] s@ == k@;
    pub broadcast axiom fn axiom_maps_str<V>(m: Map<String, V>, k: &str, v: V)
        ensures #[trigger] maps_borrowed_key_to_value::<String, V, str>(m, k, v) <==> exists|s: String| m.contains_key(s) && #[trigger] s@ == k@ && m[s] == v;
}
broadcast use {string_axioms::axiom_string_ext, string_axioms::axiom_string_key, string_axioms::axiom_str_key, string_axioms::axiom_contains_str, string_axioms::axiom_maps_str};
/// What a map with string keys has for a name.
spec fn at_name<V>(m: Map<String, V>, p: Seq<char>) -> Option<V> {
    if exists|s: String| m.contains_key(s) && #[trigger] s@ == p { Some(m[choose|s: String| m.contains_key(s) && #[trigger] s@ == p]) } else { None }
}
/// The objects known, by the characters of their path.
spec fn object_at(ix: Index, p: Seq<char>) -> Option<ObjectData> { at_name(ix.objects@, p) }
/// The samples of the first n locations.
spec fn stored<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, p: Seq<DataLocation>, n: int) -> Seq<D>
    decreases n,
{
    if n <= 0 { Seq::empty() } else { stored::<D>(bs, by, p, n - 1) + loc_data::<D>(bs, by, p[n - 1]) }
}
spec fn loc_data<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, l: DataLocation) -> Seq<D> {
    Seq::new(l.number_of_samples as nat, |g: int| block_sample::<D>(bs[l.data_block as int], by, l.channel_index as int, g))
}
proof fn lemma_stored_len<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, p: Seq<DataLocation>, n: int)
    requires 0 <= n <= p.len(),
    ensures stored::<D>(bs, by, p, n).len() == prefix(p, n),
    decreases n,
{
    if n > 0 { lemma_stored_len::<D>(bs, by, p, n - 1); lemma_prefix(p, 0, n - 1); }
}
/// A location is in a block which has that many samples for the channel.
spec fn loc_ok(bs: Seq<DataBlock>, l: DataLocation) -> bool {
    &&& l.data_block < bs.len()
    &&& l.channel_index < bs[l.data_block as int].channels@.len()
    &&& chunks_of(bs[l.data_block as int]) * bs[l.data_block as int].channels@[l.channel_index as int].number_of_values == l.number_of_samples
}
spec fn locs_ok(bs: Seq<DataBlock>, p: Seq<DataLocation>) -> bool {
    &&& sorted(p)
    &&& forall|j: int| 0 <= j < p.len() ==> loc_ok(bs, #[trigger] p[j])
}
/// Two channels share no place in a block.
spec fn apart(p: Seq<DataLocation>, q: Seq<DataLocation>) -> bool {
    forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < q.len() && (#[trigger] p[i]).data_block == (#[trigger] q[j]).data_block ==> p[i].channel_index != q[j].channel_index
}
/// What every index built from segments satisfies.
spec fn index_ok(ix: Index) -> bool {
    &&& forall|k: int| 0 <= k < ix.data_blocks@.len() ==> block_ok(#[trigger] ix.data_blocks@[k])
    &&& forall|s: String| #[trigger] ix.objects@.contains_key(s) ==> locs_ok(ix.data_blocks@, ix.objects@[s].data_locations@)
    &&& forall|s: String, t: String| #[trigger] ix.objects@.contains_key(s) && #[trigger] ix.objects@.contains_key(t) && s != t ==> apart(ix.objects@[s].data_locations@, ix.objects@[t].data_locations@)
}
