// ---- reading several channels
/// `collect` into a Result.
fn vs_collect_result<U, E>(it: std::vec::IntoIter<Result<U, E>>) -> (r: Result<Vec<U>, E>)
    requires IteratorSpec::obeys_prophetic_iter_laws(&it), IteratorSpec::decrease(&it) is Some,
    ensures
        r is Ok <==> forall|i: int| 0 <= i < IteratorSpec::remaining(&it).len() ==> (#[trigger] IteratorSpec::remaining(&it)[i]) is Ok,
        r is Ok ==> r->Ok_0@.len() == IteratorSpec::remaining(&it).len() && forall|i: int| 0 <= i < r->Ok_0@.len() ==> IteratorSpec::remaining(&it)[i]->Ok_0 == #[trigger] r->Ok_0@[i],
{
    let ghost s = IteratorSpec::remaining(&it);
    let mut v: Vec<U> = Vec::new();
    for x in y: it
        invariant
            y.seq() == s,
            v@.len() == y.index@,
            forall|i: int| 0 <= i < y.index@ ==> (#[trigger] s[i]) is Ok,
            forall|i: int| 0 <= i < v@.len() ==> s[i]->Ok_0 == #[trigger] v@[i],
    {
        proof { assert(x == s[y.index@]); }
        match x {
            Ok(u) => { v.push(u); },
            Err(e) => { return Err(e); },
        }
    }
    Ok(v)
}
spec fn distinct_channels<C>(cs: Seq<C>) -> bool {
    forall|i: int, j: int| 0 <= i < j < cs.len() ==> chars_of(#[trigger] cs[i]) != chars_of(#[trigger] cs[j])
}
/// What reading one channel of several leaves in its output.
#[verifier::prophetic]
spec fn output_read<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, p: Seq<DataLocation>, s: int, out: &mut [D], out2: &mut [D]) -> bool {
    final(out2)@ == final(out)@ && channel_read::<D>(bs, by, p, s, out@, out2@)
}
proof fn lemma_objects<C>(ix: Index, cs: Seq<C>, ps: Seq<&[DataLocation]>)
    requires
        index_ok(ix),
        ps.len() == cs.len(),
        distinct_channels(cs),
        forall|c: int| 0 <= c < cs.len() ==> located(ix, chars_of(cs[c]), #[trigger] ps[c]),
    ensures
        all_locs(ix, ps),
        forall|c: int, j: int| 0 <= c < ps.len() && 0 <= j < ps[c]@.len() ==> (#[trigger] ps[c]@[j]).data_block < usize::MAX,
{
    assert forall|c: int| 0 <= c < ps.len() implies locs_ok(ix.data_blocks@, #[trigger] ps[c]@) by { assert(located(ix, chars_of(cs[c]), ps[c])); lemma_object(ix, chars_of(cs[c])); }
    assert forall|c: int, j: int| 0 <= c < ps.len() && 0 <= j < ps[c]@.len() implies (#[trigger] ps[c]@[j]).data_block < usize::MAX by { assert(located(ix, chars_of(cs[c]), ps[c])); lemma_object(ix, chars_of(cs[c])); }
    assert forall|c: int, d: int| 0 <= c < d < ps.len() implies apart(#[trigger] ps[c]@, #[trigger] ps[d]@) by {
        assert(located(ix, chars_of(cs[c]), ps[c]));
        assert(located(ix, chars_of(cs[d]), ps[d]));
        let a = choose|s: String| ix.objects@.contains_key(s) && #[trigger] s@ == chars_of(cs[c]);
        let b = choose|s: String| ix.objects@.contains_key(s) && #[trigger] s@ == chars_of(cs[d]);
        assert(a != b);
        assert(apart(ix.objects@[a].data_locations@, ix.objects@[b].data_locations@));
    }
}
spec fn located(ix: Index, p: Seq<char>, l: &[DataLocation]) -> bool {
    object_at(ix, p) is Some && l@ == object_at(ix, p)->Some_0.data_locations@
}
proof fn lemma_outputs<D: TdmsStorageType, C>(ix: Index, by: Seq<u8>, cs: Seq<C>, ps: Seq<&[DataLocation]>, start: u64, ss: Seq<u64>, plan: Seq<BlockRead>, out: Ghost<Seq<&mut [D]>>, out2: Ghost<Seq<&mut [D]>>)
    requires
        all_locs(ix, ps),
        ps.len() == cs.len(),
        ss.len() == ps.len(),
        forall|c: int| 0 <= c < ss.len() ==> #[trigger] ss[c] == start,
        planned(ps, ss, plan),
        plan_runs(ix.data_blocks@, plan, ps.len() as int),
        forall|c: int| 0 <= c < cs.len() ==> located(ix, chars_of(cs[c]), #[trigger] ps[c]),
        forall|c: int| 0 <= c < cs.len() ==> executed::<D>(ix.data_blocks@, by, plan, c, plan.len() as int, #[trigger] out@[c], out2@[c]),
    ensures
        forall|c: int| 0 <= c < cs.len() ==> output_read::<D>(ix.data_blocks@, by, object_at(ix, chars_of(cs[c]))->Some_0.data_locations@, start as int, #[trigger] out@[c], out2@[c]),
{
    assert forall|c: int| 0 <= c < cs.len() implies output_read::<D>(ix.data_blocks@, by, object_at(ix, chars_of(cs[c]))->Some_0.data_locations@, start as int, #[trigger] out@[c], out2@[c]) by {
        assert(located(ix, chars_of(cs[c]), ps[c]));
        assert(executed::<D>(ix.data_blocks@, by, plan, c, plan.len() as int, out@[c], out2@[c]));
        assert(locs_ok(ix.data_blocks@, ps[c]@));
        lemma_channel_read::<D>(ix.data_blocks@, by, ps, ss, plan, c, out@[c]@, out2@[c]@);
    }
}
