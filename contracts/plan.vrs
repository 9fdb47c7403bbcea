// ---- the plan of a read
/// Samples of location j to pass over when the first s samples of the channel are.
spec fn skip_in(p: Seq<DataLocation>, s: int, j: int) -> int {
    if s > prefix(p, j) { s - prefix(p, j) } else { 0 }
}
/// Location j has samples to read.
spec fn wanted(p: Seq<DataLocation>, s: int, j: int) -> bool {
    skip_in(p, s, j) < p[j].number_of_samples
}
/// What the plan says of a channel for the block d.
spec fn entry_ok(p: Seq<DataLocation>, s: int, d: int, e: Option<ChannelReadPlan>) -> bool {
    match e {
        Some(x) => exists|j: int| 0 <= j < p.len() && (#[trigger] p[j]).data_block == d && wanted(p, s, j) && x.index == p[j].channel_index && x.samples_to_skip == skip_in(p, s, j),
        None => forall|j: int| 0 <= j < p.len() && (#[trigger] p[j]).data_block == d ==> !wanted(p, s, j),
    }
}
spec fn entries_ok(ps: Seq<&[DataLocation]>, ss: Seq<u64>, b: BlockRead) -> bool {
    &&& b.channel_indexes@.len() == ps.len()
    &&& forall|c: int| 0 <= c < ps.len() ==> entry_ok(ps[c]@, ss[c] as int, b.data_block as int, #[trigger] b.channel_indexes@[c])
}
spec fn reads_any(b: BlockRead) -> bool {
    exists|c: int| 0 <= c < b.channel_indexes@.len() && #[trigger] b.channel_indexes@[c] is Some
}
spec fn has_block(bs: Seq<BlockRead>, d: int) -> bool {
    exists|b: int| 0 <= b < bs.len() && (#[trigger] bs[b]).data_block == d
}
/// The blocks visit, in order, every wanted location and nothing else.
spec fn planned(ps: Seq<&[DataLocation]>, ss: Seq<u64>, bs: Seq<BlockRead>) -> bool {
    &&& forall|a: int, b: int| 0 <= a < b < bs.len() ==> (#[trigger] bs[a]).data_block < (#[trigger] bs[b]).data_block
    &&& forall|b: int| 0 <= b < bs.len() ==> entries_ok(ps, ss, #[trigger] bs[b]) && reads_any(bs[b])
    &&& forall|c: int, j: int| 0 <= c < ps.len() && 0 <= j < ps[c]@.len() && wanted(ps[c]@, ss[c] as int, j) ==> has_block(bs, (#[trigger] ps[c]@[j]).data_block as int)
}
/// The first n locations are in blocks before d, the others are not.
spec fn upto(p: Seq<DataLocation>, n: int, d: int) -> bool {
    &&& 0 <= n <= p.len()
    &&& forall|j: int| 0 <= j < n ==> (#[trigger] p[j]).data_block < d
    &&& forall|j: int| n <= j < p.len() ==> d <= (#[trigger] p[j]).data_block
}
spec fn left(ps: Seq<&[DataLocation]>, ns: Seq<usize>, k: int) -> int
    decreases k,
{
    if k <= 0 { 0 } else { left(ps, ns, k - 1) + ps[k - 1]@.len() - ns[k - 1] }
}
proof fn lemma_left(ps: Seq<&[DataLocation]>, a: Seq<usize>, b: Seq<usize>, k: int)
    requires
        0 <= k <= ps.len(),
        a.len() == ps.len(),
        b.len() == ps.len(),
        forall|c: int| 0 <= c < ps.len() ==> #[trigger] a[c] <= b[c] <= ps[c]@.len(),
    ensures
        0 <= left(ps, b, k) <= left(ps, a, k),
        (exists|c: int| 0 <= c < k && #[trigger] a[c] < b[c]) ==> left(ps, b, k) < left(ps, a, k),
    decreases k,
{
    if k > 0 { lemma_left(ps, a, b, k - 1); assert(a[k - 1] <= b[k - 1]); }
}

proof fn lemma_candidates(ps: Seq<&[DataLocation]>, ns: Seq<usize>, cand: Seq<usize>)
    requires
        ns.len() == ps.len(),
        exists|o: Seq<Option<usize>>| cand == #[trigger] somes(o) && o.len() == ps.len() && forall|c: int| 0 <= c < o.len() ==> #[trigger] o[c] == if ns[c] < ps[c]@.len() { Some(ps[c]@[ns[c] as int].data_block) } else { None },
    ensures
        forall|c: int| 0 <= c < ps.len() && #[trigger] ns[c] < ps[c]@.len() ==> cand.contains(ps[c]@[ns[c] as int].data_block),
        forall|x: usize| #[trigger] cand.contains(x) ==> exists|c: int| 0 <= c < ps.len() && #[trigger] ns[c] < ps[c]@.len() && x == ps[c]@[ns[c] as int].data_block,
{
    let o = choose|o: Seq<Option<usize>>| cand == #[trigger] somes(o) && o.len() == ps.len() && forall|c: int| 0 <= c < o.len() ==> #[trigger] o[c] == if ns[c] < ps[c]@.len() { Some(ps[c]@[ns[c] as int].data_block) } else { None };
    lemma_somes_all(o);
    assert forall|c: int| 0 <= c < ps.len() && #[trigger] ns[c] < ps[c]@.len() implies cand.contains(ps[c]@[ns[c] as int].data_block) by { assert(o[c] is Some); }
    assert forall|x: usize| #[trigger] cand.contains(x) implies exists|c: int| 0 <= c < ps.len() && #[trigger] ns[c] < ps[c]@.len() && x == ps[c]@[ns[c] as int].data_block by {
        let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == Some(x);
        assert(ns[i] < ps[i]@.len());
    }
}
/// One channel passes the block nb.
proof fn lemma_step(p: Seq<DataLocation>, s: int, g: int, d: int, nb: int)
    requires
        sorted(p),
        upto(p, g, d),
        d <= nb,
        forall|j: int| g <= j < p.len() ==> nb <= (#[trigger] p[j]).data_block,
        0 <= s,
    ensures
        g < p.len() && p[g].data_block == nb ==> upto(p, g + 1, nb + 1) && skip_in(p, s, g + 1) == if skip_in(p, s, g) > p[g].number_of_samples { skip_in(p, s, g) - p[g].number_of_samples } else { 0 },
        g < p.len() && p[g].data_block == nb ==> forall|j: int| 0 <= j < p.len() && (#[trigger] p[j]).data_block == nb ==> j == g,
        !(g < p.len() && p[g].data_block == nb) ==> upto(p, g, nb + 1) && forall|j: int| 0 <= j < p.len() ==> (#[trigger] p[j]).data_block != nb,
{
    if g < p.len() {
        lemma_prefix(p, 0, g);
        assert forall|j: int| g < j < p.len() implies nb < (#[trigger] p[j]).data_block by { assert(p[g].data_block < p[j].data_block); }
    }
}
proof fn lemma_planned_step(ps: Seq<&[DataLocation]>, ss: Seq<u64>, n0: Seq<usize>, n1: Seq<usize>, b0: Seq<BlockRead>, b1: Seq<BlockRead>, d: int, nb: int)
    requires
        n0.len() == ps.len(),
        n1.len() == ps.len(),
        ss.len() == ps.len(),
        forall|c: int| 0 <= c < ps.len() ==> upto(ps[c]@, #[trigger] n0[c] as int, d) && n0[c] <= n1[c] <= n0[c] + 1,
        forall|c: int| 0 <= c < ps.len() ==> upto(ps[c]@, #[trigger] n1[c] as int, nb + 1),
        forall|c: int, j: int| 0 <= c < ps.len() && 0 <= j < n0[c] && wanted(ps[c]@, ss[c] as int, j) ==> has_block(b0, (#[trigger] ps[c]@[j]).data_block as int),
        forall|c: int, j: int| 0 <= c < ps.len() && n0[c] <= j < ps[c]@.len() ==> nb <= (#[trigger] ps[c]@[j]).data_block,
        b1 == b0 || (b1.len() == b0.len() + 1 && b1.drop_last() == b0 && b1.last().data_block == nb),
        b1 == b0 ==> forall|c: int, j: int| 0 <= c < ps.len() && 0 <= j < ps[c]@.len() && (#[trigger] ps[c]@[j]).data_block == nb ==> !wanted(ps[c]@, ss[c] as int, j),
    ensures
        forall|c: int, j: int| 0 <= c < ps.len() && 0 <= j < n1[c] && wanted(ps[c]@, ss[c] as int, j) ==> has_block(b1, (#[trigger] ps[c]@[j]).data_block as int),
{
    assert forall|c: int, j: int| 0 <= c < ps.len() && 0 <= j < n1[c] && wanted(ps[c]@, ss[c] as int, j) implies has_block(b1, (#[trigger] ps[c]@[j]).data_block as int) by {
        if j < n0[c] {
            assert(has_block(b0, ps[c]@[j].data_block as int));
            let b = choose|b: int| 0 <= b < b0.len() && (#[trigger] b0[b]).data_block == ps[c]@[j].data_block as int;
            assert(b1[b] == b0[b]);
        } else {
            assert(upto(ps[c]@, n1[c] as int, nb + 1));
            assert(ps[c]@[j].data_block == nb);
            assert(b1[b1.len() - 1].data_block == nb);
        }
    }
}
