// ---- what executing a plan delivers
/// The samples a block delivers for an entry of the plan.
spec fn seg_data<D: TdmsStorageType>(b: DataBlock, by: Seq<u8>, e: Option<ChannelReadPlan>) -> Seq<D> {
    Seq::new(avail(b, e) as nat, |i: int| block_sample::<D>(b, by, e->Some_0.index as int, e->Some_0.samples_to_skip + i))
}
/// The samples the first n blocks of the plan deliver for channel c.
spec fn plan_data<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, plan: Seq<BlockRead>, c: int, n: int) -> Seq<D>
    decreases n,
{
    if n <= 0 { Seq::empty() } else { plan_data::<D>(bs, by, plan, c, n - 1) + seg_data::<D>(bs[plan[n - 1].data_block as int], by, plan[n - 1].channel_indexes@[c]) }
}
proof fn lemma_plan_data<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, plan: Seq<BlockRead>, c: int, i: int, j: int)
    requires 0 <= i <= j,
    ensures
        plan_data::<D>(bs, by, plan, c, i).len() <= plan_data::<D>(bs, by, plan, c, j).len(),
        forall|x: int| 0 <= x < plan_data::<D>(bs, by, plan, c, i).len() ==> #[trigger] plan_data::<D>(bs, by, plan, c, j)[x] == plan_data::<D>(bs, by, plan, c, i)[x],
    decreases j,
{
    if i < j { lemma_plan_data::<D>(bs, by, plan, c, i, j - 1); }
}
/// A block of the plan can be read.
spec fn runs(b: DataBlock, l: BlockRead, n: int) -> bool {
    &&& block_ok(b)
    &&& bytes_of(b.channels@, b.channels@.len() as int) > 0
    &&& l.channel_indexes@.len() == n
    &&& forall|c: int| 0 <= c < n ==> serves(b, #[trigger] l.channel_indexes@[c])
    &&& forall|c: int, d: int| 0 <= c < d < n && (#[trigger] l.channel_indexes@[c]) is Some && (#[trigger] l.channel_indexes@[d]) is Some ==> l.channel_indexes@[c]->Some_0.index != l.channel_indexes@[d]->Some_0.index
}
spec fn plan_runs(bs: Seq<DataBlock>, plan: Seq<BlockRead>, n: int) -> bool {
    forall|k: int| 0 <= k < plan.len() ==> (#[trigger] plan[k]).data_block < bs.len() && runs(bs[plan[k].data_block as int], plan[k], n)
}
spec fn plan_fits(bs: Seq<DataBlock>, plan: Seq<BlockRead>, c: int) -> bool {
    forall|k: int| 0 <= k < plan.len() && (#[trigger] plan[k]).channel_indexes@[c] is Some ==> fits(bs[plan[k].data_block as int], plan[k].channel_indexes@[c]->Some_0.index as int)
}
/// An output takes the samples there are, and keeps what it holds beyond them.
spec fn takes<D>(before: Seq<D>, data: Seq<D>, after: Seq<D>) -> bool {
    &&& after.len() == before.len()
    &&& forall|i: int| 0 <= i < before.len() ==> #[trigger] after[i] == if i < data.len() { data[i] } else { before[i] }
}
/// What one block does to one output.
spec fn stepped<D: TdmsStorageType>(b: DataBlock, by: Seq<u8>, e: Option<ChannelReadPlan>, p: ChannelProgress, before: Seq<D>, after: Seq<D>) -> bool {
    &&& after.len() == before.len()
    &&& (e is Some ==> fits(b, e->Some_0.index as int)) ==> forall|i: int| 0 <= i < before.len() ==> #[trigger] after[i] ==
        if p.samples_read <= i < p.samples_read + to_read(b, e, p) { block_sample::<D>(b, by, e->Some_0.index as int, e->Some_0.samples_to_skip + (i - p.samples_read)) } else { before[i] }
    &&& e is Some && !done(p) ==> types_match::<D>(b.channels@[e->Some_0.index as int])
}
#[verifier::prophetic]
spec fn stepped_ref<D: TdmsStorageType>(b: DataBlock, by: Seq<u8>, e: Option<ChannelReadPlan>, p: ChannelProgress, out: &mut [D], out2: &mut [D]) -> bool {
    stepped::<D>(b, by, e, p, out@, out2@) && final(out2)@ == final(out)@
}
/// Where the samples of an entry of the plan lie can be read as D.
spec fn entry_typed<D: TdmsStorageType>(b: DataBlock, e: Option<ChannelReadPlan>) -> bool {
    e is Some ==> types_match::<D>(b.channels@[e->Some_0.index as int])
}
proof fn lemma_some_at<U>(o: Seq<Option<U>>)
    ensures
        forall|c: int| #![trigger o[c]] 0 <= c < o.len() && o[c] is Some ==> 0 <= nsome(o, c) < somes(o).len() && somes(o)[nsome(o, c)] == o[c]->Some_0,
        forall|k: int| 0 <= k < somes(o).len() ==> exists|c: int| 0 <= c < o.len() && o[c] == Some(#[trigger] somes(o)[k]) && #[trigger] nsome(o, c) == k,
{
    lemma_somes(o, o.len() as int);
    assert(o.take(o.len() as int) =~= o);
    assert forall|k: int| 0 <= k < somes(o).len() implies exists|c: int| 0 <= c < o.len() && o[c] == Some(#[trigger] somes(o)[k]) && #[trigger] nsome(o, c) == k by {
        let c = lemma_some_src(o, o.len() as int, k);
        assert(o[c] == Some(somes(o)[k]) && nsome(o, c) == k);
    }
}
proof fn lemma_some_src<U>(o: Seq<Option<U>>, n: int, k: int) -> (c: int)
    requires 0 <= n <= o.len(), 0 <= k < somes(o.take(n)).len(),
    ensures 0 <= c < n, o[c] == Some(somes(o.take(n))[k]), nsome(o, c) == k,
    decreases n,
{
    if n == 0 { assert(o.take(0) =~= Seq::<Option<U>>::empty()); 0 } else {
        lemma_somes(o, n);
        lemma_somes(o, n - 1);
        assert(o.take(n).drop_last() =~= o.take(n - 1));
        assert(o.take(n).last() == o[n - 1]);
        if k < somes(o.take(n - 1)).len() { lemma_some_src(o, n - 1, k) } else { n - 1 }
    }
}
proof fn lemma_nsome_mono<U>(o: Seq<Option<U>>, i: int, j: int)
    requires 0 <= i <= j <= o.len(),
    ensures nsome(o, i) <= nsome(o, j), i < j && o[i] is Some ==> nsome(o, i) < nsome(o, j),
    decreases j,
{
    if i < j { lemma_nsome_mono(o, i, j - 1); }
}
/// The outputs lent to a block make a valid request.
proof fn lemma_lents_ok<D: TdmsStorageType>(b: DataBlock, l: BlockRead, out: Seq<&mut [D]>, out2: Seq<&mut [D]>, ps: Seq<ChannelProgress>, counts: Seq<usize>, o: Seq<Option<(usize, &mut [D])>>)
    requires
        lents(l, out, out2, ps, counts, o),
        runs(b, l, ps.len() as int),
    ensures outs_ok(somes(o), b.channels@.len() as int),
{
    lemma_some_at(o);
    assert forall|k: int| 0 <= k < somes(o).len() implies (#[trigger] somes(o)[k]).0 < b.channels@.len() by {
        let c = choose|c: int| 0 <= c < o.len() && o[c] == Some(somes(o)[k]) && #[trigger] nsome(o, c) == k;
        assert(lent(l.channel_indexes@[c], out[c], out2[c], ps[c], counts[c] as int, o[c]));
        assert(serves(b, l.channel_indexes@[c]));
    }
    assert forall|j: int, k: int| 0 <= j < k < somes(o).len() implies (#[trigger] somes(o)[j]).0 != (#[trigger] somes(o)[k]).0 by {
        let c = choose|c: int| 0 <= c < o.len() && o[c] == Some(somes(o)[j]) && #[trigger] nsome(o, c) == j;
        let d = choose|d: int| 0 <= d < o.len() && o[d] == Some(somes(o)[k]) && #[trigger] nsome(o, d) == k;
        assert(lent(l.channel_indexes@[c], out[c], out2[c], ps[c], counts[c] as int, o[c]));
        assert(lent(l.channel_indexes@[d], out[d], out2[d], ps[d], counts[d] as int, o[d]));
        if d <= c { lemma_nsome_mono(o, d, c); }
        assert(c < d);
        assert(l.channel_indexes@[c] is Some && l.channel_indexes@[d] is Some);
    }
}
proof fn lemma_stepped<D: TdmsStorageType>(b: DataBlock, by: Seq<u8>, e: Option<ChannelReadPlan>, p: ChannelProgress, count: int, skip: int, out: Ghost<&mut [D]>, out2: Ghost<&mut [D]>, w: (usize, &mut [D]), w2: (usize, &mut [D]))
    requires
        e is Some,
        !done(p),
        count == to_read(b, e, p),
        skip == e->Some_0.samples_to_skip,
        out@@.len() == p.samples_target,
        lent(e, out@, out2@, p, count, Some(w)),
        out_read(b, by, skip, w, w2),
        final(w2.1)@ == w2.1@,
        types_match::<D>(b.channels@[w.0 as int]),
    ensures stepped::<D>(b, by, e, p, out@@, out2@@),
{
    let r = p.samples_read as int;
    if fits(b, w.0 as int) {
        assert forall|i: int| 0 <= i < out@@.len() implies #[trigger] out2@@[i] == (if r <= i < r + count { block_sample::<D>(b, by, w.0 as int, skip + (i - r)) } else { out@@[i] }) by {
            if r <= i < r + count {
                assert(w.1@.len() == count);
                assert(out2@@[i] == w2.1@[i - r]);
                assert(i - r + skip < block_len(b, w.0 as int));
            }
        }
    }
}

/// What executing the first n blocks of the plan did to output c.
spec fn done_to<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, plan: Seq<BlockRead>, c: int, n: int, out: Seq<D>, out2: Seq<D>) -> bool {
    &&& out2.len() == out.len()
    &&& plan_fits(bs, plan, c) ==> takes(out, plan_data::<D>(bs, by, plan, c, n), out2)
    &&& forall|k: int| 0 <= k < n && (#[trigger] plan[k]).channel_indexes@[c] is Some && plan_data::<D>(bs, by, plan, c, k).len() < out.len() ==> types_match::<D>(bs[plan[k].data_block as int].channels@[plan[k].channel_indexes@[c]->Some_0.index as int])
}
#[verifier::prophetic]
spec fn executed<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, plan: Seq<BlockRead>, c: int, n: int, out: &mut [D], out2: &mut [D]) -> bool {
    final(out2)@ == final(out)@ && done_to::<D>(bs, by, plan, c, n, out@, out2@)
}
/// The blocks of the plan are inside the bytes of the file, and hold D for every entry.
spec fn plan_typed<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, plan: Seq<BlockRead>, n: int) -> bool {
    forall|k: int| 0 <= k < plan.len() ==> {
        &&& bs[(#[trigger] plan[k]).data_block as int].start + bs[plan[k].data_block as int].length@ <= by.len()
        &&& forall|c: int| 0 <= c < n ==> entry_typed::<D>(bs[plan[k].data_block as int], #[trigger] plan[k].channel_indexes@[c])
    }
}
/// The length of an output.
spec fn room<D>(o: &&mut [D]) -> int { (*o)@.len() as int }

/// A count of samples to read is 0 where the channel has none in a chunk.
proof fn lemma_to_read(b: DataBlock, e: Option<ChannelReadPlan>, p: ChannelProgress)
    ensures e is Some && to_read(b, e, p) > 0 ==> b.channels@[e->Some_0.index as int].number_of_values >= 1,
{
    if e is Some && b.channels@[e->Some_0.index as int].number_of_values == 0 {
        assert(chunks_of(b) * b.channels@[e->Some_0.index as int].number_of_values == 0) by (nonlinear_arith) requires b.channels@[e->Some_0.index as int].number_of_values == 0;
    }
}
proof fn lemma_request<D: TdmsStorageType>(b: DataBlock, l: BlockRead, out: Seq<&mut [D]>, out2: Seq<&mut [D]>, ps: Seq<ChannelProgress>, counts: Seq<usize>, req: Seq<(usize, &mut [D])>)
    requires
        exists|o: Seq<Option<(usize, &mut [D])>>| lents(l, out, out2, ps, counts, o) && req == #[trigger] somes(o),
        runs(b, l, ps.len() as int),
        forall|c: int| 0 <= c < ps.len() ==> #[trigger] counts[c] == to_read(b, l.channel_indexes@[c], ps[c]),
    ensures
        outs_fed(b.channels@, req),
        outs_ok(req, b.channels@.len() as int),
        (forall|c: int| 0 <= c < ps.len() ==> entry_typed::<D>(b, #[trigger] l.channel_indexes@[c])) ==> forall|k: int| 0 <= k < req.len() ==> types_match::<D>(b.channels@[(#[trigger] req[k]).0 as int]),
{
    let o = choose|o: Seq<Option<(usize, &mut [D])>>| lents(l, out, out2, ps, counts, o) && req == #[trigger] somes(o);
    lemma_lents_ok(b, l, out, out2, ps, counts, o);
    lemma_some_at(o);
    assert forall|k: int| 0 <= k < req.len() && (#[trigger] req[k]).1@.len() > 0 implies b.channels@[req[k].0 as int].number_of_values >= 1 by {
        let c = choose|c: int| 0 <= c < o.len() && o[c] == Some(somes(o)[k]) && #[trigger] nsome(o, c) == k;
        assert(lent(l.channel_indexes@[c], out[c], out2[c], ps[c], counts[c] as int, o[c]));
        assert(counts[c] == to_read(b, l.channel_indexes@[c], ps[c]));
        lemma_to_read(b, l.channel_indexes@[c], ps[c]);
    }
    assert forall|k: int| 0 <= k < req.len() && (forall|c: int| 0 <= c < ps.len() ==> entry_typed::<D>(b, #[trigger] l.channel_indexes@[c])) implies types_match::<D>(b.channels@[(#[trigger] req[k]).0 as int]) by {
        let c = choose|c: int| 0 <= c < o.len() && o[c] == Some(somes(o)[k]) && #[trigger] nsome(o, c) == k;
        assert(lent(l.channel_indexes@[c], out[c], out2[c], ps[c], counts[c] as int, o[c]));
        assert(entry_typed::<D>(b, l.channel_indexes@[c]));
    }
}
spec fn no_skips(l: BlockRead) -> bool {
    forall|c: int| 0 <= c < l.channel_indexes@.len() && (#[trigger] l.channel_indexes@[c]) is Some ==> l.channel_indexes@[c]->Some_0.samples_to_skip == 0
}
proof fn lemma_block_read<D: TdmsStorageType>(b: DataBlock, by: Seq<u8>, l: BlockRead, out: Seq<&mut [D]>, out2: Seq<&mut [D]>, ps: Seq<ChannelProgress>, counts: Seq<usize>, req: Seq<(usize, &mut [D])>, req2: Seq<(usize, &mut [D])>)
    requires
        exists|o: Seq<Option<(usize, &mut [D])>>| lents(l, out, out2, ps, counts, o) && req == #[trigger] somes(o),
        no_skips(l),
        l.channel_indexes@.len() == ps.len(),
        forall|c: int| 0 <= c < ps.len() ==> #[trigger] counts[c] == to_read(b, l.channel_indexes@[c], ps[c]),
        forall|c: int| 0 <= c < ps.len() ==> out[c]@.len() == (#[trigger] ps[c]).samples_target,
        req2.len() == req.len(),
        forall|k: int| 0 <= k < req.len() ==> types_match::<D>(b.channels@[(#[trigger] req[k]).0 as int]) && out_read(b, by, 0, req[k], req2[k]),
        forall|k: int| 0 <= k < req.len() ==> final((#[trigger] req2[k]).1)@ == req2[k].1@,
    ensures forall|c: int| 0 <= c < ps.len() ==> stepped_ref::<D>(b, by, l.channel_indexes@[c], #[trigger] ps[c], out[c], out2[c]),
{
    let o = choose|o: Seq<Option<(usize, &mut [D])>>| lents(l, out, out2, ps, counts, o) && req == #[trigger] somes(o);
    lemma_some_at(o);
    assert forall|c: int| 0 <= c < ps.len() implies stepped_ref::<D>(b, by, l.channel_indexes@[c], #[trigger] ps[c], out[c], out2[c]) by {
        let e = l.channel_indexes@[c];
        assert(lent(e, out[c], out2[c], ps[c], counts[c] as int, o[c]));
        assert(counts[c] == to_read(b, e, ps[c]));
        if e is Some && !done(ps[c]) {
            let k = nsome(o, c);
            assert(req[k] == o[c]->Some_0);
            lemma_stepped::<D>(b, by, e, ps[c], counts[c] as int, 0, Ghost(out[c]), Ghost(out2[c]), req[k], req2[k]);
        }
    }
}
proof fn lemma_request_with<D: TdmsStorageType>(b: DataBlock, l: BlockRead, out: Seq<&mut [D]>, out2: Seq<&mut [D]>, ps: Seq<ChannelProgress>, counts: Seq<usize>, req: Seq<BlockReadChannelConfig<D>>)
    requires
        exists|o: Seq<Option<BlockReadChannelConfig<D>>>| lents_with(l, out, out2, ps, counts, o) && req == #[trigger] somes(o),
        runs(b, l, ps.len() as int),
        forall|c: int| 0 <= c < ps.len() ==> #[trigger] counts[c] == to_read(b, l.channel_indexes@[c], ps[c]),
    ensures
        cfgs_fed(b.channels@, req),
        cfgs_ok(req, b.channels@.len() as int),
        (forall|c: int| 0 <= c < ps.len() ==> entry_typed::<D>(b, #[trigger] l.channel_indexes@[c])) ==> forall|k: int| 0 <= k < req.len() ==> types_match::<D>(b.channels@[(#[trigger] req[k]).channel_index as int]),
{
    let o = choose|o: Seq<Option<BlockReadChannelConfig<D>>>| lents_with(l, out, out2, ps, counts, o) && req == #[trigger] somes(o);
    lemma_some_at(o);
    assert forall|k: int| 0 <= k < req.len() && (#[trigger] req[k]).output@.len() > 0 implies b.channels@[req[k].channel_index as int].number_of_values >= 1 by {
        let c = choose|c: int| 0 <= c < o.len() && o[c] == Some(somes(o)[k]) && #[trigger] nsome(o, c) == k;
        assert(lent_with(l.channel_indexes@[c], out[c], out2[c], ps[c], counts[c] as int, o[c]));
        assert(counts[c] == to_read(b, l.channel_indexes@[c], ps[c]));
        lemma_to_read(b, l.channel_indexes@[c], ps[c]);
    }
    assert forall|k: int| 0 <= k < req.len() implies (#[trigger] req[k]).channel_index < b.channels@.len() by {
        let c = choose|c: int| 0 <= c < o.len() && o[c] == Some(somes(o)[k]) && #[trigger] nsome(o, c) == k;
        assert(lent_with(l.channel_indexes@[c], out[c], out2[c], ps[c], counts[c] as int, o[c]));
        assert(serves(b, l.channel_indexes@[c]));
    }
    assert forall|j: int, k: int| 0 <= j < k < req.len() implies (#[trigger] req[j]).channel_index != (#[trigger] req[k]).channel_index by {
        let c = choose|c: int| 0 <= c < o.len() && o[c] == Some(somes(o)[j]) && #[trigger] nsome(o, c) == j;
        let d = choose|d: int| 0 <= d < o.len() && o[d] == Some(somes(o)[k]) && #[trigger] nsome(o, d) == k;
        assert(lent_with(l.channel_indexes@[c], out[c], out2[c], ps[c], counts[c] as int, o[c]));
        assert(lent_with(l.channel_indexes@[d], out[d], out2[d], ps[d], counts[d] as int, o[d]));
        if d <= c { lemma_nsome_mono(o, d, c); }
        assert(c < d);
        assert(l.channel_indexes@[c] is Some && l.channel_indexes@[d] is Some);
    }
    assert forall|k: int| 0 <= k < req.len() && (forall|c: int| 0 <= c < ps.len() ==> entry_typed::<D>(b, #[trigger] l.channel_indexes@[c])) implies types_match::<D>(b.channels@[(#[trigger] req[k]).channel_index as int]) by {
        let c = choose|c: int| 0 <= c < o.len() && o[c] == Some(somes(o)[k]) && #[trigger] nsome(o, c) == k;
        assert(lent_with(l.channel_indexes@[c], out[c], out2[c], ps[c], counts[c] as int, o[c]));
        assert(entry_typed::<D>(b, l.channel_indexes@[c]));
    }
}
proof fn lemma_block_read_with<D: TdmsStorageType>(b: DataBlock, by: Seq<u8>, l: BlockRead, out: Seq<&mut [D]>, out2: Seq<&mut [D]>, ps: Seq<ChannelProgress>, counts: Seq<usize>, req: Seq<BlockReadChannelConfig<D>>, req2: Seq<BlockReadChannelConfig<D>>)
    requires
        exists|o: Seq<Option<BlockReadChannelConfig<D>>>| lents_with(l, out, out2, ps, counts, o) && req == #[trigger] somes(o),
        l.channel_indexes@.len() == ps.len(),
        forall|c: int| 0 <= c < ps.len() ==> #[trigger] counts[c] == to_read(b, l.channel_indexes@[c], ps[c]),
        forall|c: int| 0 <= c < ps.len() ==> out[c]@.len() == (#[trigger] ps[c]).samples_target,
        req2.len() == req.len(),
        forall|k: int| 0 <= k < req.len() ==> types_match::<D>(b.channels@[(#[trigger] req[k]).channel_index as int]) && cfg_read(b, by, req[k], req2[k]),
        forall|k: int| 0 <= k < req.len() ==> final((#[trigger] req2[k]).output)@ == req2[k].output@,
    ensures forall|c: int| 0 <= c < ps.len() ==> stepped_ref::<D>(b, by, l.channel_indexes@[c], #[trigger] ps[c], out[c], out2[c]),
{
    let o = choose|o: Seq<Option<BlockReadChannelConfig<D>>>| lents_with(l, out, out2, ps, counts, o) && req == #[trigger] somes(o);
    lemma_some_at(o);
    assert forall|c: int| 0 <= c < ps.len() implies stepped_ref::<D>(b, by, l.channel_indexes@[c], #[trigger] ps[c], out[c], out2[c]) by {
        let e = l.channel_indexes@[c];
        assert(lent_with(e, out[c], out2[c], ps[c], counts[c] as int, o[c]));
        assert(counts[c] == to_read(b, e, ps[c]));
        if e is Some && !done(ps[c]) {
            let k = nsome(o, c);
            assert(req[k] == o[c]->Some_0);
            lemma_stepped::<D>(b, by, e, ps[c], counts[c] as int, e->Some_0.samples_to_skip as int, Ghost(out[c]), Ghost(out2[c]), (req[k].channel_index, req[k].output), (req2[k].channel_index, req2[k].output));
        }
    }
}
proof fn lemma_executed_step<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, pl: Seq<BlockRead>, c: int, k: int, p: ChannelProgress, out0: Ghost<&mut [D]>, out: Ghost<&mut [D]>, out2: Ghost<&mut [D]>)
    requires
        0 <= k < pl.len(),
        p.samples_target == out0@@.len(),
        p.samples_read == imin(out0@@.len() as int, plan_data::<D>(bs, by, pl, c, k).len() as int),
        executed::<D>(bs, by, pl, c, k, out0@, out@),
        stepped_ref::<D>(bs[pl[k].data_block as int], by, pl[k].channel_indexes@[c], p, out@, out2@),
    ensures
        executed::<D>(bs, by, pl, c, k + 1, out0@, out2@),
        p.samples_read + to_read(bs[pl[k].data_block as int], pl[k].channel_indexes@[c], p) == imin(out0@@.len() as int, plan_data::<D>(bs, by, pl, c, k + 1).len() as int),
{
    let b = bs[pl[k].data_block as int];
    let e = pl[k].channel_indexes@[c];
    let s = plan_data::<D>(bs, by, pl, c, k);
    let s2 = plan_data::<D>(bs, by, pl, c, k + 1);
    assert(s2 == s + seg_data::<D>(b, by, e));
    assert(seg_data::<D>(b, by, e).len() == avail(b, e));
    if plan_fits(bs, pl, c) {
        assert(e is Some ==> fits(b, e->Some_0.index as int));
        assert forall|i: int| 0 <= i < out0@@.len() implies #[trigger] out2@@[i] == (if i < s2.len() { s2[i] } else { out0@@[i] }) by {
            if i < s.len() { assert(out@@[i] == s[i]); } else { assert(out@@[i] == out0@@[i]); }
        }
    }
}
proof fn lemma_executed_all<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, pl: Seq<BlockRead>, c: int, k: int, out0: Ghost<&mut [D]>, out: Ghost<&mut [D]>)
    requires
        0 <= k <= pl.len(),
        executed::<D>(bs, by, pl, c, k, out0@, out@),
        k == pl.len() || out0@@.len() <= plan_data::<D>(bs, by, pl, c, k).len(),
    ensures executed::<D>(bs, by, pl, c, pl.len() as int, out0@, out@),
{
    lemma_plan_data::<D>(bs, by, pl, c, k, pl.len() as int);
    if plan_fits(bs, pl, c) {
        let s2 = plan_data::<D>(bs, by, pl, c, pl.len() as int);
        assert forall|i: int| 0 <= i < out0@@.len() implies #[trigger] out@@[i] == (if i < s2.len() { s2[i] } else { out0@@[i] }) by { }
    }
    assert forall|j: int| 0 <= j < pl.len() && (#[trigger] pl[j]).channel_indexes@[c] is Some && plan_data::<D>(bs, by, pl, c, j).len() < out0@@.len() implies types_match::<D>(bs[pl[j].data_block as int].channels@[pl[j].channel_indexes@[c]->Some_0.index as int]) by {
        if j >= k { lemma_plan_data::<D>(bs, by, pl, c, k, j); }
    }
}
