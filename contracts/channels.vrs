// ---- what reading channels delivers
/// The blocks of a channel store as many samples of it as the index says: holds in every contiguous block,
/// and where the channels of an interleaved block have the same number of values.
spec fn locs_fit(bs: Seq<DataBlock>, p: Seq<DataLocation>) -> bool {
    forall|j: int| 0 <= j < p.len() ==> fits(bs[(#[trigger] p[j]).data_block as int], p[j].channel_index as int)
}
/// An output after reading a channel from sample s on.
#[verifier::prophetic]
spec fn channel_read<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, p: Seq<DataLocation>, s: int, before: Seq<D>, after: Seq<D>) -> bool {
    &&& after.len() == before.len()
    &&& locs_fit(bs, p) ==> forall|i: int| 0 <= i < before.len() ==> #[trigger] after[i] == if s + i < prefix(p, p.len() as int) { stored::<D>(bs, by, p, p.len() as int)[s + i] } else { before[i] }
    &&& before.len() > 0 ==> forall|j: int| 0 <= j < p.len() && wanted(p, s, j) && prefix(p, j) < s + before.len() ==> types_match::<D>(bs[(#[trigger] p[j]).data_block as int].channels@[p[j].channel_index as int])
}
/// The channel can be read as D: its samples are of a type D takes and its blocks are inside the file.
spec fn readable<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, p: Seq<DataLocation>) -> bool {
    forall|j: int| 0 <= j < p.len() ==> types_match::<D>(bs[(#[trigger] p[j]).data_block as int].channels@[p[j].channel_index as int]) && bs[p[j].data_block as int].start + bs[p[j].data_block as int].length@ <= by.len()
}
proof fn lemma_skip_step<D>(s0: Seq<D>, seg: Seq<D>, s: int)
    requires 0 <= s,
    ensures
        s0.skip(imin(s, s0.len() as int)) + seg.skip(imin(imax(0, s - s0.len()), seg.len() as int)) == (s0 + seg).skip(imin(s, (s0 + seg).len() as int)),
{
    assert(s0.skip(imin(s, s0.len() as int)) + seg.skip(imin(imax(0, s - s0.len()), seg.len() as int)) =~= (s0 + seg).skip(imin(s, (s0 + seg).len() as int)));
}
/// The entry of a block delivers what is left of the location there after the skip.
proof fn lemma_entry_data<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, p: Seq<DataLocation>, s: int, m: int, e: Option<ChannelReadPlan>)
    requires
        0 <= m < p.len(),
        0 <= s,
        locs_ok(bs, p),
        entry_ok(p, s, p[m].data_block as int, e),
    ensures
        seg_data::<D>(bs[p[m].data_block as int], by, e) == loc_data::<D>(bs, by, p[m]).skip(imin(skip_in(p, s, m), p[m].number_of_samples as int)),
        e is Some <==> wanted(p, s, m),
{
    let d = p[m].data_block as int;
    let seg = loc_data::<D>(bs, by, p[m]);
    assert(loc_ok(bs, p[m]));
    assert forall|j: int| 0 <= j < p.len() && (#[trigger] p[j]).data_block == d implies j == m by {
        if j < m { assert(p[j].data_block < p[m].data_block); } else if m < j { assert(p[m].data_block < p[j].data_block); }
    }
    match e {
        Some(x) => {
            let j = choose|j: int| 0 <= j < p.len() && (#[trigger] p[j]).data_block == d && wanted(p, s, j) && x.index == p[j].channel_index && x.samples_to_skip == skip_in(p, s, j);
            assert(j == m);
            assert(seg_data::<D>(bs[d], by, e) =~= seg.skip(skip_in(p, s, m)));
        },
        None => {
            assert(!wanted(p, s, m));
            assert(seg_data::<D>(bs[d], by, e) =~= seg.skip(p[m].number_of_samples as int));
        },
    }
}
proof fn lemma_no_entry<D: TdmsStorageType>(b: DataBlock, by: Seq<u8>, p: Seq<DataLocation>, s: int, d: int, e: Option<ChannelReadPlan>)
    requires
        entry_ok(p, s, d, e),
        forall|j: int| 0 <= j < p.len() ==> (#[trigger] p[j]).data_block != d,
    ensures e is None, seg_data::<D>(b, by, e) == Seq::<D>::empty(),
{
    if e is Some {
        let j = choose|j: int| 0 <= j < p.len() && (#[trigger] p[j]).data_block == d && wanted(p, s, j) && e->Some_0.index == p[j].channel_index && e->Some_0.samples_to_skip == skip_in(p, s, j);
        assert(p[j].data_block != d);
    }
    assert(seg_data::<D>(b, by, e) =~= Seq::<D>::empty());
}
/// The locations and the entries of the plan before block d.
spec fn split_at(p: Seq<DataLocation>, plan: Seq<BlockRead>, d: int, m: int, k: int) -> bool {
    &&& upto(p, m, d)
    &&& 0 <= k <= plan.len()
    &&& forall|b: int| 0 <= b < k ==> (#[trigger] plan[b]).data_block < d
    &&& forall|b: int| k <= b < plan.len() ==> d <= (#[trigger] plan[b]).data_block
}
proof fn lemma_split_step(ps: Seq<&[DataLocation]>, ss: Seq<u64>, plan: Seq<BlockRead>, bs: Seq<DataBlock>, c: int, d: int, m: int, k: int) -> (r: (int, int))
    requires
        0 <= c < ps.len(),
        ss.len() == ps.len(),
        planned(ps, ss, plan),
        locs_ok(bs, ps[c]@),
        0 <= d,
        split_at(ps[c]@, plan, d, m, k),
    ensures
        split_at(ps[c]@, plan, d + 1, r.0, r.1),
        r.0 == if m < ps[c]@.len() && ps[c]@[m].data_block == d { m + 1 } else { m },
        r.1 == if k < plan.len() && plan[k].data_block == d { k + 1 } else { k },
{
    let p = ps[c]@;
    let at = m < p.len() && p[m].data_block == d;
    let pl = k < plan.len() && plan[k].data_block == d;
    assert forall|j: int| m < j < p.len() implies d + 1 <= (#[trigger] p[j]).data_block by { assert(p[m].data_block < p[j].data_block); }
    assert forall|b: int| k < b < plan.len() implies d + 1 <= (#[trigger] plan[b]).data_block by { assert(plan[k].data_block < plan[b].data_block); }
    (if at { m + 1 } else { m }, if pl { k + 1 } else { k })
}
/// One more location of the channel, in the plan if it is wanted.
proof fn lemma_one_location<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, ps: Seq<&[DataLocation]>, ss: Seq<u64>, plan: Seq<BlockRead>, c: int, d: int, m: int, k: int)
    requires
        0 <= c < ps.len(),
        ss.len() == ps.len(),
        planned(ps, ss, plan),
        locs_ok(bs, ps[c]@),
        0 <= d,
        split_at(ps[c]@, plan, d, m, k),
        m < ps[c]@.len(),
        ps[c]@[m].data_block == d,
    ensures ({
        let part = loc_data::<D>(bs, by, ps[c]@[m]).skip(imin(skip_in(ps[c]@, ss[c] as int, m), ps[c]@[m].number_of_samples as int));
        if k < plan.len() && plan[k].data_block == d { seg_data::<D>(bs[plan[k].data_block as int], by, plan[k].channel_indexes@[c]) == part } else { part == Seq::<D>::empty() }
    }),
{
    let p = ps[c]@;
    let s = ss[c] as int;
    if k < plan.len() && plan[k].data_block == d {
        assert(entries_ok(ps, ss, plan[k]));
        assert(entry_ok(p, s, d, plan[k].channel_indexes@[c]));
        lemma_entry_data::<D>(bs, by, p, s, m, plan[k].channel_indexes@[c]);
    } else {
        if wanted(p, s, m) {
            assert(has_block(plan, p[m].data_block as int));
            let b = choose|b: int| 0 <= b < plan.len() && (#[trigger] plan[b]).data_block == p[m].data_block as int;
            if b < k { assert(plan[b].data_block < d); }
            assert(false);
        }
        lemma_loc_len::<D>(bs, by, p, m);
        assert(loc_data::<D>(bs, by, p[m]).skip(imin(skip_in(p, s, m), p[m].number_of_samples as int)) =~= Seq::<D>::empty());
    }
}
proof fn lemma_loc_len<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, p: Seq<DataLocation>, m: int)
    requires 0 <= m < p.len(),
    ensures loc_data::<D>(bs, by, p[m]).len() == p[m].number_of_samples,
{}
/// The plan up to block d delivers what the channel stores up to block d.
proof fn lemma_plan_stored<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, ps: Seq<&[DataLocation]>, ss: Seq<u64>, plan: Seq<BlockRead>, c: int, d: int) -> (r: (int, int))
    requires
        0 <= c < ps.len(),
        ss.len() == ps.len(),
        planned(ps, ss, plan),
        locs_ok(bs, ps[c]@),
        0 <= d,
    ensures
        split_at(ps[c]@, plan, d, r.0, r.1),
        plan_data::<D>(bs, by, plan, c, r.1) == stored::<D>(bs, by, ps[c]@, r.0).skip(imin(ss[c] as int, prefix(ps[c]@, r.0))),
    decreases d,
{
    let p = ps[c]@;
    let s = ss[c] as int;
    if d == 0 {
        assert(stored::<D>(bs, by, p, 0).skip(0) =~= Seq::<D>::empty());
        (0, 0)
    } else {
        let (m, k) = lemma_plan_stored::<D>(bs, by, ps, ss, plan, c, d - 1);
        let (m1, k1) = lemma_split_step(ps, ss, plan, bs, c, d - 1, m, k);
        lemma_stored_step::<D>(bs, by, ps, ss, plan, c, d - 1, m, k, m1, k1);
        (m1, k1)
    }
}
proof fn lemma_stored_step<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, ps: Seq<&[DataLocation]>, ss: Seq<u64>, plan: Seq<BlockRead>, c: int, d: int, m: int, k: int, m1: int, k1: int)
    requires
        0 <= c < ps.len(),
        ss.len() == ps.len(),
        planned(ps, ss, plan),
        locs_ok(bs, ps[c]@),
        0 <= d,
        split_at(ps[c]@, plan, d, m, k),
        plan_data::<D>(bs, by, plan, c, k) == stored::<D>(bs, by, ps[c]@, m).skip(imin(ss[c] as int, prefix(ps[c]@, m))),
        m1 == if m < ps[c]@.len() && ps[c]@[m].data_block == d { m + 1 } else { m },
        k1 == if k < plan.len() && plan[k].data_block == d { k + 1 } else { k },
    ensures plan_data::<D>(bs, by, plan, c, k1) == stored::<D>(bs, by, ps[c]@, m1).skip(imin(ss[c] as int, prefix(ps[c]@, m1))),
{
    let p = ps[c]@;
    let s = ss[c] as int;
    let d0 = plan_data::<D>(bs, by, plan, c, k);
    let s0 = stored::<D>(bs, by, p, m);
    lemma_prefix(p, 0, m);
    lemma_stored_len::<D>(bs, by, p, m);
    if m1 > m {
        let seg = loc_data::<D>(bs, by, p[m]);
        lemma_stored_len::<D>(bs, by, p, m + 1);
        lemma_loc_len::<D>(bs, by, p, m);
        assert(stored::<D>(bs, by, p, m + 1) == s0 + seg);
        lemma_skip_step(s0, seg, s);
        lemma_one_location::<D>(bs, by, ps, ss, plan, c, d, m, k);
        let part = seg.skip(imin(skip_in(p, s, m), seg.len() as int));
        assert(stored::<D>(bs, by, p, m + 1).skip(imin(s, prefix(p, m + 1))) == d0 + part);
        if k1 > k { assert(plan_data::<D>(bs, by, plan, c, k + 1) == d0 + part); } else { assert(d0 + part =~= d0); }
    } else if k1 > k {
        assert forall|j: int| 0 <= j < p.len() implies (#[trigger] p[j]).data_block != d by { if j < m { assert(p[j].data_block < d); } else if m < j { assert(p[m].data_block < p[j].data_block); } }
        assert(entries_ok(ps, ss, plan[k]));
        assert(entry_ok(p, s, d, plan[k].channel_indexes@[c]));
        lemma_no_entry::<D>(bs[plan[k].data_block as int], by, p, s, d, plan[k].channel_indexes@[c]);
        assert(plan_data::<D>(bs, by, plan, c, k + 1) =~= d0);
    }
}

spec fn all_locs(ix: Index, ps: Seq<&[DataLocation]>) -> bool {
    &&& forall|k: int| 0 <= k < ix.data_blocks@.len() ==> block_ok(#[trigger] ix.data_blocks@[k])
    &&& forall|c: int| 0 <= c < ps.len() ==> locs_ok(ix.data_blocks@, #[trigger] ps[c]@)
    &&& forall|c: int, d: int| 0 <= c < d < ps.len() ==> apart(#[trigger] ps[c]@, #[trigger] ps[d]@)
}
proof fn lemma_plan_runs<D: TdmsStorageType>(ix: Index, by: Seq<u8>, ps: Seq<&[DataLocation]>, ss: Seq<u64>, plan: Seq<BlockRead>)
    requires
        all_locs(ix, ps),
        ss.len() == ps.len(),
        planned(ps, ss, plan),
    ensures
        plan_runs(ix.data_blocks@, plan, ps.len() as int),
        (forall|c: int| 0 <= c < ps.len() ==> readable::<D>(ix.data_blocks@, by, #[trigger] ps[c]@)) ==> plan_typed::<D>(ix.data_blocks@, by, plan, ps.len() as int),
{
    let bs = ix.data_blocks@;
    let n = ps.len() as int;
    assert forall|k: int, c: int| 0 <= k < plan.len() && 0 <= c < n && (#[trigger] plan[k].channel_indexes@[c]) is Some implies exists|j: int| 0 <= j < ps[c]@.len() && (#[trigger] ps[c]@[j]).data_block == plan[k].data_block && wanted(ps[c]@, ss[c] as int, j) && plan[k].channel_indexes@[c]->Some_0.index == ps[c]@[j].channel_index by {
        assert(entries_ok(ps, ss, plan[k]));
        assert(entry_ok(ps[c]@, ss[c] as int, plan[k].data_block as int, plan[k].channel_indexes@[c]));
    }
    assert forall|k: int| 0 <= k < plan.len() implies (#[trigger] plan[k]).data_block < bs.len() && runs(bs[plan[k].data_block as int], plan[k], n) by {
        assert(entries_ok(ps, ss, plan[k]) && reads_any(plan[k]));
        let c = choose|c: int| 0 <= c < plan[k].channel_indexes@.len() && #[trigger] plan[k].channel_indexes@[c] is Some;
        let j = choose|j: int| 0 <= j < ps[c]@.len() && (#[trigger] ps[c]@[j]).data_block == plan[k].data_block && wanted(ps[c]@, ss[c] as int, j) && plan[k].channel_indexes@[c]->Some_0.index == ps[c]@[j].channel_index;
        assert(loc_ok(bs, ps[c]@[j]));
        let b = bs[plan[k].data_block as int];
        assert(block_ok(b));
        lemma_bytes_of(b.channels@, 0, b.channels@.len() as int);
        assert(bytes_of(b.channels@, b.channels@.len() as int) > 0) by {
            if bytes_of(b.channels@, b.channels@.len() as int) == 0 {
                assert(chunks_of(b) == 0);
                assert(chunks_of(b) * b.channels@[ps[c]@[j].channel_index as int].number_of_values == 0);
            }
        }
        assert forall|d: int| 0 <= d < n implies serves(b, #[trigger] plan[k].channel_indexes@[d]) by {
            if plan[k].channel_indexes@[d] is Some {
                let i = choose|i: int| 0 <= i < ps[d]@.len() && (#[trigger] ps[d]@[i]).data_block == plan[k].data_block && wanted(ps[d]@, ss[d] as int, i) && plan[k].channel_indexes@[d]->Some_0.index == ps[d]@[i].channel_index;
                assert(loc_ok(bs, ps[d]@[i]));
            }
        }
        assert forall|d: int, e: int| 0 <= d < e < n && (#[trigger] plan[k].channel_indexes@[d]) is Some && (#[trigger] plan[k].channel_indexes@[e]) is Some implies plan[k].channel_indexes@[d]->Some_0.index != plan[k].channel_indexes@[e]->Some_0.index by {
            let i = choose|i: int| 0 <= i < ps[d]@.len() && (#[trigger] ps[d]@[i]).data_block == plan[k].data_block && wanted(ps[d]@, ss[d] as int, i) && plan[k].channel_indexes@[d]->Some_0.index == ps[d]@[i].channel_index;
            let h = choose|h: int| 0 <= h < ps[e]@.len() && (#[trigger] ps[e]@[h]).data_block == plan[k].data_block && wanted(ps[e]@, ss[e] as int, h) && plan[k].channel_indexes@[e]->Some_0.index == ps[e]@[h].channel_index;
            assert(apart(ps[d]@, ps[e]@));
        }
    }
    if forall|c: int| 0 <= c < n ==> readable::<D>(bs, by, #[trigger] ps[c]@) {
        assert forall|k: int| 0 <= k < plan.len() implies bs[(#[trigger] plan[k]).data_block as int].start + bs[plan[k].data_block as int].length@ <= by.len() && forall|c: int| 0 <= c < n ==> entry_typed::<D>(bs[plan[k].data_block as int], #[trigger] plan[k].channel_indexes@[c]) by {
            assert(entries_ok(ps, ss, plan[k]) && reads_any(plan[k]));
            let c = choose|c: int| 0 <= c < plan[k].channel_indexes@.len() && #[trigger] plan[k].channel_indexes@[c] is Some;
            let j = choose|j: int| 0 <= j < ps[c]@.len() && (#[trigger] ps[c]@[j]).data_block == plan[k].data_block && wanted(ps[c]@, ss[c] as int, j) && plan[k].channel_indexes@[c]->Some_0.index == ps[c]@[j].channel_index;
            assert(readable::<D>(bs, by, ps[c]@));
            assert forall|d: int| 0 <= d < n implies entry_typed::<D>(bs[plan[k].data_block as int], #[trigger] plan[k].channel_indexes@[d]) by {
                if plan[k].channel_indexes@[d] is Some {
                    let i = choose|i: int| 0 <= i < ps[d]@.len() && (#[trigger] ps[d]@[i]).data_block == plan[k].data_block && wanted(ps[d]@, ss[d] as int, i) && plan[k].channel_indexes@[d]->Some_0.index == ps[d]@[i].channel_index;
                    assert(readable::<D>(bs, by, ps[d]@));
                }
            }
        }
    }
}
/// The whole plan delivers everything the channel stores from s on.
proof fn lemma_plan_whole<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, ps: Seq<&[DataLocation]>, ss: Seq<u64>, plan: Seq<BlockRead>, c: int)
    requires
        0 <= c < ps.len(),
        ss.len() == ps.len(),
        locs_ok(bs, ps[c]@),
        planned(ps, ss, plan),
        plan_runs(bs, plan, ps.len() as int),
    ensures
        plan_data::<D>(bs, by, plan, c, plan.len() as int) == stored::<D>(bs, by, ps[c]@, ps[c]@.len() as int).skip(imin(ss[c] as int, prefix(ps[c]@, ps[c]@.len() as int))),
{
    let p = ps[c]@;
    let n = p.len() as int;
    let (m, k) = lemma_plan_stored::<D>(bs, by, ps, ss, plan, c, bs.len() as int);
    assert(m == n) by { if m < n { assert(loc_ok(bs, p[m])); } }
    assert(k == plan.len()) by { if k < plan.len() { assert(plan[k].data_block < bs.len()); } }
}
proof fn lemma_locs_fit(bs: Seq<DataBlock>, ps: Seq<&[DataLocation]>, ss: Seq<u64>, plan: Seq<BlockRead>, c: int)
    requires
        0 <= c < ps.len(),
        ss.len() == ps.len(),
        planned(ps, ss, plan),
        locs_fit(bs, ps[c]@),
    ensures plan_fits(bs, plan, c),
{
    let p = ps[c]@;
    let s = ss[c] as int;
    assert forall|b: int| 0 <= b < plan.len() && (#[trigger] plan[b]).channel_indexes@[c] is Some implies fits(bs[plan[b].data_block as int], plan[b].channel_indexes@[c]->Some_0.index as int) by {
        assert(entries_ok(ps, ss, plan[b]));
        assert(entry_ok(p, s, plan[b].data_block as int, plan[b].channel_indexes@[c]));
    }
}
proof fn lemma_channel_data<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, ps: Seq<&[DataLocation]>, ss: Seq<u64>, plan: Seq<BlockRead>, c: int, out: Seq<D>, out2: Seq<D>, i: int)
    requires
        0 <= c < ps.len(),
        locs_ok(bs, ps[c]@),
        0 <= ss[c],
        plan_data::<D>(bs, by, plan, c, plan.len() as int) == stored::<D>(bs, by, ps[c]@, ps[c]@.len() as int).skip(imin(ss[c] as int, prefix(ps[c]@, ps[c]@.len() as int))),
        plan_fits(bs, plan, c),
        done_to::<D>(bs, by, plan, c, plan.len() as int, out, out2),
        0 <= i < out.len(),
    ensures
        out2[i] == (if ss[c] + i < prefix(ps[c]@, ps[c]@.len() as int) { stored::<D>(bs, by, ps[c]@, ps[c]@.len() as int)[ss[c] + i] } else { out[i] }),
{
    let p = ps[c]@;
    let s = ss[c] as int;
    let n = p.len() as int;
    lemma_stored_len::<D>(bs, by, p, n);
    lemma_prefix(p, 0, n);
    let st = stored::<D>(bs, by, p, n);
    let pd = plan_data::<D>(bs, by, plan, c, plan.len() as int);
    assert(pd.len() == imax(0, prefix(p, n) - s));
    if s + i < prefix(p, n) { assert(pd[i] == st[s + i]); }
}
proof fn lemma_channel_types<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, ps: Seq<&[DataLocation]>, ss: Seq<u64>, plan: Seq<BlockRead>, c: int, out: Seq<D>, out2: Seq<D>, j: int)
    requires
        0 <= c < ps.len(),
        ss.len() == ps.len(),
        locs_ok(bs, ps[c]@),
        planned(ps, ss, plan),
        done_to::<D>(bs, by, plan, c, plan.len() as int, out, out2),
        out.len() > 0,
        0 <= j < ps[c]@.len(),
        wanted(ps[c]@, ss[c] as int, j),
        prefix(ps[c]@, j) < ss[c] + out.len(),
    ensures types_match::<D>(bs[ps[c]@[j].data_block as int].channels@[ps[c]@[j].channel_index as int]),
{
    let p = ps[c]@;
    let s = ss[c] as int;
    assert(has_block(plan, p[j].data_block as int));
    let b = choose|b: int| 0 <= b < plan.len() && (#[trigger] plan[b]).data_block == p[j].data_block as int;
    let (m2, k2) = lemma_plan_stored::<D>(bs, by, ps, ss, plan, c, p[j].data_block as int);
    assert(m2 == j) by { if m2 < j { assert(p[m2].data_block < p[j].data_block); } }
    assert(k2 == b) by { if k2 < b { assert(plan[k2].data_block < plan[b].data_block); } }
    lemma_stored_len::<D>(bs, by, p, j);
    lemma_prefix(p, 0, j);
    assert(plan_data::<D>(bs, by, plan, c, b).len() < out.len());
    assert(entries_ok(ps, ss, plan[b]));
    assert(entry_ok(p, s, plan[b].data_block as int, plan[b].channel_indexes@[c]));
    lemma_entry_data::<D>(bs, by, p, s, j, plan[b].channel_indexes@[c]);
    let e = plan[b].channel_indexes@[c]->Some_0;
    let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).data_block == plan[b].data_block && wanted(p, s, i) && e.index == p[i].channel_index && e.samples_to_skip == skip_in(p, s, i);
    assert(i == j) by { if i < j { assert(p[i].data_block < p[j].data_block); } else if j < i { assert(p[j].data_block < p[i].data_block); } }
}
proof fn lemma_channel_read<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, ps: Seq<&[DataLocation]>, ss: Seq<u64>, plan: Seq<BlockRead>, c: int, out: Seq<D>, out2: Seq<D>)
    requires
        0 <= c < ps.len(),
        ss.len() == ps.len(),
        locs_ok(bs, ps[c]@),
        planned(ps, ss, plan),
        plan_runs(bs, plan, ps.len() as int),
        done_to::<D>(bs, by, plan, c, plan.len() as int, out, out2),
    ensures channel_read::<D>(bs, by, ps[c]@, ss[c] as int, out, out2),
{
    let p = ps[c]@;
    let s = ss[c] as int;
    let n = p.len() as int;
    assert forall|i: int| locs_fit(bs, p) && 0 <= i < out.len() implies #[trigger] out2[i] == (if s + i < prefix(p, n) { stored::<D>(bs, by, p, n)[s + i] } else { out[i] }) by {
        lemma_plan_whole::<D>(bs, by, ps, ss, plan, c);
        lemma_locs_fit(bs, ps, ss, plan, c);
        lemma_channel_data::<D>(bs, by, ps, ss, plan, c, out, out2, i);
    }
    assert forall|j: int| out.len() > 0 && 0 <= j < p.len() && wanted(p, s, j) && prefix(p, j) < s + out.len() implies types_match::<D>(bs[(#[trigger] p[j]).data_block as int].channels@[p[j].channel_index as int]) by {
        lemma_channel_types::<D>(bs, by, ps, ss, plan, c, out, out2, j);
    }
}
/// The locations of an object of the index.
proof fn lemma_object(ix: Index, p: Seq<char>)
    requires index_ok(ix), object_at(ix, p) is Some,
    ensures
        locs_ok(ix.data_blocks@, object_at(ix, p)->Some_0.data_locations@),
        forall|j: int| 0 <= j < object_at(ix, p)->Some_0.data_locations@.len() ==> (#[trigger] object_at(ix, p)->Some_0.data_locations@[j]).data_block < usize::MAX,
{
    let s = choose|s: String| ix.objects@.contains_key(s) && #[trigger] s@ == p;
    let o = ix.objects@[s];
    assert(locs_ok(ix.data_blocks@, o.data_locations@));
    assert(ix.data_blocks.len() == ix.data_blocks@.len());
    assert forall|j: int| 0 <= j < o.data_locations@.len() implies (#[trigger] o.data_locations@[j]).data_block < usize::MAX by { assert(loc_ok(ix.data_blocks@, o.data_locations@[j])); }
}
