// ---- R01, R02, R03, L01: what reading from an opened file gives
/// The channels of an interleaved block have as many samples each.
spec fn even(bs: Seq<DataBlock>) -> bool {
    forall|k: int| 0 <= k < bs.len() && (#[trigger] bs[k]).layout == DataLayout::Interleaved ==> one_length(bs[k].channels@)
}
spec fn one_length(cs: Seq<RawDataMeta>) -> bool {
    exists|m: int| 0 <= m && #[trigger] all_length(cs, m)
}
spec fn all_length(cs: Seq<RawDataMeta>, m: int) -> bool {
    forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).number_of_values == m
}
/// The samples the file has of a channel, in the order of the file.
spec fn channel_samples<D: TdmsStorageType>(ix: Index, by: Seq<u8>, p: Seq<char>) -> Seq<D> {
    match object_at(ix, p) {
        Some(o) => stored::<D>(ix.data_blocks@, by, o.data_locations@, o.data_locations@.len() as int),
        None => Seq::empty(),
    }
}
/// A channel of samples of type D in a file whose raw data is complete.
spec fn channel_of<D: TdmsStorageType>(ix: Index, by: Seq<u8>, p: Seq<char>) -> bool {
    &&& index_ok(ix)
    &&& even(ix.data_blocks@)
    &&& object_at(ix, p) is Some
    &&& readable::<D>(ix.data_blocks@, by, object_at(ix, p)->Some_0.data_locations@)
}
/// What `read_channel_from` says of its output, see its contract.
#[verifier::prophetic]
spec fn read_from_channel<D: TdmsStorageType>(ix: Index, by: Seq<u8>, p: Seq<char>, s: int, before: Seq<D>, after: Seq<D>) -> bool {
    channel_read::<D>(ix.data_blocks@, by, object_at(ix, p)->Some_0.data_locations@, s, before, after)
}
proof fn lemma_channel_fits<D: TdmsStorageType>(ix: Index, by: Seq<u8>, p: Seq<char>)
    requires channel_of::<D>(ix, by, p),
    ensures locs_fit(ix.data_blocks@, object_at(ix, p)->Some_0.data_locations@),
{
    let bs = ix.data_blocks@;
    let ls = object_at(ix, p)->Some_0.data_locations@;
    lemma_object(ix, p);
    assert forall|j: int| 0 <= j < ls.len() implies fits(bs[(#[trigger] ls[j]).data_block as int], ls[j].channel_index as int) by {
        let b = bs[ls[j].data_block as int];
        let ch = ls[j].channel_index as int;
        assert(loc_ok(bs, ls[j]));
        assert(block_ok(b));
        match b.layout {
            DataLayout::Contigious => lemma_fits_contiguous(b, ch),
            DataLayout::Interleaved => {
                let m = choose|m: int| 0 <= m && #[trigger] all_length(b.channels@, m);
                D::law_supported(b.channels@[ch].data_type);
                assert(dt_size(b.channels@[ch].data_type) != 0);
                lemma_bytes_of(b.channels@, ch, b.channels@.len() as int);
                lemma_ch_bytes(b.channels@[ch]);
                lemma_fits_interleaved(b, ch, m);
            },
        }
    }
}
/// R01: a read from sample s on gives the samples stored there, as many as there are or are asked for, and leaves the rest of the
/// output alone; it succeeds on a healthy stream, also with a start at or behind the end.
proof fn theorem_window<D: TdmsStorageType>(ix: Index, by: Seq<u8>, p: Seq<char>, s: int, before: Seq<D>, after: Seq<D>)
    requires
        channel_of::<D>(ix, by, p),
        0 <= s,
        read_from_channel(ix, by, p, s, before, after),
    ensures
        after.len() == before.len(),
        forall|i: int| 0 <= i < before.len() ==> #[trigger] after[i] == if s + i < channel_samples::<D>(ix, by, p).len() { channel_samples::<D>(ix, by, p)[s + i] } else { before[i] },
        s >= channel_samples::<D>(ix, by, p).len() ==> after == before,
{
    let ls = object_at(ix, p)->Some_0.data_locations@;
    lemma_channel_fits::<D>(ix, by, p);
    lemma_stored_len::<D>(ix.data_blocks@, by, ls, ls.len() as int);
    if s >= channel_samples::<D>(ix, by, p).len() { assert(after =~= before); }
}
/// R02: a channel read with others gets what it gets when it is read alone.
proof fn theorem_together<D: TdmsStorageType>(ix: Index, by: Seq<u8>, p: Seq<char>, s: int, out: Ghost<&mut [D]>, out2: Ghost<&mut [D]>, alone: Seq<D>)
    requires
        channel_of::<D>(ix, by, p),
        0 <= s,
        output_read::<D>(ix.data_blocks@, by, object_at(ix, p)->Some_0.data_locations@, s, out@, out2@),
        read_from_channel(ix, by, p, s, out@@, alone),
    ensures
        out2@@ == alone,
        final(out2@)@ == final(out@)@,
{
    lemma_channel_fits::<D>(ix, by, p);
    assert(out2@@ =~= alone);
}
/// R03: the reported length (see the contract of `channel_length`) is the number of samples, and a large enough read delivers exactly these.
proof fn theorem_length<D: TdmsStorageType>(ix: Index, by: Seq<u8>, p: Seq<char>, before: Seq<D>, after: Seq<D>)
    requires
        channel_of::<D>(ix, by, p),
        read_from_channel(ix, by, p, 0, before, after),
    ensures ({
        let ls = object_at(ix, p)->Some_0.data_locations@;
        let n = prefix(ls, ls.len() as int);
        &&& channel_samples::<D>(ix, by, p).len() == n
        &&& before.len() >= n ==> after == channel_samples::<D>(ix, by, p) + before.skip(n)
        &&& ls.len() == 0 ==> n == 0
    }),
{
    let ls = object_at(ix, p)->Some_0.data_locations@;
    theorem_window::<D>(ix, by, p, 0, before, after);
    lemma_stored_len::<D>(ix.data_blocks@, by, ls, ls.len() as int);
    lemma_prefix(ls, 0, ls.len() as int);
    let n = prefix(ls, ls.len() as int);
    if before.len() >= n { assert(after =~= channel_samples::<D>(ix, by, p) + before.skip(n)); }
}
/// The first n locations hold the given samples: each is stored in its place by the layout of its block, in the byte order of its block.
spec fn holds<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, p: Seq<DataLocation>, n: int, vs: Seq<D>) -> bool {
    &&& vs.len() == prefix(p, n)
    &&& forall|j: int, g: int| 0 <= j < n && 0 <= g < p[j].number_of_samples ==> #[trigger] held::<D>(bs, by, p[j], g, vs[prefix(p, j) + g])
}
spec fn held<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, l: DataLocation, g: int, v: D) -> bool {
    let b = bs[l.data_block as int];
    starts(D::enc(v, b.byte_order is Big), by.skip(block_pos(b, l.channel_index as int, g)))
}
proof fn lemma_held<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, l: DataLocation, g: int, v: D)
    requires held(bs, by, l, g, v), D::stored_as_is(v),
    ensures block_sample::<D>(bs[l.data_block as int], by, l.channel_index as int, g) == v,
{
    let b = bs[l.data_block as int];
    let big = b.byte_order is Big;
    let e = D::enc(v, big);
    D::law_stored(v, Seq::empty(), big);
    assert(e + Seq::<u8>::empty() =~= e);
    D::law_local(e, by.skip(block_pos(b, l.channel_index as int, g)), big);
}
proof fn lemma_holds<D: TdmsStorageType>(bs: Seq<DataBlock>, by: Seq<u8>, p: Seq<DataLocation>, n: int, vs: Seq<D>)
    requires
        0 <= n <= p.len(),
        holds(bs, by, p, n, vs),
        forall|i: int| 0 <= i < vs.len() ==> D::stored_as_is(#[trigger] vs[i]),
    ensures stored::<D>(bs, by, p, n) == vs,
    decreases n,
{
    if n > 0 {
        let k = prefix(p, n - 1);
        lemma_prefix(p, 0, n - 1);
        let us = vs.take(k);
        assert forall|j: int, g: int| 0 <= j < n - 1 && 0 <= g < p[j].number_of_samples implies #[trigger] held::<D>(bs, by, p[j], g, us[prefix(p, j) + g]) by {
            lemma_prefix(p, 0, j);
            lemma_prefix(p, j + 1, n - 1);
            assert(prefix(p, j + 1) == prefix(p, j) + p[j].number_of_samples);
            assert(us[prefix(p, j) + g] == vs[prefix(p, j) + g]);
        }
        assert forall|i: int| 0 <= i < us.len() implies D::stored_as_is(#[trigger] us[i]) by { assert(us[i] == vs[i]); }
        lemma_holds::<D>(bs, by, p, n - 1, us);
        let l = p[n - 1];
        assert forall|g: int| 0 <= g < l.number_of_samples implies #[trigger] loc_data::<D>(bs, by, l)[g] == vs[k + g] by {
            assert(held::<D>(bs, by, p[n - 1], g, vs[prefix(p, n - 1) + g]));
            lemma_held::<D>(bs, by, l, g, vs[k + g]);
        }
        assert(stored::<D>(bs, by, p, n) =~= vs);
    } else {
        assert(stored::<D>(bs, by, p, n) =~= vs);
    }
}
/// L01: two files which hold the same samples of a channel, each in whatever byte orders, layouts, chunks and segments, read alike.
proof fn theorem_layouts<D: TdmsStorageType>(ix: Index, by: Seq<u8>, jx: Index, cy: Seq<u8>, p: Seq<char>, vs: Seq<D>)
    requires
        channel_of::<D>(ix, by, p),
        channel_of::<D>(jx, cy, p),
        forall|i: int| 0 <= i < vs.len() ==> D::stored_as_is(#[trigger] vs[i]),
        holds(ix.data_blocks@, by, object_at(ix, p)->Some_0.data_locations@, object_at(ix, p)->Some_0.data_locations@.len() as int, vs),
        holds(jx.data_blocks@, cy, object_at(jx, p)->Some_0.data_locations@, object_at(jx, p)->Some_0.data_locations@.len() as int, vs),
    ensures
        channel_samples::<D>(ix, by, p) == vs,
        channel_samples::<D>(jx, cy, p) == vs,
{
    let a = object_at(ix, p)->Some_0.data_locations@;
    let c = object_at(jx, p)->Some_0.data_locations@;
    lemma_holds::<D>(ix.data_blocks@, by, a, a.len() as int, vs);
    lemma_holds::<D>(jx.data_blocks@, cy, c, c.len() as int, vs);
}
