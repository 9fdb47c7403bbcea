/// TRUSTED: a vector takes at most isize::MAX bytes, and a RawDataMeta at least 16.
#[verifier::external_body]
proof fn axiom_metas(v: Vec<RawDataMeta>)
    ensures v@.len() <= 0x0400_0000_0000_0000,
{ }
proof fn lemma_built_offs<'a, T: TdmsStorageType>(cs: Seq<RawDataMeta>, es: Seq<RecordEntry<'a, T>>, n: int)
    requires
        0 <= n <= cs.len(),
        es.len() == cs.len(),
        !any_var(cs, cs.len() as int),
        forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).length == cs[i].number_of_values as usize && esize(es[i]) == dt_size(cs[i].data_type),
    ensures
        chunk_off(es, n) == bytes_of(cs, n),
        row_off(es, n) == width_of(cs, n),
    decreases n,
{
    if n > 0 {
        lemma_built_offs(cs, es, n - 1);
        assert(!is_var(cs[n - 1]));
        let e = es[n - 1];
        assert(e.length == cs[n - 1].number_of_values);
        assert(esize(e) * e.length == e.length * esize(e)) by (nonlinear_arith);
    }
}
proof fn lemma_width_pos(cs: Seq<RawDataMeta>, n: int)
    requires 0 <= n <= cs.len(), !any_var(cs, cs.len() as int), bytes_of(cs, n) > 0,
    ensures width_of(cs, n) > 0,
    decreases n,
{
    if n > 0 {
        let c = cs[n - 1];
        lemma_bytes_of(cs, 0, n - 1);
        assert(!is_var(c));
        if bytes_of(cs, n - 1) > 0 { lemma_width_pos(cs, n - 1); lemma_ch_bytes(c); } else {
            assert(dt_size(c.data_type) > 0) by (nonlinear_arith) requires c.number_of_values * dt_size(c.data_type) > 0, c.number_of_values >= 0;
        }
    }
}
proof fn lemma_built<'a, T: TdmsStorageType>(b: DataBlock, es: Seq<RecordEntry<'a, T>>, o0: Seq<(usize, &mut [T])>, o9: Seq<(usize, &mut [T])>)
    requires
        block_ok(b),
        bytes_of(b.channels@, b.channels@.len() as int) > 0,
        built(b.channels@, es, o0, o9),
    ensures
        plan_ok(es),
        outs_fed(b.channels@, o0) ==> fed(es),
        es.len() == b.channels@.len(),
        0 < chunk_off(es, es.len() as int) <= usize::MAX,
        0 < row_off(es, es.len() as int) <= usize::MAX,
        forall|n: int| 0 <= n <= es.len() ==> #[trigger] chunk_off(es, n) == bytes_of(b.channels@, n),
        forall|n: int| 0 <= n <= es.len() ==> #[trigger] row_off(es, n) == width_of(b.channels@, n),
{
    let cs = b.channels@;
    let n = cs.len() as int;
    assert forall|k: int| #![auto] 0 <= k <= es.len() implies chunk_off(es, k) == bytes_of(cs, k) && row_off(es, k) == width_of(cs, k) by { lemma_built_offs(cs, es, k); }
    lemma_width_pos(cs, n);
    lemma_bytes_of(cs, n, n);
    axiom_metas(b.channels);
    assert forall|i: int| outs_fed(cs, o0) && 0 <= i < es.len() && is_read(#[trigger] es[i]) && rem(es[i]).len() > 0 implies es[i].length >= 1 by {
        if picked(o0, i, o0.len() as int) {
            let k = choose|k: int| 0 <= k < o0.len() && (#[trigger] o0[k]).0 == i;
            assert(reads_into(es[o0[k].0 as int], o0[k], o9[k]));
        }
    }
    assert forall|i: int| 0 <= i < es.len() implies 0 <= esize(#[trigger] es[i]) <= 255 && (is_read(es[i]) ==> T::fixed()) by {
        lemma_ch_bytes(cs[i]);
        if is_read(es[i]) {
            if picked(o0, i, o0.len() as int) {
                let k = choose|k: int| 0 <= k < o0.len() && (#[trigger] o0[k]).0 == i;
                T::law_supported(cs[o0[k].0 as int].data_type);
            }
        }
    }
}
proof fn lemma_shape_ok<'a, T: TdmsStorageType>(b: DataBlock, es: Seq<RecordEntry<'a, T>>, es2: Seq<RecordEntry<'a, T>>)
    requires
        es.len() == b.channels@.len(),
        plan_ok(es),
        same_shape(es, es2),
        forall|n: int| 0 <= n <= es.len() ==> #[trigger] chunk_off(es, n) == bytes_of(b.channels@, n),
        forall|n: int| 0 <= n <= es.len() ==> #[trigger] row_off(es, n) == width_of(b.channels@, n),
    ensures
        plan_ok(es2),
        fed(es) ==> fed(es2),
        forall|n: int| 0 <= n <= es.len() ==> #[trigger] chunk_off(es2, n) == bytes_of(b.channels@, n),
        forall|n: int| 0 <= n <= es.len() ==> #[trigger] row_off(es2, n) == width_of(b.channels@, n),
{
    assert forall|i: int| fed(es) && 0 <= i < es2.len() && is_read(#[trigger] es2[i]) && rem(es2[i]).len() > 0 implies es2[i].length >= 1 by { assert(es[i].length == es2[i].length && is_read(es[i])); }
    assert forall|i: int| 0 <= i < es2.len() implies 0 <= esize(#[trigger] es2[i]) <= 255 && (is_read(es2[i]) ==> T::fixed()) by {
        assert(es[i].length == es2[i].length);
    }
    assert forall|n: int| 0 <= n <= es.len() implies #[trigger] chunk_off(es2, n) == bytes_of(b.channels@, n) by { lemma_same_offs(es, es2, n); assert(chunk_off(es, n) == bytes_of(b.channels@, n)); }
    assert forall|n: int| 0 <= n <= es.len() implies #[trigger] row_off(es2, n) == width_of(b.channels@, n) by { lemma_same_offs(es, es2, n); assert(row_off(es, n) == width_of(b.channels@, n)); }
}
/// What the readers of a block say about the entries of a plan, said about the outputs it was built for.
/// `es2` is the plan as built, with skips set.
proof fn lemma_out_read<'a, T: TdmsStorageType>(b: DataBlock, es: Seq<RecordEntry<'a, T>>, es2: Seq<RecordEntry<'a, T>>, o0: Seq<(usize, &mut [T])>, o9: Seq<(usize, &mut [T])>, skip: int, k: int, by: Seq<u8>)
    requires
        block_ok(b),
        bytes_of(b.channels@, b.channels@.len() as int) > 0,
        built(b.channels@, es, o0, o9),
        0 <= k < o0.len(),
        0 <= o0[k].0 < es.len(),
        same_shape(es, es2),
        eskip(es2[o0[k].0 as int]) == skip,
        b.layout is Contigious ==> contig_post(es2, b.start as int, b.length@ as int, by, b.byte_order is Big),
        b.layout is Interleaved ==> inter_post(es2, b.start as int, b.length@ as int, by, b.byte_order is Big),
    ensures out_read(b, by, skip, o0[k], o9[k]),
{
    lemma_built(b, es, o0, o9);
    lemma_shape_ok(b, es, es2);
    let c = o0[k].0 as int;
    assert(es[c].length == es2[c].length);
    let e = es2[c];
    let cs = b.channels@;
    assert(reads_into(es[c], o0[k], o9[k]));
    T::law_supported(cs[c].data_type);
    assert(esize(e) == T::SIZE_BYTES);
    assert(chunk_off(es2, c) == bytes_of(cs, c) && row_off(es2, c) == width_of(cs, c));
    assert(chunk_off(es2, es2.len() as int) == bytes_of(cs, cs.len() as int) && row_off(es2, es2.len() as int) == width_of(cs, cs.len() as int));
    assert forall|i: int| 0 <= i < o0[k].1@.len() implies #[trigger] o9[k].1@[i] == if i + skip < block_len(b, c) { block_sample::<T>(b, by, c, i + skip) } else { o0[k].1@[i] } by {
        let cell = rem(es[c])[i];
        assert(cell == rem(e)[i]);
        assert(*cell == o0[k].1@[i] && *final(cell) == o9[k].1@[i]);
        if b.layout is Contigious {
            assert(contig_cell(e, i, b.start as int, b.length@ as int / bytes_of(cs, cs.len() as int), bytes_of(cs, cs.len() as int), bytes_of(cs, c), by, b.byte_order is Big));
        } else {
            assert(inter_cell(e, i, b.start as int, b.length@ as int / width_of(cs, cs.len() as int), width_of(cs, cs.len() as int), width_of(cs, c), by, b.byte_order is Big));
        }
    }
}
/// The output of a configuration, lent.
#[verifier::prophetic]
spec fn cfg_ref<D: TdmsStorageType>(o: BlockReadChannelConfig<D>, o2: BlockReadChannelConfig<D>, r: (usize, &mut [D])) -> bool {
    &&& r.0 == o.channel_index
    &&& r.1@ == o.output@
    &&& o2.channel_index == o.channel_index
    &&& o2.samples_to_skip == o.samples_to_skip
    &&& final(r.1)@ == o2.output@
    &&& final(o2.output)@ == final(o.output)@
}

#[verifier::prophetic]
spec fn cfg_refs<T: TdmsStorageType>(c0: Seq<BlockReadChannelConfig<T>>, c9: Seq<BlockReadChannelConfig<T>>, o0: Seq<(usize, &mut [T])>) -> bool {
    &&& o0.len() == c0.len()
    &&& c9.len() == c0.len()
    &&& forall|k: int| 0 <= k < c0.len() ==> cfg_ref(c0[k], c9[k], #[trigger] o0[k])
}
#[verifier::prophetic]
spec fn same_shape<'a, T: TdmsStorageType>(a: Seq<RecordEntry<'a, T>>, b: Seq<RecordEntry<'a, T>>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).length == b[i].length && esize(a[i]) == esize(b[i]) && is_read(a[i]) == is_read(b[i]) && rem(a[i]) == rem(b[i])
}

/// `&mut s[..]`
fn vs_slice_mut<'a, T>(s: &'a mut [T]) -> (r: &'a mut [T])
    ensures r@ == old(s)@, final(s)@ == final(r)@,
{ s }
