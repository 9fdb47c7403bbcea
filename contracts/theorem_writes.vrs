// ---- what is emitted, what is refused, what is kept
/// H01: the header of an emitted segment: the tag, the flags (always least significant byte first), the version, the length of what
/// follows the header, the length of the metadata; then the metadata, then the data, and nothing else.
proof fn theorem_header(s: Segment, data: Seq<u8>)
    ensures
        ({
            let b = seg_enc(s, data);
            let big = s.toc.big_endian;
            let m = meta_enc(s.meta_data, big);
            &&& b.len() == 28 + m.len() + data.len()
            &&& b.subrange(0, 4) == seq![0x54u8, 0x44, 0x53, 0x6D]
            &&& b.subrange(4, 8) == bytes_u32(toc_bits(s.toc))
            &&& b.subrange(8, 12) == order(bytes_u32(4713), big)
            &&& b.subrange(12, 20) == order(bytes_u64(s.next_segment_offset), big)
            &&& b.subrange(20, 28) == order(bytes_u64(s.raw_data_offset), big)
            &&& b.subrange(28, 28 + m.len() as int) == m
            &&& b.skip(28 + m.len() as int) == data
        }),
{
    let big = s.toc.big_endian;
    let t = ToC::enc(s.toc, big);
    let v = <u32 as TdmsStorageType>::enc(4713, big);
    let n = <u64 as TdmsStorageType>::enc(s.next_segment_offset, big);
    let w = <u64 as TdmsStorageType>::enc(s.raw_data_offset, big);
    let m = meta_enc(s.meta_data, big);
    let b = seg_enc(s, data);
    lemma_lead_in(s);
    lemma_toc_len(s.toc, big);
    const_SIZE_BYTES_u32();
    const_SIZE_BYTES_u64();
    <u32 as TdmsStorageType>::law_stored(4713, Seq::empty(), big);
    <u64 as TdmsStorageType>::law_stored(s.next_segment_offset, Seq::empty(), big);
    <u64 as TdmsStorageType>::law_stored(s.raw_data_offset, Seq::empty(), big);
    assert(tag() =~= seq![0x54u8, 0x44, 0x53, 0x6D]);
    assert(b.subrange(0, 4) =~= tag());
    assert(b.subrange(4, 8) =~= t);
    assert(b.subrange(8, 12) =~= v);
    assert(b.subrange(12, 20) =~= n);
    assert(b.subrange(20, 28) =~= w);
    assert(b.subrange(28, 28 + m.len() as int) =~= m);
    assert(b.skip(28 + m.len() as int) =~= data);
}
/// H01: the flags of the segment of a write say what is in it.
proof fn theorem_flags<D: TdmsStorageType>(k: Known, names: Seq<Seq<char>>, values: Seq<D>, layout: DataLayout, big: bool)
    ensures
        ({
            let s = write_segment_of::<D>(k, names, values, layout, big);
            &&& bit_at(toc_bits(s.toc), 1) == (s.meta_data is Some)
            &&& bit_at(toc_bits(s.toc), 2) == !live_is(k, names)
            &&& bit_at(toc_bits(s.toc), 3)
            &&& bit_at(toc_bits(s.toc), 5) == (layout is Interleaved)
            &&& bit_at(toc_bits(s.toc), 6) == big
            &&& forall|i: u32| i < 32 && i != 1 && i != 2 && i != 3 && i != 5 && i != 6 ==> !#[trigger] bit_at(toc_bits(s.toc), i)
        }),
{
    let t = write_segment_of::<D>(k, names, values, layout, big).toc;
    assert forall|i: u32| i < 32 && i != 1 && i != 2 && i != 3 && i != 5 && i != 6 implies !#[trigger] bit_at(toc_bits(t), i) by { lemma_toc_bit(t, i); }
    lemma_toc_bit(t, 1);
    lemma_toc_bit(t, 2);
    lemma_toc_bit(t, 3);
    lemma_toc_bit(t, 5);
    lemma_toc_bit(t, 6);
}
/// H01: a segment which sets properties has metadata, no data, and leaves the list of objects as it is.
proof fn theorem_flags_props(path: Seq<char>, ps: Seq<(&str, PropertyValue)>, big: bool)
    ensures
        ({
            let s = props_segment(path, ps, big);
            &&& s.meta_data is Some
            &&& s.next_segment_offset == s.raw_data_offset
            &&& forall|i: u32| i < 32 ==> #[trigger] bit_at(toc_bits(s.toc), i) == (i == 1 || i == 6 && big)
        }),
{
    let t = props_segment(path, ps, big).toc;
    assert forall|i: u32| i < 32 implies #[trigger] bit_at(toc_bits(t), i) == (i == 1 || i == 6 && big) by { lemma_toc_bit(t, i); }
}
/// H01: metadata without an object list continues the list before it: a write which leaves it out has the very objects which are live.
proof fn theorem_no_metadata<D: TdmsStorageType>(k: Known, names: Seq<Seq<char>>, values: Seq<D>, layout: DataLayout, big: bool)
    requires write_segment_of::<D>(k, names, values, layout, big).meta_data is None,
    ensures
        k.live.len() == names.len(),
        forall|i: int| 0 <= i < names.len() ==> (#[trigger] k.live[i])@ == names[i] && obj_of(k.objs, k.live[i]).format == Some(of_samples::<D>(values.len() as int / names.len() as int)),
{
    let f = of_samples::<D>(values.len() as int / names.len() as int);
    assert forall|i: int| 0 <= i < names.len() implies (#[trigger] k.live[i])@ == names[i] && obj_of(k.objs, k.live[i]).format == Some(f) by {
        assert(index_for(k, names[i], f) is MatchPrevious);
        lemma_string_of(k.live[i]);
    }
}
/// E01: what is refused is a write to no channel, one of no value, one of values which cannot be shared equally, and one of a type whose samples have no size.
proof fn theorem_refused<D: TdmsStorageType>(names: Seq<Seq<char>>, values: Seq<D>)
    ensures
        refused::<D>(names, values) <==> {
            ||| names.len() == 0
            ||| values.len() == 0
            ||| names.len() > 0 && values.len() % names.len() != 0
            ||| dt_size(D::NATURAL_TYPE) == 0
        },
        !refused::<D>(names, values) ==> values.len() == names.len() * (values.len() as int / names.len() as int) && values.len() as int / names.len() as int > 0,
{
    if !refused::<D>(names, values) {
        lemma_shares(names.len() as int, values.len() as int / names.len() as int, values.len() as int, 1);
    }
}
/// E01: a call which is refused leaves the file, and all that is read from it, as it was.
proof fn theorem_refusal_kept<E: TdmsStorageType>(x: FileState, y: FileState, p: String)
    requires
        fine(x),
        y.ix == x.ix,
        y.b == x.b,
    ensures
        fine(y),
        samples_in::<E>(y, p) == samples_in::<E>(x, p),
{ }
/// F01: when what was put out has landed, a file opened from it has every object, property and sample of the session.
proof fn theorem_synced<D: TdmsStorageType>(x: FileState, landed: Seq<u8>, jx: Index, p: String)
    requires
        fine(x),
        landed == x.b,
        scan(landed, nothing()) == Some(known(jx)),
    ensures
        ({
            let y = FileState { ix: jx, b: landed };
            &&& fine(y)
            &&& jx.objects@.contains_key(p) == x.ix.objects@.contains_key(p)
            &&& x.ix.objects@.contains_key(p) ==> jx.objects@[p].properties@ == x.ix.objects@[p].properties@
            &&& samples_in::<D>(y, p) == samples_in::<D>(x, p)
        }),
{ theorem_reopened::<D>(x, jx, p); }
/// F01: what was put out behind what had landed does not change it.
proof fn theorem_landed_prefix(ss: Seq<(Segment, Seq<u8>)>, n: int, m: int)
    requires
        0 <= n <= m <= ss.len(),
        all_whole(ss, m),
    ensures
        file_of(ss, n).is_prefix_of(file_of(ss, m)),
        scan(file_of(ss, n), nothing()) == Some(after_segments(segments_of(ss), n)),
    decreases m,
{
    theorem_history(ss, n);
    if n < m {
        theorem_landed_prefix(ss, n, m - 1);
        let a = file_of(ss, n);
        let b = file_of(ss, m - 1);
        let c = seg_enc(ss[m - 1].0, ss[m - 1].1);
        assert(a =~= b.subrange(0, a.len() as int));
        assert(a =~= (b + c).subrange(0, a.len() as int));
    }
}
/// What a stream holds after bytes were put into it from its start on.
spec fn overwritten(c: Seq<u8>, out: Seq<u8>) -> Seq<u8> { if out.len() < c.len() { out + c.skip(out.len() as int) } else { out } }
/// E02: a write whose stream fails leaves all samples as they were, however much of it got into the file.
proof fn theorem_failed_write<E: TdmsStorageType>(x: FileState, put: Seq<u8>, takes: bool, takes_now: bool, bytes: Seq<u8>, c: Seq<u8>, p: String)
    requires
        fine(x),
        wrote(x.b, put, takes, takes_now, false, bytes),
        x.b.is_prefix_of(c),
        c.is_prefix_of(put),
        E::fixed(),
        typed::<E>(x, p),
    ensures
        c.take(x.b.len() as int) == x.b,
        c.len() <= x.b.len() + bytes.len(),
        samples_in::<E>(FileState { ix: x.ix, b: c }, p) == samples_in::<E>(x, p),
{
    assert(c.take(x.b.len() as int) =~= x.b);
    if x.ix.objects@.contains_key(p) {
        let bs = x.ix.data_blocks@;
        let l = x.ix.objects@[p].data_locations@;
        let k = known(x.ix);
        lemma_index_ok(x.ix);
        lemma_known_obj(x.ix.objects@, p);
        assert(locs_of(k, p) == l);
        assert(k.blocks.len() == bs.len());
        assert forall|i: int| 0 <= i < bs.len() implies block_ok(#[trigger] bs[i]) && bs[i].start + bs[i].length@ <= x.b.len() && block_view(bs[i]) == block_view(bs[i]) by {
            assert(k.blocks[i] == block_view(bs[i]));
        }
        assert(locs_ok(bs, l));
        lemma_stored_kept::<E>(bs, bs, x.b, c, l, l, l.len() as int);
    }
}
/// E02: a write which is repeated once its stream works again, from where the index says (TdmsFile::writer), puts in the file what it
/// had put there if nothing had failed, and nothing of the failed one is left.
proof fn theorem_retry(x: FileState, s: Segment, data: Seq<u8>, put: Seq<u8>, takes: bool, takes_now: bool, c: Seq<u8>, out: Seq<u8>, jx: Index)
    requires
        fine(x),
        whole(s, data),
        segment_plain(s),
        wrote(x.b, put, takes, takes_now, false, seg_enc(s, data)),
        x.b.is_prefix_of(c),
        c.is_prefix_of(put),
        out == c.take(known(x.ix).next) + seg_enc(s, data),
        segment_ok(known(x.ix), s),
        known(jx) == with_segment(known(x.ix), s),
        known(x.ix).blocks.len() < usize::MAX,
        with_meta(known(x.ix), s).live.len() <= usize::MAX,
    ensures
        ({
            let y = FileState { ix: jx, b: overwritten(c, out) };
            &&& y.b == x.b + seg_enc(s, data)
            &&& extended(x, y, s, data)
            &&& fine(y)
        }),
{
    assert(c.take(x.b.len() as int) =~= x.b);
    assert(out.len() >= c.len());
    if out.len() == c.len() { assert(out + c.skip(out.len() as int) =~= out); }
    let y = FileState { ix: jx, b: overwritten(c, out) };
    lemma_extended_fine(x, y, s, data);
}
