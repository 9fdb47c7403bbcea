// ---- a file grows by segments
proof fn lemma_seg_local(b: Seq<u8>, c: Seq<u8>)
    requires starts(b, c),
    ensures seg_parse(b) is Some ==> seg_parse(c) == seg_parse(b),
{
    if seg_parse(b) is Some {
        let toc = toc_of(value_u32(b.subrange(4, 8)));
        let big = toc.big_endian;
        lemma_starts_sub(b, c, 0, 4);
        lemma_starts_sub(b, c, 4, 8);
        assert(b.take(4) == c.take(4));
        lemma_starts_skip(b, c, 8);
        let p = b.skip(8);
        let q = c.skip(8);
        lemma_plain_sizes();
        const_SIZE_BYTES_u32();
        const_SIZE_BYTES_u64();
        <u32 as TdmsStorageType>::law_fixed(p, big);
        <u32 as TdmsStorageType>::law_local(p, q, big);
        lemma_starts_skip(p, q, 4);
        <u64 as TdmsStorageType>::law_fixed(p.skip(4), big);
        <u64 as TdmsStorageType>::law_local(p.skip(4), q.skip(4), big);
        lemma_starts_skip(p, q, 12);
        <u64 as TdmsStorageType>::law_fixed(p.skip(12), big);
        <u64 as TdmsStorageType>::law_local(p.skip(12), q.skip(12), big);
        lemma_starts_skip(p, q, 20);
        MetaData::law_local(p.skip(20), q.skip(20), big);
    }
}
proof fn lemma_plain_sizes()
    ensures <u32 as TdmsStorageType>::fixed(), <u64 as TdmsStorageType>::fixed(),
{
    <u32 as TdmsStorageType>::law_stored(0, Seq::empty(), false);
    <u64 as TdmsStorageType>::law_stored(0, Seq::empty(), false);
}
/// What is found in the bytes of a file is found in it when there are more behind them.
proof fn lemma_scan_more(b: Seq<u8>, c: Seq<u8>, k: Known)
    requires
        starts(b, c),
        0 <= k.next,
    ensures
        scan(b, k) is Some ==> scan(c, k) == scan(c, scan(b, k)->Some_0),
    decreases u64::MAX - k.next,
{
    if k.next + 4 <= b.len() {
        lemma_starts_skip(b, c, k.next);
        lemma_seg_local(b.skip(k.next), c.skip(k.next));
        match seg_parse(b.skip(k.next)) {
            Some(s) => if segment_ok(k, s) { lemma_next_segment(k, s); lemma_scan_more(b, c, with_segment(k, s)); },
            None => {},
        }
    }
}
/// A segment as it is emitted: its offset leads past its own bytes.
spec fn whole(s: Segment, data: Seq<u8>) -> bool {
    &&& s.toc.contains_meta_data <==> s.meta_data is Some
    &&& s.meta_data is Some ==> MetaData::stored_as_is(s.meta_data->Some_0)
    &&& seg_enc(s, data).len() == 28 + s.next_segment_offset
}
/// W02, W03, H01: a file which ends with a segment, and one more behind it: what is found in it is what was found before, and then the new segment.
#[verifier::spinoff_prover]
proof fn theorem_appended(b: Seq<u8>, k: Known, s: Segment, data: Seq<u8>)
    requires
        scan(b, nothing()) == Some(k),
        k.next == b.len(),
        segment_ok(k, s),
        whole(s, data),
    ensures
        scan(b + seg_enc(s, data), nothing()) == Some(with_segment(k, s)),
        with_segment(k, s).next == (b + seg_enc(s, data)).len(),
{
    hide(segment_ok);
    hide(seg_parse);
    let c = b + seg_enc(s, data);
    lemma_scan_more(b, c, nothing());
    assert(c.skip(k.next) =~= seg_enc(s, data) + Seq::<u8>::empty());
    theorem_segment_stored(s, data, Seq::empty());
    lemma_next_segment(k, s);
    lemma_lead_in(s);
    assert(scan(c, with_segment(k, s)) == Some(with_segment(k, s)));
    assert(scan(c, k) == scan(c, with_segment(k, s)));
}
/// The bytes of the first n segments.
spec fn file_of(ss: Seq<(Segment, Seq<u8>)>, n: int) -> Seq<u8>
    decreases n,
{
    if n <= 0 { Seq::empty() } else { file_of(ss, n - 1) + seg_enc(ss[n - 1].0, ss[n - 1].1) }
}
spec fn segments_of(ss: Seq<(Segment, Seq<u8>)>) -> Seq<Segment> { ss.map_values(|x: (Segment, Seq<u8>)| x.0) }
spec fn all_whole(ss: Seq<(Segment, Seq<u8>)>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> whole(#[trigger] ss[i].0, ss[i].1) && segment_ok(after_segments(segments_of(ss), i), ss[i].0)
}
/// W02: a file made of any history of writes, in one session or many, is read as that history.
proof fn theorem_history(ss: Seq<(Segment, Seq<u8>)>, n: int)
    requires
        0 <= n <= ss.len(),
        all_whole(ss, n),
    ensures
        scan(file_of(ss, n), nothing()) == Some(after_segments(segments_of(ss), n)),
        after_segments(segments_of(ss), n).next == file_of(ss, n).len(),
    decreases n,
{
    if n > 0 {
        theorem_history(ss, n - 1);
        let k = after_segments(segments_of(ss), n - 1);
        assert(whole(ss[n - 1].0, ss[n - 1].1) && segment_ok(k, ss[n - 1].0));
        theorem_appended(file_of(ss, n - 1), k, ss[n - 1].0, ss[n - 1].1);
        assert(segments_of(ss)[n - 1] == ss[n - 1].0);
    }
}
/// What a write emits is whole.
proof fn lemma_write_whole<D: TdmsStorageType>(k: Known, names: Seq<Seq<char>>, values: Seq<D>, layout: DataLayout, big: bool)
    requires write_ok::<D>(k, names, values),
    ensures
        whole(write_segment_of::<D>(k, names, values, layout, big), data_of::<D>(values, big)),
        segment_ok(k, write_segment_of::<D>(k, names, values, layout, big)),
        segment_plain(write_segment_of::<D>(k, names, values, layout, big)),
{
    let s = write_segment_of::<D>(k, names, values, layout, big);
    let v = values.len() as int;
    let f = of_samples::<D>(v / names.len() as int);
    lemma_write_block::<D>(k, names, values, layout, big);
    lemma_lead_in(s);
    lemma_enc_all::<D>(values, big, v);
    lemma_enc_all::<D>(values, !big, v);
    let m = write_meta(k, names, f);
    if m is Some { MetaData::law_stored(m->Some_0, Seq::empty(), big); }
    assert(s.meta_data == m);
}
/// What setting properties emits is whole and accepted, and changes nothing but those properties.
proof fn lemma_props_whole(k: Known, path: Seq<char>, ps: Seq<(&str, PropertyValue)>, big: bool)
    requires
        0 <= k.next,
        ps.len() <= u32::MAX,
        k.next + 28 + meta_enc(Some(props_meta(path, ps)), false).len() <= i64::MAX,
        MetaData::stored_as_is(props_meta(path, ps)),
    ensures
        whole(props_segment(path, ps, big), Seq::empty()),
        segment_ok(k, props_segment(path, ps, big)),
        segment_plain(props_segment(path, ps, big)),
        ({
            let w = with_segment(k, props_segment(path, ps, big));
            let p = string_of(path);
            let o = obj_of(k.objs, p);
            &&& w.live == k.live
            &&& w.blocks == k.blocks
            &&& w.objs == k.objs.insert(p, Obj { props: set_props(o.props, props_given(ps), ps.len() as int), ..o })
        }),
{
    let s = props_segment(path, ps, big);
    let m = props_meta(path, ps);
    lemma_lead_in(s);
    MetaData::law_stored(m, Seq::empty(), big);
    let e = ObjectMetaData { path: string_of(path), properties: vec_of(props_given(ps)), raw_data_index: RawDataIndex::None };
    axiom_vec_of(seq![e]);
    axiom_vec_of(props_given(ps));
    assert(seg_entries(s) == seq![e]);
    assert(with_entries(k, seg_entries(s), 1) == with_entry(with_entries(k, seg_entries(s), 0), e));
    assert(with_entries(k, seg_entries(s), 0) == k);
}
// ---- what was there stays
/// The raw data known is in front of the next segment.
spec fn behind(k: Known) -> bool {
    forall|i: int| 0 <= i < k.blocks.len() ==> (#[trigger] k.blocks[i]).start + k.blocks[i].length <= k.next
}
proof fn lemma_behind(k: Known, s: Segment)
    requires
        behind(k),
        segment_ok(k, s),
    ensures behind(with_segment(k, s)),
{
    lemma_entries_blocks(seg_start(k, s), seg_entries(s), seg_entries(s).len() as int);
    lemma_entries_next(seg_start(k, s), seg_entries(s), seg_entries(s).len() as int);
}
proof fn lemma_scan_behind(b: Seq<u8>, k: Known)
    requires 0 <= k.next, behind(k),
    ensures scan(b, k) is Some ==> behind(scan(b, k)->Some_0),
    decreases u64::MAX - k.next,
{
    if k.next + 4 <= b.len() {
        match seg_parse(b.skip(k.next)) {
            Some(s) => if segment_ok(k, s) { lemma_next_segment(k, s); lemma_behind(k, s); lemma_scan_behind(b, with_segment(k, s)); },
            None => {},
        }
    }
}
/// The samples of a block are within it.
proof fn lemma_pos_within(b: DataBlock, ch: int, g: int)
    requires
        block_ok(b),
        0 <= ch < b.channels@.len(),
        0 <= g < chunks_of(b) * b.channels@[ch].number_of_values,
        fits(b, ch),
        dt_size(b.channels@[ch].data_type) > 0,
    ensures
        0 <= b.start <= block_pos(b, ch, g),
        block_pos(b, ch, g) + dt_size(b.channels@[ch].data_type) <= b.start + b.length@,
{
    let cs = b.channels@;
    let n = cs.len() as int;
    let c = cs[ch];
    let z = dt_size(c.data_type) as int;
    let v = c.number_of_values as int;
    let len = b.length@ as int;
    assert(!is_var(c));
    assert(ch_bytes(c) == v * z);
    lemma_bytes_of(cs, ch, n);
    lemma_bytes_of(cs, 0, ch);
    match b.layout {
        DataLayout::Contigious => {
            let size = bytes_of(cs, n);
            let k = chunks_of(b);
            if size == 0 { assert(k == 0); assert(k * v == 0) by (nonlinear_arith) requires k == 0; }
            assert(v > 0) by (nonlinear_arith) requires 0 <= g < k * v, v >= 0, k >= 0 || k < 0;
            assert(k * size <= len) by (nonlinear_arith) requires k == len / size, size > 0;
            let q = g / v;
            let r = g % v;
            assert(g == q * v + r && 0 <= r < v) by (nonlinear_arith) requires q == g / v, r == g % v, v > 0;
            assert(0 <= q) by (nonlinear_arith) requires q == g / v, v > 0, g >= 0;
            assert(q < k) by (nonlinear_arith) requires g == q * v + r, 0 <= r, g < k * v, v > 0;
            assert((q + 1) * size <= k * size) by (nonlinear_arith) requires q + 1 <= k, size > 0;
            assert((q + 1) * size == q * size + size) by (nonlinear_arith);
            assert(r * z + z <= v * z) by (nonlinear_arith) requires r + 1 <= v, z > 0;
            assert(0 <= q * size && 0 <= r * z) by (nonlinear_arith) requires q >= 0, size > 0, r >= 0, z > 0;
        },
        DataLayout::Interleaved => {
            let w = width_of(cs, n);
            let off = width_of(cs, ch);
            let rows = len / w;
            assert(w > 0);
            assert(g < rows);
            assert(rows * w <= len) by (nonlinear_arith) requires rows == len / w, w > 0;
            assert((g + 1) * w <= rows * w) by (nonlinear_arith) requires g + 1 <= rows, w > 0;
            assert((g + 1) * w == g * w + w) by (nonlinear_arith);
            assert(0 <= g * w) by (nonlinear_arith) requires g >= 0, w > 0;
        },
    }
}
/// W03: the samples of a block are the same in a file which has grown.
proof fn lemma_loc_kept<D: TdmsStorageType>(bs: Seq<DataBlock>, cs: Seq<DataBlock>, b: Seq<u8>, c: Seq<u8>, l: DataLocation)
    requires
        D::fixed(),
        starts(b, c),
        loc_ok(bs, l),
        l.data_block < cs.len(),
        block_view(bs[l.data_block as int]) == block_view(cs[l.data_block as int]),
        block_ok(bs[l.data_block as int]),
        bs[l.data_block as int].start + bs[l.data_block as int].length@ <= b.len(),
        fits(bs[l.data_block as int], l.channel_index as int),
        dt_size(bs[l.data_block as int].channels@[l.channel_index as int].data_type) == D::SIZE_BYTES,
    ensures loc_data::<D>(cs, c, l) == loc_data::<D>(bs, b, l),
{
    let x = bs[l.data_block as int];
    let y = cs[l.data_block as int];
    let ch = l.channel_index as int;
    D::law_fixed(Seq::empty(), false);
    assert(block_view(x).channels == x.channels@ && block_view(y).channels == y.channels@);
    assert(block_view(x).start == x.start && block_view(y).start == y.start);
    assert(block_view(x).layout == x.layout && block_view(y).layout == y.layout);
    assert((x.byte_order is Big) == (y.byte_order is Big)) by { assert(block_view(x).big == block_view(y).big); }
    assert forall|g: int| 0 <= g < l.number_of_samples implies #[trigger] loc_data::<D>(cs, c, l)[g] == loc_data::<D>(bs, b, l)[g] by {
        lemma_pos_within(x, ch, g);
        let p = block_pos(x, ch, g);
        assert(block_pos(y, ch, g) == p);
        lemma_starts_skip(b, c, p);
        D::law_fixed(b.skip(p), x.byte_order is Big);
        D::law_local(b.skip(p), c.skip(p), x.byte_order is Big);
    }
    assert(loc_data::<D>(cs, c, l) =~= loc_data::<D>(bs, b, l));
}
/// All samples of an object are of a type, each block having as many as it says.
spec fn of_type<D: TdmsStorageType>(bs: Seq<DataBlock>, p: Seq<DataLocation>) -> bool {
    forall|j: int| 0 <= j < p.len() ==> fits(bs[(#[trigger] p[j]).data_block as int], p[j].channel_index as int) && dt_size(bs[p[j].data_block as int].channels@[p[j].channel_index as int].data_type) == D::SIZE_BYTES
}
proof fn lemma_stored_kept<D: TdmsStorageType>(bs: Seq<DataBlock>, cs: Seq<DataBlock>, b: Seq<u8>, c: Seq<u8>, p: Seq<DataLocation>, q: Seq<DataLocation>, n: int)
    requires
        D::fixed(),
        starts(b, c),
        locs_ok(bs, p),
        of_type::<D>(bs, p),
        0 <= n <= p.len(),
        n <= q.len(),
        forall|i: int| 0 <= i < n ==> p[i] == #[trigger] q[i],
        bs.len() <= cs.len(),
        forall|i: int| 0 <= i < bs.len() ==> block_ok(#[trigger] bs[i]) && bs[i].start + bs[i].length@ <= b.len() && block_view(bs[i]) == block_view(cs[i]),
    ensures stored::<D>(cs, c, q, n) == stored::<D>(bs, b, p, n),
    decreases n,
{
    if n > 0 {
        lemma_stored_kept::<D>(bs, cs, b, c, p, q, n - 1);
        assert(loc_ok(bs, p[n - 1]));
        assert(block_ok(bs[p[n - 1].data_block as int]));
        lemma_loc_kept::<D>(bs, cs, b, c, p[n - 1]);
        assert(q[n - 1] == p[n - 1]);
    }
}
/// W03: whatever segment is appended, the samples of every channel are still there, and in front of what it adds.
proof fn theorem_kept<D: TdmsStorageType>(ix: Index, jx: Index, b: Seq<u8>, s: Segment, data: Seq<u8>, p: String)
    requires
        known_ok(known(ix)),
        behind(known(ix)),
        known(ix).next == b.len(),
        segment_ok(known(ix), s),
        segment_plain(s),
        known(jx) == with_segment(known(ix), s),
        ix.objects@.contains_key(p),
        D::fixed(),
        of_type::<D>(ix.data_blocks@, ix.objects@[p].data_locations@),
    ensures
        jx.objects@.contains_key(p),
        ({
            let old = ix.objects@[p].data_locations@;
            let new = jx.objects@[p].data_locations@;
            &&& old.is_prefix_of(new)
            &&& stored::<D>(jx.data_blocks@, b + seg_enc(s, data), new, old.len() as int) == stored::<D>(ix.data_blocks@, b, old, old.len() as int)
        }),
{
    let k = known(ix);
    let w = known(jx);
    let c = b + seg_enc(s, data);
    lemma_segment_adds(k, s, p);
    lemma_known_obj(ix.objects@, p);
    lemma_known_obj(jx.objects@, p);
    lemma_index_ok(ix);
    lemma_objs_grow(k, s, p);
    let old = ix.objects@[p].data_locations@;
    let new = jx.objects@[p].data_locations@;
    assert(locs_of(k, p) == old);
    assert(locs_of(w, p) == new);
    assert(new == old + added(k, s, p));
    let bs = ix.data_blocks@;
    let cs = jx.data_blocks@;
    assert(k.blocks.len() == bs.len() && w.blocks.len() == cs.len());
    assert forall|i: int| 0 <= i < bs.len() implies block_ok(#[trigger] bs[i]) && bs[i].start + bs[i].length@ <= b.len() && block_view(bs[i]) == block_view(cs[i]) by {
        assert(k.blocks[i] == block_view(bs[i]));
        assert(w.blocks[i] == block_view(cs[i]));
        assert(w.blocks[i] == k.blocks[i]);
    }
    assert(locs_ok(bs, old));
    lemma_stored_kept::<D>(bs, cs, b, c, old, new, old.len() as int);
}
/// Objects stay known.
proof fn lemma_objs_grow(k: Known, s: Segment, p: String)
    requires
        known_ok(k),
        segment_ok(k, s),
        segment_plain(s),
        k.objs.contains_key(p),
    ensures with_segment(k, s).objs.contains_key(p),
{
    let k0 = seg_start(k, s);
    let ms = seg_entries(s);
    assert(known_ok(k0)) by {
        assert forall|t: String| #[trigger] k0.objs.contains_key(t) implies obj_known(k0, k0.objs[t]) by { assert(k.objs.contains_key(t)); assert(obj_known(k, k.objs[t])); }
    }
    lemma_entries_ok(k0, ms, ms.len() as int);
    let m = with_meta(k, s);
    assert(m.objs.contains_key(p));
    if s.toc.contains_raw_data { lemma_placed(m, seg_block(m, s), m.live.len() as int); assert(placed(m, seg_block(m, s), m.live.len() as int).dom().contains(p)); }
}
