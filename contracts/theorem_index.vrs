// ---- I01, P01, R03, L01: what a segment means for lists, formats, locations and properties
spec fn format_of(k: Known, p: String) -> Option<RawDataMeta> { if k.objs.contains_key(p) { k.objs[p].format } else { None } }
/// The format the first n entries give last for an object.
spec fn format_in(ms: Seq<ObjectMetaData>, n: int, p: String) -> Option<RawDataMeta>
    decreases n,
{
    if n <= 0 { None } else if ms[n - 1].path == p && ms[n - 1].raw_data_index is RawData { Some(ms[n - 1].raw_data_index->RawData_0) } else { format_in(ms, n - 1, p) }
}
proof fn lemma_entries_format(k: Known, ms: Seq<ObjectMetaData>, n: int, p: String)
    ensures format_of(with_entries(k, ms, n), p) == or_else(format_in(ms, n, p), format_of(k, p)),
    decreases n,
{
    if n > 0 { lemma_entries_format(k, ms, n - 1, p); }
}
/// All that is known is sound after the metadata of a segment.
proof fn lemma_meta_known(k: Known, s: Segment)
    requires known_ok(k), segment_ok(k, s), segment_plain(s),
    ensures known_ok(with_meta(k, s)),
{
    let k0 = seg_start(k, s);
    assert(known_ok(k0)) by {
        assert forall|t: String| #[trigger] k0.objs.contains_key(t) implies obj_known(k0, k0.objs[t]) by { assert(k.objs.contains_key(t)); assert(obj_known(k, k.objs[t])); }
    }
    lemma_entries_ok(k0, seg_entries(s), seg_entries(s).len() as int);
}
/// I01: with a new-object-list flag the list is what the segment lists, otherwise the previous list in its order and then what is new.
proof fn theorem_list(k: Known, s: Segment)
    ensures
        with_segment(k, s).live == listed(seg_entries(s), seg_entries(s).len() as int, if s.toc.contains_new_object_list { Seq::empty() } else { k.live }),
        s.meta_data is None && !s.toc.contains_new_object_list ==> with_segment(k, s).live == k.live,
{
    lemma_live_list(k, s);
}
/// I01: an object has the format the segment gives it last, or else the one it had: when the segment says so, and when it does not mention it.
proof fn theorem_formats(k: Known, s: Segment, p: String)
    requires known_ok(k), segment_ok(k, s), segment_plain(s),
    ensures
        format_of(with_segment(k, s), p) == or_else(format_in(seg_entries(s), seg_entries(s).len() as int, p), format_of(k, p)),
        s.meta_data is None ==> format_of(with_segment(k, s), p) == format_of(k, p),
{
    let m = with_meta(k, s);
    lemma_entries_format(seg_start(k, s), seg_entries(s), seg_entries(s).len() as int, p);
    lemma_meta_known(k, s);
    if s.toc.contains_raw_data { lemma_placed(m, seg_block(m, s), m.live.len() as int); }
    assert(with_segment(k, s).objs.contains_key(p) == m.objs.contains_key(p));
}
/// I01: the raw data of a segment has a channel for every object of the list, in its order, of its format after the metadata; each
/// gets one location with as many samples as the chunks hold, behind those it had, and no other object gets any.
proof fn theorem_attributed(k: Known, s: Segment, i: int)
    requires
        known_ok(k),
        segment_ok(k, s),
        segment_plain(s),
        s.toc.contains_raw_data,
        0 <= i < with_segment(k, s).live.len(),
    ensures ({
        let w = with_segment(k, s);
        let b = w.blocks[k.blocks.len() as int];
        &&& w.blocks.len() == k.blocks.len() + 1
        &&& b.channels.len() == w.live.len()
        &&& Some(b.channels[i]) == format_of(w, w.live[i])
        &&& b.start == k.next + 28 + s.raw_data_offset
        &&& b.length == s.next_segment_offset - s.raw_data_offset
        &&& b.big == s.toc.big_endian
        &&& b.layout == if s.toc.data_is_interleaved { DataLayout::Interleaved } else { DataLayout::Contigious }
        &&& locs_of(w, w.live[i]) == locs_of(k, w.live[i]).push(new_loc(k, b, i))
        &&& forall|p: String| !w.live.contains(p) ==> #[trigger] locs_of(w, p) == locs_of(k, p)
    }),
{
    let w = with_segment(k, s);
    let m = with_meta(k, s);
    let p = w.live[i];
    lemma_meta_known(k, s);
    lemma_entries_same(seg_start(k, s), seg_entries(s), seg_entries(s).len() as int);
    lemma_placed(m, seg_block(m, s), m.live.len() as int);
    assert(m.objs.contains_key(m.live[i]));
    lemma_segment_adds(k, s, p);
    assert(m.live.contains(p));
    let j = live_at(m, p);
    assert(j == i) by { if j < i { assert(m.live[j] != m.live[i]); } else if i < j { assert(m.live[i] != m.live[j]); } }
    assert(added(k, s, p) == seq![new_loc(m, seg_block(m, s), i)]);
    assert(locs_of(w, p) =~= locs_of(k, p).push(new_loc(k, seg_block(m, s), i)));
    assert forall|q: String| !w.live.contains(q) implies #[trigger] locs_of(w, q) == locs_of(k, q) by {
        lemma_segment_adds(k, s, q);
        assert(locs_of(w, q) =~= locs_of(k, q));
    }
}
proof fn lemma_entries_same(k: Known, ms: Seq<ObjectMetaData>, n: int)
    ensures with_entries(k, ms, n).blocks == k.blocks, with_entries(k, ms, n).next == k.next,
    decreases n,
{
    if n > 0 { lemma_entries_same(k, ms, n - 1); }
}
/// I01: a reference to a previous format where there is none makes the file one which is not accepted.
proof fn theorem_missing_format(k: Known, s: Segment, i: int)
    requires
        0 <= i < seg_entries(s).len(),
        seg_entries(s)[i].raw_data_index is MatchPrevious,
        format_in(seg_entries(s), i, seg_entries(s)[i].path) is None,
        format_of(k, seg_entries(s)[i].path) is None,
    ensures !segment_ok(k, s),
{
    let k0 = seg_start(k, s);
    let ms = seg_entries(s);
    lemma_entries_format(k0, ms, i, ms[i].path);
    let w = with_entries(k0, ms, i);
    if segment_ok(k, s) {
        assert(entry_ok_in(w, ms[i]));
        assert(obj_of(w.objs, ms[i].path).format is None);
        assert(false);
    }
}
/// R03: a segment adds to the length of a channel its samples in all chunks, if it lists the channel and has raw data, and else nothing.
proof fn theorem_counted(k: Known, s: Segment, p: String)
    requires known_ok(k), segment_ok(k, s), segment_plain(s),
    ensures ({
        let w = with_segment(k, s);
        let b = seg_block(with_meta(k, s), s);
        let before = prefix(locs_of(k, p), locs_of(k, p).len() as int);
        let after = prefix(locs_of(w, p), locs_of(w, p).len() as int);
        if s.toc.contains_raw_data && w.live.contains(p) { after == before + block_chunks(b) * format_of(w, p)->Some_0.number_of_values } else { after == before }
    }),
{
    let m = with_meta(k, s);
    let b = seg_block(m, s);
    lemma_segment_adds(k, s, p);
    lemma_meta_known(k, s);
    if s.toc.contains_raw_data && m.live.contains(p) {
        let i = live_at(m, p);
        assert(m.live[i] == p);
        assert(m.objs.contains_key(m.live[i]));
        lemma_placed(m, b, m.live.len() as int);
        lemma_chunks(b);
        assert(block_chunks(b) * b.channels[i].number_of_values <= u64::MAX);
        assert(block_chunks(b) * b.channels[i].number_of_values >= 0) by (nonlinear_arith) requires block_chunks(b) >= 0, b.channels[i].number_of_values >= 0;
        let a = added(k, s, p);
        assert(prefix(a, 1) == prefix(a, 0) + a[0].number_of_samples);
    } else { assert(prefix(added(k, s, p), 0) == 0); }
}
/// L01: an entry which repeats what is known of a live object changes nothing, whether it gives the format again or refers to it.
proof fn theorem_repeated(k: Known, m: ObjectMetaData)
    requires
        k.objs.contains_key(m.path),
        k.live.contains(m.path),
        m.properties@.len() == 0,
        m.raw_data_index is MatchPrevious || m.raw_data_index is RawData && k.objs[m.path].format == Some(m.raw_data_index->RawData_0),
    ensures with_entry(k, m) == k,
{
    let o = k.objs[m.path];
    assert(set_props(o.props, m.properties@, 0) == o.props);
    assert(updated(o, m) == o);
    assert(k.objs.insert(m.path, o) =~= k.objs);
}
/// L01: a list given anew as it was, each object with its format or a reference to it, means the same as no metadata at all.
proof fn theorem_list_repeated(k: Known, ms: Seq<ObjectMetaData>, n: int)
    requires
        known_ok(k),
        0 <= n <= k.live.len(),
        ms.len() == k.live.len(),
        forall|i: int| 0 <= i < ms.len() ==> repeats(k, #[trigger] ms[i], i),
    ensures
        with_entries(Known { live: Seq::empty(), ..k }, ms, n) == (Known { live: k.live.take(n), ..k }),
        n == k.live.len() ==> with_entries(Known { live: Seq::empty(), ..k }, ms, n) == k,
    decreases n,
{
    if n > 0 {
        theorem_list_repeated(k, ms, n - 1);
        let m = ms[n - 1];
        assert(repeats(k, m, n - 1));
        let w = Known { live: k.live.take(n - 1), ..k };
        assert(k.objs.contains_key(k.live[n - 1]));
        let o = k.objs[m.path];
        assert(set_props(o.props, m.properties@, 0) == o.props);
        assert(updated(o, m) == o);
        assert(k.objs.insert(m.path, o) =~= k.objs);
        assert(!w.live.contains(m.path)) by { if w.live.contains(m.path) { let i = choose|i: int| 0 <= i < w.live.len() && w.live[i] == m.path; assert(k.live[i] != k.live[n - 1]); } }
        assert(w.live.push(m.path) =~= k.live.take(n));
    } else { assert(k.live.take(0) =~= Seq::empty()); }
    if n == k.live.len() { assert(k.live.take(n) =~= k.live); }
}
spec fn repeats(k: Known, m: ObjectMetaData, i: int) -> bool {
    &&& m.path == k.live[i]
    &&& m.properties@.len() == 0
    &&& m.raw_data_index is MatchPrevious || m.raw_data_index is RawData && k.objs[m.path].format == Some(m.raw_data_index->RawData_0)
}
/// L01: a segment between others which has no raw data and no new list, and names no data, leaves lists, formats, blocks and samples alone.
proof fn theorem_between(k: Known, s: Segment, p: String)
    requires
        known_ok(k),
        segment_ok(k, s),
        segment_plain(s),
        !s.toc.contains_raw_data,
        !s.toc.contains_new_object_list,
        forall|i: int| 0 <= i < seg_entries(s).len() ==> (#[trigger] seg_entries(s)[i]).raw_data_index is None,
    ensures
        with_segment(k, s).live == k.live,
        with_segment(k, s).blocks == k.blocks,
        format_of(with_segment(k, s), p) == format_of(k, p),
        locs_of(with_segment(k, s), p) == locs_of(k, p),
{
    lemma_live_list(k, s);
    lemma_no_data(seg_entries(s), seg_entries(s).len() as int, k.live, p);
    theorem_formats(k, s, p);
    lemma_segment_adds(k, s, p);
    assert(locs_of(k, p) + Seq::<DataLocation>::empty() =~= locs_of(k, p));
}
proof fn lemma_no_data(ms: Seq<ObjectMetaData>, n: int, from: Seq<String>, p: String)
    requires
        0 <= n <= ms.len(),
        forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).raw_data_index is None,
    ensures
        listed(ms, n, from) == from,
        format_in(ms, n, p) is None,
    decreases n,
{
    if n > 0 { lemma_no_data(ms, n - 1, from, p); }
}
/// P01: the metadata of other objects does not change the properties of an object.
proof fn theorem_other_objects(ms: Seq<ObjectMetaData>, n: int, p: String, name: String)
    requires
        0 <= n <= ms.len(),
        forall|i: int| 0 <= i < n ==> (#[trigger] ms[i]).path != p,
    ensures prop_entries(ms, n, p, name) is None,
    decreases n,
{
    if n > 0 { theorem_other_objects(ms, n - 1, p, name); }
}
