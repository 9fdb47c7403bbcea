// ---- building the index: what segments mean
/// What is known of an object.
struct Obj {
    pub props: Map<String, PropertyValue>,
    pub locs: Seq<DataLocation>,
    pub format: Option<RawDataMeta>,
}
/// A data block by its fields.
struct Block {
    pub start: int,
    pub length: int,
    pub layout: DataLayout,
    pub channels: Seq<RawDataMeta>,
    pub big: bool,
}
/// What is known of a file after some of its segments.
struct Known {
    pub live: Seq<String>,
    pub objs: Map<String, Obj>,
    pub blocks: Seq<Block>,
    pub next: int,
}
spec fn format_view(f: Option<DataFormat>) -> Option<RawDataMeta> {
    match f { Some(DataFormat::RawData(r)) => Some(r), None => None }
}
spec fn obj_view(o: ObjectData) -> Obj { Obj { props: o.properties@, locs: o.data_locations@, format: format_view(o.latest_data_format) } }
spec fn objs_view(m: Map<String, ObjectData>) -> Map<String, Obj> { m.map_values(|o: ObjectData| obj_view(o)) }
spec fn block_view(b: DataBlock) -> Block { Block { start: b.start as int, length: b.length@ as int, layout: b.layout, channels: b.channels@, big: b.byte_order is Big } }
spec fn known(ix: Index) -> Known {
    Known {
        live: ix.active_objects@.map_values(|a: ActiveObject| a.path),
        objs: objs_view(ix.objects@),
        blocks: ix.data_blocks@.map_values(|b: DataBlock| block_view(b)),
        next: ix.next_segment_start as int,
    }
}
spec fn nothing() -> Known { Known { live: Seq::empty(), objs: Map::empty(), blocks: Seq::empty(), next: 0 } }
/// The first n of the properties set, each replacing an earlier value of its name.
spec fn set_props(m: Map<String, PropertyValue>, ps: Seq<(String, PropertyValue)>, n: int) -> Map<String, PropertyValue>
    decreases n,
{
    if n <= 0 { m } else { set_props(m, ps, n - 1).insert(ps[n - 1].0, ps[n - 1].1) }
}
/// An object after an entry for it: its properties set, its format replaced if the entry has one.
spec fn updated(o: Obj, m: ObjectMetaData) -> Obj {
    Obj {
        props: set_props(o.props, m.properties@, m.properties@.len() as int),
        format: match m.raw_data_index { RawDataIndex::RawData(r) => Some(r), _ => o.format },
        ..o
    }
}
/// An entry which refers to an earlier format needs one.
spec fn update_ok(o: Obj, m: ObjectMetaData) -> bool { !(o.format is None && m.raw_data_index is MatchPrevious) }
spec fn fresh() -> Obj { Obj { props: Map::empty(), locs: Seq::empty(), format: None } }
spec fn obj_of(objs: Map<String, Obj>, p: String) -> Obj { if objs.contains_key(p) { objs[p] } else { fresh() } }
spec fn entry_ok_in(k: Known, m: ObjectMetaData) -> bool { update_ok(obj_of(k.objs, m.path), m) }
/// An entry of the metadata of a segment: with a data index it makes its object live, if it is not already.
spec fn with_entry(k: Known, m: ObjectMetaData) -> Known {
    Known {
        objs: k.objs.insert(m.path, updated(obj_of(k.objs, m.path), m)),
        live: if m.raw_data_index is None || k.live.contains(m.path) { k.live } else { k.live.push(m.path) },
        ..k
    }
}
spec fn with_entries(k: Known, ms: Seq<ObjectMetaData>, n: int) -> Known
    decreases n,
{
    if n <= 0 { k } else { with_entry(with_entries(k, ms, n - 1), ms[n - 1]) }
}
spec fn entries_ok_in(k: Known, ms: Seq<ObjectMetaData>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> entry_ok_in(with_entries(k, ms, i), #[trigger] ms[i])
}
spec fn seg_entries(s: Segment) -> Seq<ObjectMetaData> {
    match s.meta_data { Some(m) => m.objects@, None => Seq::empty() }
}
/// A new object list starts with no live objects.
spec fn seg_start(k: Known, s: Segment) -> Known { if s.toc.contains_new_object_list { Known { live: Seq::empty(), ..k } } else { k } }
spec fn with_meta(k: Known, s: Segment) -> Known { with_entries(seg_start(k, s), seg_entries(s), seg_entries(s).len() as int) }
/// The raw data of a segment has a channel per live object, in their order, of their latest format.
spec fn seg_block(k: Known, s: Segment) -> Block {
    Block {
        start: k.next + 28 + s.raw_data_offset,
        length: s.next_segment_offset - s.raw_data_offset,
        layout: if s.toc.data_is_interleaved { DataLayout::Interleaved } else { DataLayout::Contigious },
        channels: live_formats(k),
        big: s.toc.big_endian,
    }
}
spec fn live_formats(k: Known) -> Seq<RawDataMeta> { Seq::new(k.live.len(), |i: int| k.objs[k.live[i]].format->Some_0) }
spec fn block_chunks(b: Block) -> int {
    let size = bytes_of(b.channels, b.channels.len() as int);
    if any_var(b.channels, b.channels.len() as int) { 1 } else if size == 0 { 0 } else { b.length / size }
}
spec fn block_fine(b: Block) -> bool {
    &&& b.channels.len() > 0
    &&& b.length > 0
    &&& b.start + b.length <= i64::MAX
    &&& bytes_of(b.channels, b.channels.len() as int) <= u64::MAX
    &&& forall|i: int| 0 <= i < b.channels.len() ==> block_chunks(b) * (#[trigger] b.channels[i]).number_of_values <= u64::MAX
}
/// Where the samples of the i-th live object are in a new block.
spec fn new_loc(k: Known, b: Block, i: int) -> DataLocation {
    DataLocation { data_block: k.blocks.len() as usize, channel_index: i as usize, number_of_samples: (block_chunks(b) * b.channels[i].number_of_values) as u64 }
}
/// The first n live objects have their place in a new block.
spec fn placed(k: Known, b: Block, n: int) -> Map<String, Obj>
    decreases n,
{
    if n <= 0 { k.objs } else {
        let m = placed(k, b, n - 1);
        let o = m[k.live[n - 1]];
        m.insert(k.live[n - 1], Obj { locs: o.locs.push(new_loc(k, b, n - 1)), ..o })
    }
}
spec fn with_block(k: Known, b: Block) -> Known {
    Known { objs: placed(k, b, k.live.len() as int), blocks: k.blocks.push(b), ..k }
}
spec fn with_data(k: Known, s: Segment) -> Known { if s.toc.contains_raw_data { with_block(k, seg_block(k, s)) } else { k } }
/// What is known after one more segment.
spec fn with_segment(k: Known, s: Segment) -> Known {
    let m = with_meta(k, s);
    Known { next: k.next + 28 + s.next_segment_offset, ..with_data(m, s) }
}
/// The segments which are accepted.
spec fn segment_ok(k: Known, s: Segment) -> bool {
    &&& entries_ok_in(seg_start(k, s), seg_entries(s), seg_entries(s).len() as int)
    &&& s.toc.contains_raw_data ==> block_fine(seg_block(with_meta(k, s), s))
    &&& k.next + 28 + s.next_segment_offset <= u64::MAX
}
// ---- what every index satisfies
spec fn plain(r: RawDataMeta) -> bool { r.total_size_bytes is None }
spec fn entry_plain(m: ObjectMetaData) -> bool { m.raw_data_index is RawData ==> plain(m.raw_data_index->RawData_0) }
spec fn segment_plain(s: Segment) -> bool { forall|i: int| 0 <= i < seg_entries(s).len() ==> entry_plain(#[trigger] seg_entries(s)[i]) }
/// The live objects are known, and their lengths are those of their formats.
spec fn live_ok(a: Seq<ActiveObject>, m: Map<String, ObjectData>) -> bool {
    &&& forall|i: int| 0 <= i < a.len() ==> live_in(#[trigger] a[i], m)
    &&& forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] a[i]).path != (#[trigger] a[j]).path
}
spec fn live_in(x: ActiveObject, m: Map<String, ObjectData>) -> bool {
    m.contains_key(x.path) && format_view(m[x.path].latest_data_format) is Some && x.number_of_samples == format_view(m[x.path].latest_data_format)->Some_0.number_of_values
}
spec fn loc_known(bs: Seq<Block>, l: DataLocation) -> bool {
    &&& l.data_block < bs.len()
    &&& l.channel_index < bs[l.data_block as int].channels.len()
    &&& block_chunks(bs[l.data_block as int]) * bs[l.data_block as int].channels[l.channel_index as int].number_of_values == l.number_of_samples
}
spec fn obj_known(k: Known, o: Obj) -> bool {
    &&& sorted(o.locs)
    &&& forall|j: int| 0 <= j < o.locs.len() ==> loc_known(k.blocks, #[trigger] o.locs[j])
    &&& o.format is Some ==> plain(o.format->Some_0)
}
spec fn block_known(b: Block) -> bool {
    &&& b.channels.len() > 0
    &&& b.length > 0
    &&& 0 <= b.start
    &&& b.start + b.length <= i64::MAX
    &&& !any_var(b.channels, b.channels.len() as int)
    &&& bytes_of(b.channels, b.channels.len() as int) <= u64::MAX
}
/// What holds after any number of segments.
spec fn known_ok(k: Known) -> bool {
    &&& forall|i: int| 0 <= i < k.blocks.len() ==> block_known(#[trigger] k.blocks[i])
    &&& forall|s: String| #[trigger] k.objs.contains_key(s) ==> obj_known(k, k.objs[s])
    &&& forall|s: String, t: String| #[trigger] k.objs.contains_key(s) && #[trigger] k.objs.contains_key(t) && s != t ==> apart(k.objs[s].locs, k.objs[t].locs)
    &&& forall|i: int| 0 <= i < k.live.len() ==> k.objs.contains_key(#[trigger] k.live[i]) && k.objs[k.live[i]].format is Some
    &&& forall|i: int, j: int| 0 <= i < j < k.live.len() ==> #[trigger] k.live[i] != #[trigger] k.live[j]
}
proof fn lemma_objs_insert(m: Map<String, ObjectData>, p: String, o: ObjectData)
    ensures objs_view(m.insert(p, o)) == objs_view(m).insert(p, obj_view(o)),
{
    assert(objs_view(m.insert(p, o)) =~= objs_view(m).insert(p, obj_view(o)));
}
proof fn lemma_known_obj(m: Map<String, ObjectData>, p: String)
    ensures
        objs_view(m).contains_key(p) == m.contains_key(p),
        m.contains_key(p) ==> objs_view(m)[p] == obj_view(m[p]),
{ }
spec fn paths_of(a: Seq<ActiveObject>) -> Seq<String> { a.map_values(|x: ActiveObject| x.path) }
/// Updating the object of an entry keeps the live objects in step, apart from its own length.
proof fn lemma_entry_live(a: Seq<ActiveObject>, m0: Map<String, ObjectData>, m: Map<String, ObjectData>, e: ObjectMetaData, i: int)
    requires
        0 <= i < a.len(),
        live_in(a[i], m0),
        a[i].path != e.path || !(e.raw_data_index is RawData),
        objs_view(m) == objs_view(m0).insert(e.path, updated(obj_of(objs_view(m0), e.path), e)),
    ensures live_in(a[i], m),
{
    let p = a[i].path;
    lemma_known_obj(m0, p);
    lemma_known_obj(m, p);
    assert(obj_view(m[p]).format == obj_view(m0[p]).format);
}
proof fn lemma_updated_format(m0: Map<String, ObjectData>, m: Map<String, ObjectData>, e: ObjectMetaData)
    requires
        update_ok(obj_of(objs_view(m0), e.path), e),
        !(e.raw_data_index is None),
        objs_view(m) == objs_view(m0).insert(e.path, updated(obj_of(objs_view(m0), e.path), e)),
    ensures
        m.contains_key(e.path),
        format_view(m[e.path].latest_data_format) is Some,
        e.raw_data_index is RawData ==> format_view(m[e.path].latest_data_format)->Some_0 == e.raw_data_index->RawData_0,
{
    lemma_known_obj(m0, e.path);
    lemma_known_obj(m, e.path);
}
spec fn has_path(a: &mut ActiveObject, p: String) -> bool { a.path == p }
proof fn lemma_at_name<V>(m: Map<String, V>, p: String)
    requires m.contains_key(p),
    ensures at_name(m, p@) == Some(m[p]),
{
    let s = choose|s: String| m.contains_key(s) && #[trigger] s@ == p@;
    assert(m.contains_key(p) && p@ == p@);
    assert(s@ == p@);
    assert(s == p);
}
proof fn lemma_live_formats(ix: Index)
    requires live_ok(ix.active_objects@, ix.objects@),
    ensures
        live_formats(known(ix)).len() == ix.active_objects@.len(),
        forall|i: int| 0 <= i < ix.active_objects@.len() ==> (#[trigger] live_formats(known(ix))[i]).number_of_values == ix.active_objects@[i].number_of_samples,
{
    assert forall|i: int| 0 <= i < ix.active_objects@.len() implies (#[trigger] live_formats(known(ix))[i]).number_of_values == ix.active_objects@[i].number_of_samples by {
        assert(live_in(ix.active_objects@[i], ix.objects@));
        lemma_known_obj(ix.objects@, ix.active_objects@[i].path);
        assert(known(ix).live[i] == ix.active_objects@[i].path);
    }
}
proof fn lemma_live_kept(a: Seq<ActiveObject>, m: Map<String, ObjectData>, p: String, o: ObjectData)
    requires
        live_ok(a, m),
        m.contains_key(p),
        o.latest_data_format == m[p].latest_data_format,
    ensures live_ok(a, m.insert(p, o)),
{
    assert forall|i: int| 0 <= i < a.len() implies live_in(#[trigger] a[i], m.insert(p, o)) by { assert(live_in(a[i], m)); }
}
spec fn found_live(a0: Seq<ActiveObject>, a1: Seq<ActiveObject>, k: int, p: String, now: ActiveObject, end: ActiveObject) -> bool {
    &&& 0 <= k < a0.len()
    &&& a1.len() == a0.len()
    &&& a0[k].path == p
    &&& now == a0[k]
    &&& a1[k] == end
    &&& forall|i: int| 0 <= i < a0.len() && i != k ==> #[trigger] a1[i] == a0[i]
}
proof fn lemma_seg_start(k: Known, s: Segment)
    ensures
        seg_start(k, s).next == k.next,
        entries_ok_in(seg_start(k, s), seg_entries(s), 0),
{ }
proof fn lemma_known_next(ix: Index)
    ensures known(ix).next == ix.next_segment_start,
{ }
proof fn lemma_live_len(ix: Index)
    ensures known(ix).live.len() == ix.active_objects@.len(),
{ }
proof fn lemma_entries_step(k: Known, ms: Seq<ObjectMetaData>, i: int)
    requires 0 <= i < ms.len(), entries_ok_in(k, ms, i),
    ensures
        with_entries(k, ms, i + 1) == with_entry(with_entries(k, ms, i), ms[i]),
        entries_ok_in(k, ms, i + 1) == entry_ok_in(with_entries(k, ms, i), ms[i]),
        !entry_ok_in(with_entries(k, ms, i), ms[i]) ==> !entries_ok_in(k, ms, ms.len() as int),
{ }
proof fn lemma_seg_block(k: Known, s: Segment, b: DataBlock)
    requires
        b.start == k.next + 28 + s.raw_data_offset,
        b.length@ == s.next_segment_offset - s.raw_data_offset,
        b.layout == if s.toc.data_is_interleaved { DataLayout::Interleaved } else { DataLayout::Contigious },
        b.byte_order == if s.toc.big_endian { Endianess::Big } else { Endianess::Little },
        b.channels@ == live_formats(k),
    ensures
        block_view(b) == seg_block(k, s),
        chunks_of(b) == block_chunks(seg_block(k, s)),
{
    assert(block_view(b).big == seg_block(k, s).big);
}
proof fn lemma_entries_next(k: Known, ms: Seq<ObjectMetaData>, n: int)
    ensures with_entries(k, ms, n).next == k.next,
    decreases n,
{
    if n > 0 { lemma_entries_next(k, ms, n - 1); }
}
proof fn lemma_with_block_next(k: Known, s: Segment)
    ensures with_data(k, s).next == k.next,
{ }
proof fn lemma_next_set(a: Index, b: Index)
    requires
        a.active_objects == b.active_objects,
        a.objects == b.objects,
        a.data_blocks == b.data_blocks,
    ensures
        known(b) == (Known { next: b.next_segment_start as int, ..known(a) }),
        live_ok(a.active_objects@, a.objects@) ==> live_ok(b.active_objects@, b.objects@),
{ }
