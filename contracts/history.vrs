// ---- what any history of segments leads to
/// What is known after the first n segments.
spec fn after_segments(ss: Seq<Segment>, n: int) -> Known
    decreases n,
{
    if n <= 0 { nothing() } else { with_segment(after_segments(ss, n - 1), ss[n - 1]) }
}
/// Every segment was accepted.
spec fn all_ok(ss: Seq<Segment>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> segment_ok(after_segments(ss, i), #[trigger] ss[i]) && segment_plain(ss[i])
}
proof fn lemma_nothing_ok()
    ensures known_ok(nothing()),
{ }
proof fn lemma_plain_formats(cs: Seq<RawDataMeta>, n: int)
    requires forall|i: int| 0 <= i < cs.len() ==> plain(#[trigger] cs[i]), 0 <= n <= cs.len(),
    ensures !any_var(cs, n),
{ }
/// An entry of the metadata changes neither locations nor blocks.
proof fn lemma_entry_ok(k: Known, m: ObjectMetaData)
    requires known_ok(k), entry_ok_in(k, m), entry_plain(m),
    ensures
        known_ok(with_entry(k, m)),
        with_entry(k, m).blocks == k.blocks,
        with_entry(k, m).next == k.next,
        forall|s: String| k.objs.contains_key(s) ==> #[trigger] with_entry(k, m).objs.contains_key(s) && with_entry(k, m).objs[s].locs == k.objs[s].locs,
        forall|s: String| #[trigger] with_entry(k, m).objs.contains_key(s) && !k.objs.contains_key(s) ==> with_entry(k, m).objs[s].locs.len() == 0,
{
    let w = with_entry(k, m);
    assert forall|s: String| #[trigger] w.objs.contains_key(s) implies obj_known(w, w.objs[s]) by {
        if s == m.path { if k.objs.contains_key(s) { assert(obj_known(k, k.objs[s])); } } else { assert(k.objs.contains_key(s)); assert(obj_known(k, k.objs[s])); }
    }
    assert forall|s: String, t: String| #[trigger] w.objs.contains_key(s) && #[trigger] w.objs.contains_key(t) && s != t implies apart(w.objs[s].locs, w.objs[t].locs) by {
        if k.objs.contains_key(s) && k.objs.contains_key(t) { assert(apart(k.objs[s].locs, k.objs[t].locs)); }
    }
    assert forall|i: int| 0 <= i < w.live.len() implies w.objs.contains_key(#[trigger] w.live[i]) && w.objs[w.live[i]].format is Some by {
        if i < k.live.len() { assert(w.live[i] == k.live[i]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < w.live.len() implies #[trigger] w.live[i] != #[trigger] w.live[j] by {
        assert(w.live[i] == k.live[i]);
        if j < k.live.len() { assert(w.live[j] == k.live[j]); } else { assert(w.live[j] == m.path); }
    }
}
proof fn lemma_entries_ok(k: Known, ms: Seq<ObjectMetaData>, n: int)
    requires
        known_ok(k),
        0 <= n <= ms.len(),
        entries_ok_in(k, ms, n),
        forall|i: int| 0 <= i < ms.len() ==> entry_plain(#[trigger] ms[i]),
    ensures
        known_ok(with_entries(k, ms, n)),
        with_entries(k, ms, n).blocks == k.blocks,
        with_entries(k, ms, n).next == k.next,
        forall|s: String| k.objs.contains_key(s) ==> #[trigger] with_entries(k, ms, n).objs.contains_key(s) && with_entries(k, ms, n).objs[s].locs == k.objs[s].locs,
        forall|s: String| #[trigger] with_entries(k, ms, n).objs.contains_key(s) && !k.objs.contains_key(s) ==> with_entries(k, ms, n).objs[s].locs.len() == 0,
    decreases n,
{
    if n > 0 {
        lemma_entries_ok(k, ms, n - 1);
        let w = with_entries(k, ms, n - 1);
        assert(entry_ok_in(w, ms[n - 1]));
        lemma_entry_ok(w, ms[n - 1]);
        assert forall|s: String| k.objs.contains_key(s) implies #[trigger] with_entries(k, ms, n).objs.contains_key(s) && with_entries(k, ms, n).objs[s].locs == k.objs[s].locs by {
            assert(w.objs.contains_key(s));
        }
        assert forall|s: String| #[trigger] with_entries(k, ms, n).objs.contains_key(s) && !k.objs.contains_key(s) implies with_entries(k, ms, n).objs[s].locs.len() == 0 by {
            if w.objs.contains_key(s) { assert(w.objs[s].locs.len() == 0); }
        }
    }
}
/// What a new block adds: every live object among the first n gets its one location, all others keep theirs.
proof fn lemma_placed(k: Known, b: Block, n: int)
    requires
        known_ok(k),
        0 <= n <= k.live.len(),
    ensures
        placed(k, b, n).dom() == k.objs.dom(),
        forall|s: String| #[trigger] k.objs.contains_key(s) ==> placed(k, b, n)[s].props == k.objs[s].props && placed(k, b, n)[s].format == k.objs[s].format,
        forall|s: String| #[trigger] k.objs.contains_key(s) && !k.live.take(n).contains(s) ==> placed(k, b, n)[s].locs == k.objs[s].locs,
        forall|i: int| 0 <= i < n ==> placed(k, b, n)[#[trigger] k.live[i]].locs == k.objs[k.live[i]].locs.push(new_loc(k, b, i)),
    decreases n,
{
    if n > 0 {
        lemma_placed(k, b, n - 1);
        let p = placed(k, b, n - 1);
        let q = placed(k, b, n);
        let l = k.live[n - 1];
        assert(k.objs.contains_key(l));
        assert(!k.live.take(n - 1).contains(l));
        assert(p[l].locs == k.objs[l].locs);
        assert(q.dom() =~= k.objs.dom());
        assert(k.live.take(n) =~= k.live.take(n - 1).push(l));
        assert forall|s: String| #[trigger] k.objs.contains_key(s) && !k.live.take(n).contains(s) implies q[s].locs == k.objs[s].locs by {
            if s == l { assert(k.live.take(n)[n - 1] == l); }
            let kt = k.live.take(n - 1); if kt.contains(s) { let i = choose|i: int| 0 <= i < kt.len() && kt[i] == s; assert(k.live.take(n)[i] == s); }
        }
        assert forall|i: int| 0 <= i < n implies q[#[trigger] k.live[i]].locs == k.objs[k.live[i]].locs.push(new_loc(k, b, i)) by { }
    } else {
        assert(placed(k, b, n).dom() =~= k.objs.dom());
    }
}
proof fn lemma_chunks(b: Block)
    requires block_fine(b),
    ensures block_chunks(b) >= 0,
{
    lemma_bytes_of(b.channels, 0, b.channels.len() as int);
    let size = bytes_of(b.channels, b.channels.len() as int);
    if size > 0 { assert(b.length / size >= 0) by (nonlinear_arith) requires b.length > 0, size > 0; }
}
/// The locations a new block gives are known ones, after all earlier ones.
proof fn lemma_block_ok_known(k: Known, b: Block)
    requires
        known_ok(k),
        block_fine(b),
        b.start >= 0,
        b.channels == live_formats(k),
        k.blocks.len() < usize::MAX,
        k.live.len() <= usize::MAX,
    ensures known_ok(with_block(k, b)),
{
    let w = with_block(k, b);
    let n = k.live.len() as int;
    lemma_placed(k, b, n);
    lemma_chunks(b);
    assert(k.live.take(n) =~= k.live);
    assert forall|i: int| 0 <= i < b.channels.len() implies plain(#[trigger] b.channels[i]) by {
        assert(k.objs.contains_key(k.live[i]));
        assert(obj_known(k, k.objs[k.live[i]]));
    }
    lemma_plain_formats(b.channels, n);
    assert(block_known(b));
    assert forall|i: int| 0 <= i < w.blocks.len() implies block_known(#[trigger] w.blocks[i]) by { if i < k.blocks.len() { assert(w.blocks[i] == k.blocks[i]); } }
    assert forall|i: int| 0 <= i < n implies loc_known(w.blocks, #[trigger] new_loc(k, b, i)) by {
        assert(block_chunks(b) * b.channels[i].number_of_values <= u64::MAX);
        assert(block_chunks(b) * b.channels[i].number_of_values >= 0) by (nonlinear_arith) requires block_chunks(b) >= 0, b.channels[i].number_of_values >= 0;
    }
    assert forall|s: String| #[trigger] w.objs.contains_key(s) implies obj_known(w, w.objs[s]) by {
        assert(k.objs.contains_key(s));
        let o = k.objs[s];
        assert(obj_known(k, o));
        assert forall|j: int| 0 <= j < o.locs.len() implies loc_known(w.blocks, #[trigger] o.locs[j]) by { assert(loc_known(k.blocks, o.locs[j])); }
        if k.live.contains(s) {
            let i = choose|i: int| 0 <= i < k.live.len() && k.live[i] == s;
            assert(w.objs[s].locs == o.locs.push(new_loc(k, b, i)));
        }
    }
    assert forall|s: String, t: String| #[trigger] w.objs.contains_key(s) && #[trigger] w.objs.contains_key(t) && s != t implies apart(w.objs[s].locs, w.objs[t].locs) by {
        assert(k.objs.contains_key(s) && k.objs.contains_key(t));
        assert(apart(k.objs[s].locs, k.objs[t].locs));
        assert(obj_known(k, k.objs[s]) && obj_known(k, k.objs[t]));
        let si = if k.live.contains(s) { choose|i: int| 0 <= i < k.live.len() && k.live[i] == s } else { -1 };
        let ti = if k.live.contains(t) { choose|i: int| 0 <= i < k.live.len() && k.live[i] == t } else { -1 };
        if si >= 0 { assert(w.objs[s].locs == k.objs[s].locs.push(new_loc(k, b, si))); }
        if ti >= 0 { assert(w.objs[t].locs == k.objs[t].locs.push(new_loc(k, b, ti))); }
        assert forall|i: int, j: int| 0 <= i < w.objs[s].locs.len() && 0 <= j < w.objs[t].locs.len() && (#[trigger] w.objs[s].locs[i]).data_block == (#[trigger] w.objs[t].locs[j]).data_block implies w.objs[s].locs[i].channel_index != w.objs[t].locs[j].channel_index by {
            if i < k.objs[s].locs.len() { assert(loc_known(k.blocks, k.objs[s].locs[i])); }
            if j < k.objs[t].locs.len() { assert(loc_known(k.blocks, k.objs[t].locs[j])); }
        }
    }
    assert forall|i: int| 0 <= i < w.live.len() implies w.objs.contains_key(#[trigger] w.live[i]) && w.objs[w.live[i]].format is Some by { assert(k.objs.contains_key(k.live[i])); }
}
/// What holds of everything known holds after one more accepted segment.
proof fn lemma_segment_known(k: Known, s: Segment)
    requires
        known_ok(k),
        k.next >= 0,
        segment_ok(k, s),
        segment_plain(s),
        k.blocks.len() < usize::MAX,
        with_meta(k, s).live.len() <= usize::MAX,
    ensures
        known_ok(with_segment(k, s)),
        with_segment(k, s).next == k.next + 28 + s.next_segment_offset,
{
    let k0 = seg_start(k, s);
    let ms = seg_entries(s);
    assert(known_ok(k0)) by {
        assert forall|t: String| #[trigger] k0.objs.contains_key(t) implies obj_known(k0, k0.objs[t]) by { assert(k.objs.contains_key(t)); assert(obj_known(k, k.objs[t])); }
    }
    lemma_entries_ok(k0, ms, ms.len() as int);
    let k1 = with_meta(k, s);
    if s.toc.contains_raw_data {
        lemma_block_ok_known(k1, seg_block(k1, s));
    }
    let k2 = with_data(k1, s);
    let w = with_segment(k, s);
    assert forall|t: String| #[trigger] w.objs.contains_key(t) implies obj_known(w, w.objs[t]) by { assert(k2.objs.contains_key(t)); assert(obj_known(k2, k2.objs[t])); }
}
/// An index whose knowledge is sound is one every read can rely on.
proof fn lemma_index_ok(ix: Index)
    requires known_ok(known(ix)),
    ensures index_ok(ix),
{
    let k = known(ix);
    assert forall|i: int| 0 <= i < ix.data_blocks@.len() implies block_ok(#[trigger] ix.data_blocks@[i]) by {
        assert(block_known(k.blocks[i]));
        assert(k.blocks[i] == block_view(ix.data_blocks@[i]));
    }
    assert forall|s: String| #[trigger] ix.objects@.contains_key(s) implies locs_ok(ix.data_blocks@, ix.objects@[s].data_locations@) by {
        lemma_known_obj(ix.objects@, s);
        assert(k.objs.contains_key(s));
        assert(obj_known(k, k.objs[s]));
        let p = ix.objects@[s].data_locations@;
        assert forall|j: int| 0 <= j < p.len() implies loc_ok(ix.data_blocks@, #[trigger] p[j]) by {
            assert(loc_known(k.blocks, p[j]));
            assert(k.blocks[p[j].data_block as int] == block_view(ix.data_blocks@[p[j].data_block as int]));
        }
    }
    assert forall|s: String, t: String| #[trigger] ix.objects@.contains_key(s) && #[trigger] ix.objects@.contains_key(t) && s != t implies apart(ix.objects@[s].data_locations@, ix.objects@[t].data_locations@) by {
        lemma_known_obj(ix.objects@, s);
        lemma_known_obj(ix.objects@, t);
        assert(k.objs.contains_key(s) && k.objs.contains_key(t));
    }
}
proof fn lemma_history_ok(ss: Seq<Segment>, n: int)
    requires
        0 <= n <= ss.len(),
        all_ok(ss, n),
        forall|i: int| 0 <= i <= n ==> (#[trigger] after_segments(ss, i)).blocks.len() < usize::MAX && after_segments(ss, i).live.len() <= usize::MAX,
    ensures known_ok(after_segments(ss, n)), after_segments(ss, n).next >= 0,
    decreases n,
{
    if n > 0 {
        lemma_history_ok(ss, n - 1);
        let k = after_segments(ss, n - 1);
        assert(segment_ok(k, ss[n - 1]) && segment_plain(ss[n - 1]));
        assert(after_segments(ss, n).live.len() <= usize::MAX);
        lemma_segment_known(k, ss[n - 1]);
    }
}
// ---- R03, I01: what one more segment adds to a channel
/// The place of p among the live objects, or -1.
spec fn live_at(k: Known, p: String) -> int { if k.live.contains(p) { choose|i: int| 0 <= i < k.live.len() && k.live[i] == p } else { -1 } }
/// The locations a segment adds to an object: one if the segment has raw data and the object is live in it.
spec fn added(k: Known, s: Segment, p: String) -> Seq<DataLocation> {
    let m = with_meta(k, s);
    if s.toc.contains_raw_data && m.live.contains(p) { seq![new_loc(m, seg_block(m, s), live_at(m, p))] } else { Seq::empty() }
}
spec fn locs_of(k: Known, p: String) -> Seq<DataLocation> { if k.objs.contains_key(p) { k.objs[p].locs } else { Seq::empty() } }
/// A segment adds its own samples at the end of a channel and touches no other: earlier blocks and locations stay.
proof fn lemma_segment_adds(k: Known, s: Segment, p: String)
    requires
        known_ok(k),
        segment_ok(k, s),
        segment_plain(s),
    ensures
        locs_of(with_segment(k, s), p) == locs_of(k, p) + added(k, s, p),
        with_segment(k, s).blocks == if s.toc.contains_raw_data { k.blocks.push(seg_block(with_meta(k, s), s)) } else { k.blocks },
        prefix(locs_of(with_segment(k, s), p), locs_of(with_segment(k, s), p).len() as int) == prefix(locs_of(k, p), locs_of(k, p).len() as int) + prefix(added(k, s, p), added(k, s, p).len() as int),
{
    let k0 = seg_start(k, s);
    let ms = seg_entries(s);
    assert(known_ok(k0)) by {
        assert forall|t: String| #[trigger] k0.objs.contains_key(t) implies obj_known(k0, k0.objs[t]) by { assert(k.objs.contains_key(t)); assert(obj_known(k, k.objs[t])); }
    }
    lemma_entries_ok(k0, ms, ms.len() as int);
    let m = with_meta(k, s);
    let w = with_segment(k, s);
    assert(locs_of(m, p) =~= locs_of(k, p));
    if s.toc.contains_raw_data {
        let b = seg_block(m, s);
        lemma_placed(m, b, m.live.len() as int);
        assert(m.live.take(m.live.len() as int) =~= m.live);
        if m.live.contains(p) {
            let i = live_at(m, p);
            assert(m.live[i] == p);
            assert(m.objs.contains_key(m.live[i]));
            assert(locs_of(w, p) =~= locs_of(k, p) + added(k, s, p));
        } else {
            assert(locs_of(w, p) =~= locs_of(k, p));
        }
    }
    assert(locs_of(w, p) =~= locs_of(k, p) + added(k, s, p));
    lemma_prefix_add(locs_of(k, p), added(k, s, p));
}
proof fn lemma_prefix_add(a: Seq<DataLocation>, b: Seq<DataLocation>)
    requires b.len() <= 1,
    ensures prefix(a + b, (a + b).len() as int) == prefix(a, a.len() as int) + prefix(b, b.len() as int),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        lemma_prefix_same(a, a + b, a.len() as int);
        assert(prefix(b, 1) == prefix(b, 0) + b[0].number_of_samples);
    }
}
proof fn lemma_prefix_same(a: Seq<DataLocation>, c: Seq<DataLocation>, n: int)
    requires 0 <= n <= a.len(), n <= c.len(), forall|i: int| 0 <= i < n ==> a[i] == #[trigger] c[i],
    ensures prefix(a, n) == prefix(c, n),
    decreases n,
{
    if n > 0 { lemma_prefix_same(a, c, n - 1); }
}
// ---- P01: the value of a property is the one set last
spec fn prop_in(ps: Seq<(String, PropertyValue)>, n: int, name: String) -> Option<PropertyValue>
    decreases n,
{
    if n <= 0 { None } else if ps[n - 1].0 == name { Some(ps[n - 1].1) } else { prop_in(ps, n - 1, name) }
}
spec fn prop_entries(ms: Seq<ObjectMetaData>, n: int, p: String, name: String) -> Option<PropertyValue>
    decreases n,
{
    if n <= 0 { None } else if ms[n - 1].path == p && prop_in(ms[n - 1].properties@, ms[n - 1].properties@.len() as int, name) is Some {
        prop_in(ms[n - 1].properties@, ms[n - 1].properties@.len() as int, name)
    } else { prop_entries(ms, n - 1, p, name) }
}
/// The value the first n segments set last for a property of an object.
spec fn prop_value(ss: Seq<Segment>, n: int, p: String, name: String) -> Option<PropertyValue>
    decreases n,
{
    if n <= 0 { None } else {
        let here = prop_entries(seg_entries(ss[n - 1]), seg_entries(ss[n - 1]).len() as int, p, name);
        if here is Some { here } else { prop_value(ss, n - 1, p, name) }
    }
}
spec fn or_else<T>(a: Option<T>, b: Option<T>) -> Option<T> { if a is Some { a } else { b } }
spec fn prop_of(k: Known, p: String, name: String) -> Option<PropertyValue> {
    if k.objs.contains_key(p) && k.objs[p].props.contains_key(name) { Some(k.objs[p].props[name]) } else { None }
}
spec fn in_props(m: Map<String, PropertyValue>, name: String) -> Option<PropertyValue> { if m.contains_key(name) { Some(m[name]) } else { None } }
proof fn lemma_set_props(m: Map<String, PropertyValue>, ps: Seq<(String, PropertyValue)>, n: int, name: String)
    ensures in_props(set_props(m, ps, n), name) == or_else(prop_in(ps, n, name), in_props(m, name)),
    decreases n,
{
    if n > 0 { lemma_set_props(m, ps, n - 1, name); }
}
proof fn lemma_entries_props(k: Known, ms: Seq<ObjectMetaData>, n: int, p: String, name: String)
    ensures prop_of(with_entries(k, ms, n), p, name) == or_else(prop_entries(ms, n, p, name), prop_of(k, p, name)),
    decreases n,
{
    if n > 0 {
        lemma_entries_props(k, ms, n - 1, p, name);
        let w = with_entries(k, ms, n - 1);
        let e = ms[n - 1];
        lemma_set_props(obj_of(w.objs, e.path).props, e.properties@, e.properties@.len() as int, name);
    }
}
proof fn theorem_last_value(ss: Seq<Segment>, n: int, p: String, name: String)
    requires
        0 <= n <= ss.len(),
        all_ok(ss, n),
        forall|i: int| 0 <= i <= n ==> (#[trigger] after_segments(ss, i)).blocks.len() < usize::MAX && after_segments(ss, i).live.len() <= usize::MAX,
    ensures prop_of(after_segments(ss, n), p, name) == prop_value(ss, n, p, name),
    decreases n,
{
    if n > 0 {
        theorem_last_value(ss, n - 1, p, name);
        let k = after_segments(ss, n - 1);
        let s = ss[n - 1];
        lemma_entries_props(seg_start(k, s), seg_entries(s), seg_entries(s).len() as int, p, name);
        lemma_history_ok(ss, n - 1);
        assert(segment_ok(k, s) && segment_plain(s));
        let k0 = seg_start(k, s);
        assert(known_ok(k0)) by {
            assert forall|t: String| #[trigger] k0.objs.contains_key(t) implies obj_known(k0, k0.objs[t]) by { assert(k.objs.contains_key(t)); assert(obj_known(k, k.objs[t])); }
        }
        lemma_entries_ok(k0, seg_entries(s), seg_entries(s).len() as int);
        let m = with_meta(k, s);
        if s.toc.contains_raw_data { lemma_placed(m, seg_block(m, s), m.live.len() as int); }
        assert(with_segment(k, s).objs.contains_key(p) == m.objs.contains_key(p));
    }
}
// ---- L01: the live objects
/// The data objects of the first n entries, in the order of their first entry.
spec fn listed(ms: Seq<ObjectMetaData>, n: int, from: Seq<String>) -> Seq<String>
    decreases n,
{
    if n <= 0 { from } else {
        let l = listed(ms, n - 1, from);
        if ms[n - 1].raw_data_index is None || l.contains(ms[n - 1].path) { l } else { l.push(ms[n - 1].path) }
    }
}
/// A segment with a new object list has the data objects it lists, another one the earlier ones and then the new ones it lists.
proof fn lemma_live_list(k: Known, s: Segment)
    ensures with_segment(k, s).live == listed(seg_entries(s), seg_entries(s).len() as int, if s.toc.contains_new_object_list { Seq::empty() } else { k.live }),
{
    lemma_entries_live(seg_start(k, s), seg_entries(s), seg_entries(s).len() as int);
}
proof fn lemma_entries_live(k: Known, ms: Seq<ObjectMetaData>, n: int)
    ensures with_entries(k, ms, n).live == listed(ms, n, k.live),
    decreases n,
{
    if n > 0 { lemma_entries_live(k, ms, n - 1); }
}
