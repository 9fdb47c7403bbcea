// ---- whole sessions
/// A file and what its index knows of it.
ghost struct FileState { ix: Index, b: Seq<u8> }
/// The index knows what is in the bytes, and the bytes end with a segment.
spec fn fine(x: FileState) -> bool {
    &&& known_ok(known(x.ix))
    &&& behind(known(x.ix))
    &&& known(x.ix).next == x.b.len()
    &&& scan(x.b, nothing()) == Some(known(x.ix))
}
/// The samples of a channel.
spec fn samples_in<D: TdmsStorageType>(x: FileState, p: String) -> Seq<D> {
    if x.ix.objects@.contains_key(p) { stored::<D>(x.ix.data_blocks@, x.b, x.ix.objects@[p].data_locations@, x.ix.objects@[p].data_locations@.len() as int) } else { Seq::empty() }
}
/// All samples of a channel are of a type.
spec fn typed<D: TdmsStorageType>(x: FileState, p: String) -> bool {
    x.ix.objects@.contains_key(p) ==> of_type::<D>(x.ix.data_blocks@, x.ix.objects@[p].data_locations@)
}
/// What a call which succeeds makes of a file: it adds a segment to its bytes and to what is known.
spec fn extended(x: FileState, y: FileState, s: Segment, data: Seq<u8>) -> bool {
    &&& segment_ok(known(x.ix), s)
    &&& known(y.ix) == with_segment(known(x.ix), s)
    &&& y.b == x.b + seg_enc(s, data)
    &&& known(x.ix).blocks.len() < usize::MAX
    &&& with_meta(known(x.ix), s).live.len() <= usize::MAX
}
proof fn lemma_extended_fine(x: FileState, y: FileState, s: Segment, data: Seq<u8>)
    requires
        fine(x),
        extended(x, y, s, data),
        whole(s, data),
        segment_plain(s),
    ensures fine(y),
{
    theorem_appended(x.b, known(x.ix), s, data);
    lemma_behind(known(x.ix), s);
    lemma_segment_known(known(x.ix), s);
}
/// A file which was opened is fine, if it ends with a segment.
proof fn lemma_opened_fine(x: FileState)
    requires
        scan(x.b, nothing()) == Some(known(x.ix)),
        scanned_ok(known(x.ix)),
        known(x.ix).next == x.b.len(),
    ensures fine(x),
{ lemma_scan_behind(x.b, nothing()); }
/// A segment which adds nothing to a channel leaves its samples as they are.
proof fn lemma_extended_other<D: TdmsStorageType>(x: FileState, y: FileState, s: Segment, data: Seq<u8>, p: String)
    requires
        fine(x),
        extended(x, y, s, data),
        segment_plain(s),
        D::fixed(),
        typed::<D>(x, p),
        added(known(x.ix), s, p).len() == 0,
    ensures
        samples_in::<D>(y, p) == samples_in::<D>(x, p),
        typed::<D>(y, p),
{
    let k = known(x.ix);
    let w = known(y.ix);
    lemma_segment_adds(k, s, p);
    lemma_known_obj(x.ix.objects@, p);
    lemma_known_obj(y.ix.objects@, p);
    assert(locs_of(w, p) =~= locs_of(k, p));
    if x.ix.objects@.contains_key(p) {
        theorem_kept::<D>(x.ix, y.ix, x.b, s, data, p);
        lemma_typed_kept::<D>(x, y, s, data, p);
    } else if y.ix.objects@.contains_key(p) {
        assert(y.ix.objects@[p].data_locations@.len() == 0);
        assert(samples_in::<D>(y, p) =~= samples_in::<D>(x, p));
    }
}
/// The locations of a channel which were there are of the same type still.
proof fn lemma_typed_kept<D: TdmsStorageType>(x: FileState, y: FileState, s: Segment, data: Seq<u8>, p: String)
    requires
        fine(x),
        extended(x, y, s, data),
        segment_plain(s),
        typed::<D>(x, p),
        x.ix.objects@.contains_key(p),
        y.ix.objects@.contains_key(p),
    ensures
        ({
            let old = x.ix.objects@[p].data_locations@;
            let new = y.ix.objects@[p].data_locations@;
            &&& old.len() <= new.len()
            &&& forall|j: int| 0 <= j < old.len() ==> #[trigger] new[j] == old[j]
            &&& of_type::<D>(y.ix.data_blocks@, old)
        }),
{
    let k = known(x.ix);
    let w = known(y.ix);
    lemma_segment_adds(k, s, p);
    lemma_known_obj(x.ix.objects@, p);
    lemma_known_obj(y.ix.objects@, p);
    lemma_index_ok(x.ix);
    let old = x.ix.objects@[p].data_locations@;
    let new = y.ix.objects@[p].data_locations@;
    assert(locs_of(k, p) == old);
    assert(locs_of(w, p) == new);
    assert forall|j: int| 0 <= j < old.len() implies fits(y.ix.data_blocks@[(#[trigger] old[j]).data_block as int], old[j].channel_index as int) && dt_size(y.ix.data_blocks@[old[j].data_block as int].channels@[old[j].channel_index as int].data_type) == D::SIZE_BYTES by {
        assert(loc_ok(x.ix.data_blocks@, old[j]));
        let i = old[j].data_block as int;
        assert(w.blocks[i] == k.blocks[i]);
        assert(k.blocks.len() == x.ix.data_blocks@.len() && w.blocks.len() == y.ix.data_blocks@.len());
        assert(k.blocks.len() <= w.blocks.len());
        assert(k.blocks[i] == block_view(x.ix.data_blocks@[i]));
        assert(w.blocks[i] == block_view(y.ix.data_blocks@[i]));
        lemma_same_block(x.ix.data_blocks@[i], y.ix.data_blocks@[i], old[j].channel_index as int);
    }
}
proof fn lemma_same_block(a: DataBlock, b: DataBlock, ch: int)
    requires block_view(a) == block_view(b),
    ensures
        fits(a, ch) == fits(b, ch),
        a.channels@ == b.channels@,
        block_ok(a) == block_ok(b),
{
    assert(block_view(a).start == a.start && block_view(a).length == a.length@ && block_view(a).layout == a.layout && block_view(a).channels == a.channels@ && block_view(a).big == (a.byte_order is Big));
    assert(block_view(b).start == b.start && block_view(b).length == b.length@ && block_view(b).layout == b.layout && block_view(b).channels == b.channels@ && block_view(b).big == (b.byte_order is Big));
}
/// The samples of the j-th channel of a write.
spec fn share_of<D>(names: Seq<Seq<char>>, values: Seq<D>, layout: DataLayout, j: int) -> Seq<D> {
    let m = values.len() as int / names.len() as int;
    Seq::new(m as nat, |g: int| values[source(layout, names.len() as int, m, j, g)])
}
/// W01: a write adds to the j-th of its channels its share of the values, behind what was there.
#[verifier::spinoff_prover]
proof fn theorem_write<D: TdmsStorageType>(x: FileState, y: FileState, names: Seq<Seq<char>>, values: Seq<D>, layout: DataLayout, big: bool, j: int)
    requires
        fine(x),
        write_ok::<D>(known(x.ix), names, values),
        extended(x, y, write_segment_of::<D>(known(x.ix), names, values, layout, big), data_of::<D>(values, big)),
        forall|i: int| 0 <= i < values.len() ==> D::stored_as_is(#[trigger] values[i]),
        0 <= j < names.len(),
        typed::<D>(x, string_of(names[j])),
    ensures
        fine(y),
        samples_in::<D>(y, string_of(names[j])) == samples_in::<D>(x, string_of(names[j])) + share_of::<D>(names, values, layout, j),
        typed::<D>(y, string_of(names[j])),
{
    hide(with_segment);
    hide(scan);
    hide(write_segment_of);
    hide(known_ok);
    hide(behind);
    hide(write_meta);
    hide(object_at);
    hide(seg_enc);
    hide(loc_data);
    let k = known(x.ix);
    let s = write_segment_of::<D>(k, names, values, layout, big);
    let data = data_of::<D>(values, big);
    let p = string_of(names[j]);
    let n = names.len() as int;
    let m = values.len() as int / n;
    lemma_write_whole::<D>(k, names, values, layout, big);
    lemma_extended_fine(x, y, s, data);
    lemma_size::<D>(values[0]);
    theorem_written::<D>(k, names, values, layout, big, x.b, y.ix, j);
    lemma_named_object(y.ix, names, j);
    lemma_written_typed::<D>(k, names, values, layout, big, y.ix, j);
    assert(obj_of(k.objs, p).locs == locs_before(x, p)) by { lemma_known_obj(x.ix.objects@, p); }
    if x.ix.objects@.contains_key(p) {
        theorem_kept::<D>(x.ix, y.ix, x.b, s, data, p);
        lemma_typed_kept::<D>(x, y, s, data, p);
    }
    lemma_pushed::<D>(x, y, p, write_loc(k, m, j));
    assert(share_of::<D>(names, values, layout, j) =~= Seq::new(m as nat, |g: int| values[source(layout, n, m, j, g)]));
}
spec fn locs_before(x: FileState, p: String) -> Seq<DataLocation> {
    if x.ix.objects@.contains_key(p) { x.ix.objects@[p].data_locations@ } else { Seq::empty() }
}
/// One more location at the end of those of a channel.
proof fn lemma_pushed<D: TdmsStorageType>(x: FileState, y: FileState, p: String, l: DataLocation)
    requires
        y.ix.objects@.contains_key(p),
        y.ix.objects@[p].data_locations@ == locs_before(x, p).push(l),
        x.ix.objects@.contains_key(p) ==> stored::<D>(y.ix.data_blocks@, y.b, y.ix.objects@[p].data_locations@, locs_before(x, p).len() as int) == samples_in::<D>(x, p),
        x.ix.objects@.contains_key(p) ==> of_type::<D>(y.ix.data_blocks@, locs_before(x, p)),
        fits(y.ix.data_blocks@[l.data_block as int], l.channel_index as int) && dt_size(y.ix.data_blocks@[l.data_block as int].channels@[l.channel_index as int].data_type) == D::SIZE_BYTES,
    ensures
        samples_in::<D>(y, p) == samples_in::<D>(x, p) + loc_data::<D>(y.ix.data_blocks@, y.b, l),
        typed::<D>(y, p),
{
    let bs = y.ix.data_blocks@;
    let old = locs_before(x, p);
    let new = y.ix.objects@[p].data_locations@;
    let n = old.len() as int;
    assert(new[n] == l);
    assert forall|i: int| 0 <= i < new.len() implies fits(bs[(#[trigger] new[i]).data_block as int], new[i].channel_index as int) && dt_size(bs[new[i].data_block as int].channels@[new[i].channel_index as int].data_type) == D::SIZE_BYTES by {
        if i < n { assert(new[i] == old[i]); }
    }
    assert(stored::<D>(bs, y.b, new, n + 1) == stored::<D>(bs, y.b, new, n) + loc_data::<D>(bs, y.b, new[n]));
    if n == 0 { assert(stored::<D>(bs, y.b, new, 0) == Seq::<D>::empty()); assert(samples_in::<D>(x, p) =~= Seq::<D>::empty()); }
}
proof fn lemma_named_object(ix: Index, names: Seq<Seq<char>>, j: int)
    requires
        names_ok(names),
        0 <= j < names.len(),
        object_at(ix, names[j]) is Some,
    ensures
        ix.objects@.contains_key(string_of(names[j])),
        object_at(ix, names[j]) == Some(ix.objects@[string_of(names[j])]),
{
    let p = string_of(names[j]);
    let t = choose|t: String| ix.objects@.contains_key(t) && #[trigger] t@ == names[j];
    assert(ix.objects@.contains_key(t) && t@ == names[j]);
    assert(t == p) by { assert(p@ == names[j]); }
    lemma_at_name(ix.objects@, p);
}
/// What a write adds is of the type written.
proof fn lemma_written_typed<D: TdmsStorageType>(k: Known, names: Seq<Seq<char>>, values: Seq<D>, layout: DataLayout, big: bool, ix: Index, j: int)
    requires
        write_ok::<D>(k, names, values),
        k.blocks.len() < usize::MAX,
        known(ix) == with_segment(k, write_segment_of::<D>(k, names, values, layout, big)),
        0 <= j < names.len(),
    ensures
        ({
            let l = write_loc(k, values.len() as int / names.len() as int, j);
            let b = ix.data_blocks@[l.data_block as int];
            fits(b, l.channel_index as int) && dt_size(b.channels@[l.channel_index as int].data_type) == D::SIZE_BYTES
        }),
{
    let n = names.len() as int;
    let v = values.len() as int;
    let m = v / n;
    let z = D::SIZE_BYTES as int;
    let f = of_samples::<D>(m);
    lemma_size::<D>(values[0]);
    lemma_shares(n, m, v, z);
    lemma_written_loc::<D>(k, names, values, layout, big, ix, j);
    lemma_write_block::<D>(k, names, values, layout, big);
    lemma_enc_all::<D>(values, false, v);
    assert(m <= v) by (nonlinear_arith) requires v == n * m, n > 0, m > 0;
    assert(v <= v * z) by (nonlinear_arith) requires v > 0, z >= 1;
    let bk = ix.data_blocks@[k.blocks.len() as int];
    assert(block_view(bk).start == bk.start && block_view(bk).length == bk.length@ && block_view(bk).layout == bk.layout && block_view(bk).channels == bk.channels@ && block_view(bk).big == (bk.byte_order is Big));
    lemma_uniform(bk.channels@, f, n);
    assert(f.number_of_values == m);
    assert(ch_bytes(f) == m * z);
    assert(bytes_of(bk.channels@, n) == v * z);
    assert(width_of(bk.channels@, n) == n * z);
}
/// A write does not add to the channels it does not name.
proof fn lemma_write_adds<D: TdmsStorageType>(k: Known, names: Seq<Seq<char>>, values: Seq<D>, layout: DataLayout, big: bool, p: String)
    requires
        write_ok::<D>(k, names, values),
        !names.contains(p@),
    ensures
        added(k, write_segment_of::<D>(k, names, values, layout, big), p).len() == 0,
{
    let s = write_segment_of::<D>(k, names, values, layout, big);
    let f = of_samples::<D>(values.len() as int / names.len() as int);
    lemma_meta_written(k, names, f, s);
    assert(with_meta(k, s).live == live_names(names));
    if with_meta(k, s).live.contains(p) {
        let i = choose|i: int| 0 <= i < live_names(names).len() && live_names(names)[i] == p;
        assert(string_of(names[i])@ == names[i]);
        assert(names.contains(p@));
    }
}
/// W01: a write leaves the samples of all channels it does not name as they are, whatever their type.
proof fn theorem_write_others<D: TdmsStorageType, E: TdmsStorageType>(x: FileState, y: FileState, names: Seq<Seq<char>>, values: Seq<D>, layout: DataLayout, big: bool, p: String)
    requires
        fine(x),
        write_ok::<D>(known(x.ix), names, values),
        extended(x, y, write_segment_of::<D>(known(x.ix), names, values, layout, big), data_of::<D>(values, big)),
        !names.contains(p@),
        E::fixed(),
        typed::<E>(x, p),
    ensures
        fine(y),
        samples_in::<E>(y, p) == samples_in::<E>(x, p),
        typed::<E>(y, p),
{
    let k = known(x.ix);
    let s = write_segment_of::<D>(k, names, values, layout, big);
    let data = data_of::<D>(values, big);
    lemma_write_whole::<D>(k, names, values, layout, big);
    lemma_extended_fine(x, y, s, data);
    lemma_write_adds::<D>(k, names, values, layout, big, p);
    lemma_extended_other::<E>(x, y, s, data, p);
}
/// P01, W02: setting properties leaves the samples of all channels as they are.
proof fn theorem_props_others<E: TdmsStorageType>(x: FileState, y: FileState, path: Seq<char>, ps: Seq<(&str, PropertyValue)>, big: bool, p: String)
    requires
        fine(x),
        ps.len() <= u32::MAX,
        known(x.ix).next + 28 + meta_enc(Some(props_meta(path, ps)), false).len() <= i64::MAX,
        MetaData::stored_as_is(props_meta(path, ps)),
        extended(x, y, props_segment(path, ps, big), Seq::empty()),
        E::fixed(),
        typed::<E>(x, p),
    ensures
        fine(y),
        samples_in::<E>(y, p) == samples_in::<E>(x, p),
        typed::<E>(y, p),
{
    let k = known(x.ix);
    let s = props_segment(path, ps, big);
    lemma_props_whole(k, path, ps, big);
    lemma_extended_fine(x, y, s, Seq::empty());
    assert(added(k, s, p).len() == 0);
    lemma_extended_other::<E>(x, y, s, Seq::empty(), p);
}
/// P01: setting properties gives each the value set last for it, and leaves all others as they are.
proof fn theorem_props_set(k: Known, path: Seq<char>, ps: Seq<(&str, PropertyValue)>, big: bool, q: String, name: String)
    requires
        0 <= k.next,
        ps.len() <= u32::MAX,
        k.next + 28 + meta_enc(Some(props_meta(path, ps)), false).len() <= i64::MAX,
        MetaData::stored_as_is(props_meta(path, ps)),
    ensures
        prop_of(with_segment(k, props_segment(path, ps, big)), q, name) == if q == string_of(path) { or_else(prop_in(props_given(ps), ps.len() as int, name), prop_of(k, q, name)) } else { prop_of(k, q, name) },
{
    lemma_props_whole(k, path, ps, big);
    let p = string_of(path);
    lemma_set_props(obj_of(k.objs, p).props, props_given(ps), ps.len() as int, name);
}
/// P01, W01: a write leaves all properties as they are.
proof fn theorem_write_props<D: TdmsStorageType>(k: Known, names: Seq<Seq<char>>, values: Seq<D>, layout: DataLayout, big: bool, q: String, name: String)
    requires
        write_ok::<D>(k, names, values),
    ensures
        prop_of(with_segment(k, write_segment_of::<D>(k, names, values, layout, big)), q, name) == prop_of(k, q, name),
{
    let s = write_segment_of::<D>(k, names, values, layout, big);
    let f = of_samples::<D>(values.len() as int / names.len() as int);
    lemma_write_block::<D>(k, names, values, layout, big);
    lemma_meta_written(k, names, f, s);
    lemma_size::<D>(values[0]);
    let m = with_meta(k, s);
    lemma_entries_written_known(k, names, f, s);
    lemma_placed(m, seg_block(m, s), m.live.len() as int);
    assert(with_segment(k, s).objs.contains_key(q) == m.objs.contains_key(q));
    assert(prop_of(with_segment(k, s), q, name) == prop_of(m, q, name));
    if m.objs.contains_key(q) { assert(m.objs[q].props == obj_of(k.objs, q).props); }
    if k.objs.contains_key(q) { assert(m.objs.contains_key(q)); }
}
/// One call of a session: a write of samples of a type, or anything which adds nothing to the channel asked for:
/// a write which does not name it (theorem_write_others), or setting properties (theorem_props_others).
ghost enum Step<D> {
    Write { names: Seq<Seq<char>>, values: Seq<D>, layout: DataLayout, big: bool },
    Other { s: Segment, data: Seq<u8> },
}
spec fn step_segment<D: TdmsStorageType>(k: Known, t: Step<D>) -> (Segment, Seq<u8>) {
    match t {
        Step::Write { names, values, layout, big } => (write_segment_of::<D>(k, names, values, layout, big), data_of::<D>(values, big)),
        Step::Other { s, data } => (s, data),
    }
}
spec fn step_ok<D: TdmsStorageType>(k: Known, t: Step<D>, p: String) -> bool {
    match t {
        Step::Write { names, values, layout, big } => {
            &&& write_ok::<D>(k, names, values)
            &&& forall|i: int| 0 <= i < values.len() ==> D::stored_as_is(#[trigger] values[i])
        },
        Step::Other { s, data } => segment_plain(s) && whole(s, data) && added(k, s, p).len() == 0,
    }
}
spec fn step_made<D: TdmsStorageType>(x: FileState, y: FileState, t: Step<D>) -> bool {
    extended(x, y, step_segment::<D>(known(x.ix), t).0, step_segment::<D>(known(x.ix), t).1)
}
/// What a step adds to a channel.
spec fn step_adds<D: TdmsStorageType>(t: Step<D>, p: String) -> Seq<D> {
    match t {
        Step::Write { names, values, layout, big } => if names.contains(p@) { share_of::<D>(names, values, layout, choose|j: int| 0 <= j < names.len() && names[j] == p@) } else { Seq::empty() },
        Step::Other { s, data } => Seq::empty(),
    }
}
/// What the first n steps add to a channel, after each other.
spec fn steps_add<D: TdmsStorageType>(ts: Seq<Step<D>>, n: int, p: String) -> Seq<D>
    decreases n,
{
    if n <= 0 { Seq::empty() } else { steps_add::<D>(ts, n - 1, p) + step_adds::<D>(ts[n - 1], p) }
}
proof fn lemma_step<D: TdmsStorageType>(x: FileState, y: FileState, t: Step<D>, p: String)
    requires
        fine(x),
        D::fixed(),
        step_ok::<D>(known(x.ix), t, p),
        step_made::<D>(x, y, t),
        typed::<D>(x, p),
    ensures
        fine(y),
        samples_in::<D>(y, p) == samples_in::<D>(x, p) + step_adds::<D>(t, p),
        typed::<D>(y, p),
{
    let s = step_segment::<D>(known(x.ix), t).0;
    let data = step_segment::<D>(known(x.ix), t).1;
    match t {
        Step::Write { names, values, layout, big } => {
            if names.contains(p@) {
                let j = choose|j: int| 0 <= j < names.len() && names[j] == p@;
                lemma_string_of(p);
                assert(string_of(names[j]) == p);
                theorem_write::<D>(x, y, names, values, layout, big, j);
            } else {
                theorem_write_others::<D, D>(x, y, names, values, layout, big, p);
                assert(samples_in::<D>(x, p) + Seq::<D>::empty() =~= samples_in::<D>(x, p));
            }
        },
        Step::Other { s, data } => {
            lemma_extended_fine(x, y, s, data);
            lemma_extended_other::<D>(x, y, s, data, p);
            assert(samples_in::<D>(x, p) + Seq::<D>::empty() =~= samples_in::<D>(x, p));
        },
    }
}
/// W01, W02, W03: after any number of calls, on a new file or on one which was opened, the samples of a channel are
/// those it had and then what the calls gave it, in the order of the calls; and an index built from the bytes is the one in memory.
proof fn theorem_session<D: TdmsStorageType>(xs: Seq<FileState>, ts: Seq<Step<D>>, n: int, p: String)
    requires
        0 <= n <= ts.len(),
        xs.len() == ts.len() + 1,
        fine(xs[0]),
        D::fixed(),
        typed::<D>(xs[0], p),
        forall|i: int| 0 <= i < n ==> step_ok::<D>(known(xs[i].ix), #[trigger] ts[i], p) && step_made::<D>(xs[i], xs[i + 1], ts[i]),
    ensures
        fine(xs[n]),
        samples_in::<D>(xs[n], p) == samples_in::<D>(xs[0], p) + steps_add::<D>(ts, n, p),
        typed::<D>(xs[n], p),
    decreases n,
{
    if n > 0 {
        theorem_session::<D>(xs, ts, n - 1, p);
        assert(step_ok::<D>(known(xs[n - 1].ix), ts[n - 1], p) && step_made::<D>(xs[n - 1], xs[n - 1 + 1], ts[n - 1]));
        lemma_step::<D>(xs[n - 1], xs[n], ts[n - 1], p);
        assert(samples_in::<D>(xs[0], p) + steps_add::<D>(ts, n - 1, p) + step_adds::<D>(ts[n - 1], p) =~= samples_in::<D>(xs[0], p) + (steps_add::<D>(ts, n - 1, p) + step_adds::<D>(ts[n - 1], p)));
    } else {
        assert(samples_in::<D>(xs[0], p) + Seq::<D>::empty() =~= samples_in::<D>(xs[0], p));
    }
}
/// A file which is empty is fine, and its index knows nothing.
proof fn lemma_new_file(ix: Index)
    requires known(ix) == nothing(),
    ensures fine(FileState { ix, b: Seq::empty() }),
{ lemma_nothing_ok(); }
/// W02, W03: two indexes which know the same tell the same of a file: its objects, their properties and their samples.
proof fn theorem_reopened<D: TdmsStorageType>(x: FileState, jx: Index, p: String)
    requires
        fine(x),
        scan(x.b, nothing()) == Some(known(jx)),
    ensures
        ({
            let y = FileState { ix: jx, b: x.b };
            &&& fine(y)
            &&& index_ok(jx)
            &&& jx.objects@.contains_key(p) == x.ix.objects@.contains_key(p)
            &&& x.ix.objects@.contains_key(p) ==> jx.objects@[p].properties@ == x.ix.objects@[p].properties@ && jx.objects@[p].data_locations@ == x.ix.objects@[p].data_locations@
            &&& samples_in::<D>(y, p) == samples_in::<D>(x, p)
        }),
{
    let y = FileState { ix: jx, b: x.b };
    let k = known(x.ix);
    lemma_known_obj(x.ix.objects@, p);
    lemma_known_obj(jx.objects@, p);
    lemma_index_ok(jx);
    lemma_index_ok(x.ix);
    let bs = x.ix.data_blocks@;
    let cs = jx.data_blocks@;
    assert(known(jx).objs == k.objs);
    assert(known(jx).blocks == k.blocks);
    assert(k.blocks.len() == bs.len() && known(jx).blocks.len() == cs.len());
    assert forall|i: int| 0 <= i < bs.len() implies block_view(#[trigger] bs[i]) == block_view(cs[i]) by { assert(k.blocks[i] == block_view(bs[i])); assert(known(jx).blocks[i] == block_view(cs[i])); }
    if x.ix.objects@.contains_key(p) {
        assert(k.objs.contains_key(p));
        assert(k.objs[p] == obj_view(x.ix.objects@[p]));
        assert(k.objs[p] == obj_view(jx.objects@[p]));
        let l = x.ix.objects@[p].data_locations@;
        assert(jx.objects@[p].data_locations@ == l);
        lemma_same_stored::<D>(bs, cs, x.b, l, l.len() as int);
    } else {
        assert(!k.objs.contains_key(p));
    }
}
proof fn lemma_same_stored<D: TdmsStorageType>(bs: Seq<DataBlock>, cs: Seq<DataBlock>, b: Seq<u8>, l: Seq<DataLocation>, n: int)
    requires
        bs.len() == cs.len(),
        0 <= n <= l.len(),
        forall|i: int| 0 <= i < bs.len() ==> block_view(#[trigger] bs[i]) == block_view(cs[i]),
        forall|j: int| 0 <= j < l.len() ==> loc_ok(bs, #[trigger] l[j]),
    ensures stored::<D>(bs, b, l, n) == stored::<D>(cs, b, l, n),
    decreases n,
{
    if n > 0 {
        lemma_same_stored::<D>(bs, cs, b, l, n - 1);
        assert(loc_ok(bs, l[n - 1]));
        let x = bs[l[n - 1].data_block as int];
        let y = cs[l[n - 1].data_block as int];
        lemma_same_block(x, y, l[n - 1].channel_index as int);
        assert(block_view(x).start == x.start && block_view(x).length == x.length@ && block_view(x).layout == x.layout && block_view(x).big == (x.byte_order is Big));
        assert(block_view(y).start == y.start && block_view(y).length == y.length@ && block_view(y).layout == y.layout && block_view(y).big == (y.byte_order is Big));
        assert(loc_data::<D>(bs, b, l[n - 1]) =~= loc_data::<D>(cs, b, l[n - 1]));
    }
}
