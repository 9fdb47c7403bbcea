// ---- what is written is what is read
/// Names of channels, each once.
spec fn names_ok(names: Seq<Seq<char>>) -> bool {
    &&& forall|i: int| 0 <= i < names.len() ==> string_of(#[trigger] names[i])@ == names[i]
    &&& forall|i: int, j: int| 0 <= i < j < names.len() ==> #[trigger] names[i] != #[trigger] names[j]
}
spec fn live_now(k: Known, names: Seq<Seq<char>>, n: int) -> Seq<String> {
    if live_is(k, names) { k.live } else { Seq::new(n as nat, |i: int| string_of(names[i])) }
}
/// What the first n entries of a write lead to: their channels have the format of the write, nothing else changes.
spec fn entries_written(k: Known, w: Known, names: Seq<Seq<char>>, f: RawDataMeta, n: int) -> bool {
    &&& w.blocks == k.blocks
    &&& w.next == k.next
    &&& w.live == live_now(k, names, n)
    &&& forall|x: String| k.objs.contains_key(x) ==> #[trigger] w.objs.contains_key(x)
    &&& forall|x: String| #[trigger] w.objs.contains_key(x) ==> w.objs[x].props == obj_of(k.objs, x).props && w.objs[x].locs == obj_of(k.objs, x).locs
    &&& forall|x: String| #[trigger] w.objs.contains_key(x) && (forall|j: int| 0 <= j < n ==> string_of(#[trigger] names[j]) != x) ==> k.objs.contains_key(x) && w.objs[x] == k.objs[x]
    &&& forall|j: int| 0 <= j < n ==> w.objs.contains_key(string_of(#[trigger] names[j])) && w.objs[string_of(names[j])].format == Some(f)
}
proof fn lemma_entry_written(k: Known, w: Known, names: Seq<Seq<char>>, f: RawDataMeta, n: int)
    requires
        names_ok(names),
        0 <= n < names.len(),
        entries_written(k, w, names, f, n),
    ensures
        entry_ok_in(w, write_entry(k, names[n], f)),
        entries_written(k, with_entry(w, write_entry(k, names[n], f)), names, f, n + 1),
{
    let e = write_entry(k, names[n], f);
    let p = e.path;
    let v = with_entry(w, e);
    axiom_vec_of(Seq::<(String, PropertyValue)>::empty());
    assert(e.properties@.len() == 0);
    assert forall|j: int| 0 <= j < n implies string_of(#[trigger] names[j]) != p by { assert(names[j] != names[n]); assert(string_of(names[j])@ == names[j]); }
    assert(obj_of(w.objs, p) == obj_of(k.objs, p)) by {
        if k.objs.contains_key(p) { assert(w.objs.contains_key(p)); }
        if w.objs.contains_key(p) { assert(k.objs.contains_key(p)); }
    }
    if live_is(k, names) {
        assert(k.live[n]@ == names[n]);
        lemma_string_of(k.live[n]);
        assert(w.live[n] == p);
        assert(w.live.contains(p));
    } else {
        assert(!w.live.contains(p)) by { if w.live.contains(p) { let i = choose|i: int| 0 <= i < w.live.len() && w.live[i] == p; assert(string_of(names[i]) == p); } }
        assert(v.live =~= live_now(k, names, n + 1));
    }
    assert forall|x: String| k.objs.contains_key(x) implies #[trigger] v.objs.contains_key(x) by { assert(w.objs.contains_key(x)); }
    assert forall|x: String| #[trigger] v.objs.contains_key(x) implies v.objs[x].props == obj_of(k.objs, x).props && v.objs[x].locs == obj_of(k.objs, x).locs by {
        if x != p { assert(w.objs.contains_key(x)); }
    }
    assert forall|x: String| #[trigger] v.objs.contains_key(x) && (forall|j: int| 0 <= j < n + 1 ==> string_of(#[trigger] names[j]) != x) implies k.objs.contains_key(x) && v.objs[x] == k.objs[x] by {
        assert(string_of(names[n]) != x);
        assert(w.objs.contains_key(x));
    }
    assert forall|j: int| 0 <= j < n + 1 implies v.objs.contains_key(string_of(#[trigger] names[j])) && v.objs[string_of(names[j])].format == Some(f) by {
        if j < n { assert(w.objs.contains_key(string_of(names[j]))); }
    }
}
proof fn lemma_entries_written(k: Known, s: Known, names: Seq<Seq<char>>, f: RawDataMeta, n: int)
    requires
        names_ok(names),
        0 <= n <= names.len(),
        s == (Known { live: if live_is(k, names) { k.live } else { Seq::empty() }, ..k }),
    ensures
        entries_ok_in(s, write_entries(k, names, f), n),
        entries_written(k, with_entries(s, write_entries(k, names, f), n), names, f, n),
    decreases n,
{
    let es = write_entries(k, names, f);
    if n == 0 {
        assert(s.live =~= live_now(k, names, 0));
    } else {
        lemma_entries_written(k, s, names, f, n - 1);
        lemma_entry_written(k, with_entries(s, es, n - 1), names, f, n - 1);
        assert forall|i: int| 0 <= i < n implies entry_ok_in(with_entries(s, es, i), #[trigger] es[i]) by { }
    }
}
/// The metadata of a write makes its channels live, with the format of the write.
proof fn lemma_meta_written(k: Known, names: Seq<Seq<char>>, f: RawDataMeta, s: Segment)
    requires
        names_ok(names),
        names.len() > 0,
        names.len() <= u32::MAX,
        s.meta_data == write_meta(k, names, f),
        s.toc.contains_new_object_list == !live_is(k, names),
        known_ok(k),
    ensures
        entries_ok_in(seg_start(k, s), seg_entries(s), seg_entries(s).len() as int),
        entries_written(k, with_meta(k, s), names, f, names.len() as int),
        with_meta(k, s).live == live_names(names),
        live_formats(with_meta(k, s)) == Seq::new(names.len(), |i: int| f),
{
    let n = names.len() as int;
    let w = with_meta(k, s);
    if s.meta_data is None {
        assert forall|j: int| 0 <= j < n implies w.objs.contains_key(string_of(#[trigger] names[j])) && w.objs[string_of(names[j])].format == Some(f) by {
            assert(index_for(k, names[j], f) is MatchPrevious);
            assert(k.live[j]@ == names[j]);
            lemma_string_of(k.live[j]);
        }
        assert(w == k);
        assert(entries_written(k, k, names, f, n));
    } else {
        axiom_vec_of(write_entries(k, names, f));
        assert(seg_entries(s) == write_entries(k, names, f));
        assert(seg_start(k, s).live =~= if live_is(k, names) { k.live } else { Seq::empty() });
        lemma_entries_written(k, seg_start(k, s), names, f, n);
    }
    assert(w.live =~= live_names(names)) by {
        if live_is(k, names) { assert forall|i: int| 0 <= i < n implies #[trigger] k.live[i] == string_of(names[i]) by { lemma_string_of(k.live[i]); } }
    }
    assert(live_formats(w) =~= Seq::new(names.len(), |i: int| f)) by {
        assert forall|i: int| 0 <= i < n implies #[trigger] live_formats(w)[i] == f by { assert(w.live[i] == string_of(names[i])); }
    }
}
spec fn live_names(names: Seq<Seq<char>>) -> Seq<String> { Seq::new(names.len(), |i: int| string_of(names[i])) }
proof fn lemma_uniform(cs: Seq<RawDataMeta>, f: RawDataMeta, n: int)
    requires
        0 <= n <= cs.len(),
        forall|i: int| 0 <= i < cs.len() ==> #[trigger] cs[i] == f,
    ensures
        bytes_of(cs, n) == n * ch_bytes(f),
        width_of(cs, n) == n * dt_size(f.data_type),
    decreases n,
{
    if n > 0 {
        lemma_uniform(cs, f, n - 1);
        assert(n * ch_bytes(f) == (n - 1) * ch_bytes(f) + ch_bytes(f)) by (nonlinear_arith);
        assert(n * dt_size(f.data_type) == (n - 1) * dt_size(f.data_type) + dt_size(f.data_type)) by (nonlinear_arith);
    }
}
/// The stored size of a sample is that of its type.
proof fn lemma_size<D: TdmsStorageType>(v: D)
    requires dt_size(D::NATURAL_TYPE) != 0,
    ensures D::fixed(), dt_size(D::NATURAL_TYPE) == D::SIZE_BYTES, 1 <= D::SIZE_BYTES <= 16,
{
    D::law_stored(v, Seq::empty(), false);
    D::law_supported(D::NATURAL_TYPE);
    D::law_fixed(Seq::empty(), false);
}
/// The raw data of a write: its channels once, each with its share of the samples.
spec fn write_block<D: TdmsStorageType>(k: Known, names: Seq<Seq<char>>, values: Seq<D>, layout: DataLayout, big: bool) -> Block {
    let f = of_samples::<D>(values.len() as int / names.len() as int);
    Block {
        start: k.next + 28 + meta_enc(write_meta(k, names, f), false).len(),
        length: values.len() as int * D::SIZE_BYTES as int,
        layout,
        channels: Seq::new(names.len(), |i: int| f),
        big,
    }
}
/// What is asked of a write which is to be accepted.
spec fn write_ok<D: TdmsStorageType>(k: Known, names: Seq<Seq<char>>, values: Seq<D>) -> bool {
    let f = of_samples::<D>(values.len() as int / names.len() as int);
    &&& !refused::<D>(names, values)
    &&& names_ok(names)
    &&& names.len() <= u32::MAX
    &&& k.next + 28 + meta_enc(write_meta(k, names, f), false).len() + enc_all::<D>(values, false, values.len() as int).len() <= i64::MAX
    &&& 0 <= k.next
    &&& known_ok(k)
    &&& write_meta(k, names, f) is Some ==> MetaData::stored_as_is(write_meta(k, names, f)->Some_0)
}
proof fn lemma_shares(n: int, m: int, v: int, z: int)
    requires 0 < n, 0 < v, v % n == 0, m == v / n, 0 < z,
    ensures
        v == n * m,
        0 < m,
        n * (m * z) == v * z,
        v * z > 0,
        (v * z) / (v * z) == 1,
        (v * z) / (n * z) == m,
        0 < n * z,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, n);
    assert(m > 0) by (nonlinear_arith) requires v == n * m, v > 0, n > 0;
    assert(n * (m * z) == (n * m) * z) by (nonlinear_arith);
    assert(v * z > 0) by (nonlinear_arith) requires v > 0, z > 0;
    assert(n * z > 0) by (nonlinear_arith) requires n > 0, z > 0;
    vstd::arithmetic::div_mod::lemma_div_by_self(v * z);
    assert((n * z) * m == v * z) by (nonlinear_arith) requires v == n * m;
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(m, n * z);
}
#[verifier::spinoff_prover]
proof fn lemma_write_block<D: TdmsStorageType>(k: Known, names: Seq<Seq<char>>, values: Seq<D>, layout: DataLayout, big: bool)
    requires write_ok::<D>(k, names, values),
    ensures
        ({
            let s = write_segment_of::<D>(k, names, values, layout, big);
            let b = write_block::<D>(k, names, values, layout, big);
            &&& seg_block(with_meta(k, s), s) == b
            &&& block_fine(b)
            &&& block_chunks(b) == 1
            &&& b.length == enc_all::<D>(values, big, values.len() as int).len()
            &&& b.start + b.length == k.next + 28 + s.next_segment_offset
            &&& segment_ok(k, s)
            &&& segment_plain(s)
        }),
{
    let n = names.len() as int;
    let v = values.len() as int;
    let m = v / n;
    let f = of_samples::<D>(m);
    let s = write_segment_of::<D>(k, names, values, layout, big);
    let b = write_block::<D>(k, names, values, layout, big);
    let z = D::SIZE_BYTES as int;
    lemma_size::<D>(values[0]);
    lemma_shares(n, m, v, z);
    lemma_enc_all::<D>(values, false, v);
    lemma_enc_all::<D>(values, true, v);
    lemma_meta_written(k, names, f, s);
    assert(m <= v) by (nonlinear_arith) requires v == n * m, n > 0, m > 0;
    assert(v <= v * z) by (nonlinear_arith) requires v > 0, z >= 1;
    assert(f.number_of_values == m);
    assert(ch_bytes(f) == m * z);
    lemma_uniform(b.channels, f, n);
    let sb = seg_block(with_meta(k, s), s);
    assert(sb.channels =~= b.channels);
    assert(with_meta(k, s).next == k.next);
    assert(s.raw_data_offset == meta_enc(write_meta(k, names, f), false).len());
    assert(s.next_segment_offset == s.raw_data_offset + enc_all::<D>(values, false, v).len());
    assert(sb.start == b.start);
    assert(sb.length == b.length);
    assert(sb.layout == b.layout);
    assert(sb.big == b.big);
    assert(sb == b);
    assert(!any_var(b.channels, n));
    if s.meta_data is Some {
        axiom_vec_of(write_entries(k, names, f));
        assert forall|i: int| 0 <= i < seg_entries(s).len() implies entry_plain(#[trigger] seg_entries(s)[i]) by { assert(seg_entries(s)[i] == write_entry(k, names[i], f)); }
    }
}
/// Where a written sample is among the values given.
spec fn source(layout: DataLayout, n: int, m: int, j: int, g: int) -> int {
    if layout is Interleaved { g * n + j } else { j * m + g }
}
proof fn lemma_source(layout: DataLayout, n: int, m: int, j: int, g: int, z: int)
    requires 0 <= j < n, 0 <= g < m, 0 < z,
    ensures
        0 <= source(layout, n, m, j, g) < n * m,
        source(layout, n, m, j, g) * z == if layout is Interleaved { g * (n * z) + j * z } else { j * (m * z) + g * z },
        g / m == 0,
        g % m == g,
{
    assert(0 <= j * m && j * m + g < n * m) by (nonlinear_arith) requires 0 <= j < n, 0 <= g < m;
    assert(0 <= g * n && g * n + j < n * m) by (nonlinear_arith) requires 0 <= j < n, 0 <= g < m;
    assert((g * n + j) * z == g * (n * z) + j * z) by (nonlinear_arith);
    assert((j * m + g) * z == j * (m * z) + g * z) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_basic_div(g, m);
    vstd::arithmetic::div_mod::lemma_small_mod(g as nat, m as nat);
}
/// The bytes of the samples of a write are at the start of its block.
proof fn lemma_sample_written<D: TdmsStorageType>(c: Seq<u8>, st: int, values: Seq<D>, big: bool, i: int)
    requires
        D::fixed(),
        0 <= st,
        0 <= i < values.len(),
        st + enc_all::<D>(values, big, values.len() as int).len() <= c.len(),
        c.subrange(st, st + enc_all::<D>(values, big, values.len() as int).len()) == enc_all::<D>(values, big, values.len() as int),
        D::stored_as_is(values[i]),
    ensures sample_at::<D>(c, st + i * D::SIZE_BYTES as int, big) == values[i],
{
    let d = enc_all::<D>(values, big, values.len() as int);
    let z = D::SIZE_BYTES as int;
    lemma_enc_at::<D>(values, big, values.len() as int, i);
    let e = D::enc(values[i], big);
    let rest = c.skip(st + i * z + z);
    D::law_stored(values[i], rest, big);
    assert(c.skip(st + i * z) =~= e + rest) by {
        assert forall|q: int| 0 <= q < z implies #[trigger] e[q] == c[st + i * z + q] by {
            assert(d.subrange(i * z, i * z + z)[q] == d[i * z + q]);
            assert(c.subrange(st, st + d.len())[i * z + q] == c[st + (i * z + q)]);
        }
    }
}
/// The location of the samples of the j-th channel of a write.
spec fn write_loc(k: Known, m: int, j: int) -> DataLocation {
    DataLocation { data_block: k.blocks.len() as usize, channel_index: j as usize, number_of_samples: m as u64 }
}
/// W01, the index: after a write the j-th of its channels has one more location.
#[verifier::spinoff_prover]
proof fn lemma_written_loc<D: TdmsStorageType>(k: Known, names: Seq<Seq<char>>, values: Seq<D>, layout: DataLayout, big: bool, ix: Index, j: int)
    requires
        write_ok::<D>(k, names, values),
        k.blocks.len() < usize::MAX,
        known(ix) == with_segment(k, write_segment_of::<D>(k, names, values, layout, big)),
        0 <= j < names.len(),
    ensures
        ({
            let m = values.len() as int / names.len() as int;
            &&& object_at(ix, names[j]) is Some
            &&& object_at(ix, names[j])->Some_0.data_locations@ == obj_of(k.objs, string_of(names[j])).locs.push(write_loc(k, m, j))
            &&& ix.data_blocks@.len() == k.blocks.len() + 1
            &&& block_view(ix.data_blocks@[k.blocks.len() as int]) == write_block::<D>(k, names, values, layout, big)
        }),
{
    let n = names.len() as int;
    let v = values.len() as int;
    let m = v / n;
    let f = of_samples::<D>(m);
    let z = D::SIZE_BYTES as int;
    let s = write_segment_of::<D>(k, names, values, layout, big);
    let nb = write_block::<D>(k, names, values, layout, big);
    let w = with_meta(k, s);
    let p = string_of(names[j]);
    lemma_size::<D>(values[0]);
    lemma_shares(n, m, v, z);
    lemma_meta_written(k, names, f, s);
    lemma_write_block::<D>(k, names, values, layout, big);
    lemma_enc_all::<D>(values, false, v);
    assert(m <= v) by (nonlinear_arith) requires v == n * m, n > 0, m > 0;
    assert(v <= v * z) by (nonlinear_arith) requires v > 0, z >= 1;
    assert(f.number_of_values == m);
    lemma_entries_written_known(k, names, f, s);
    lemma_placed(w, nb, n);
    assert(w.live[j] == p);
    assert(w.live.take(n) =~= w.live);
    assert(new_loc(w, nb, j) == write_loc(k, m, j));
    assert(w.objs.contains_key(p));
    assert(known(ix).objs == placed(w, nb, n));
    assert(known(ix).objs.contains_key(p)) by { assert(placed(w, nb, n).dom().contains(p)); }
    lemma_known_obj(ix.objects@, p);
    lemma_at_name(ix.objects@, p);
    assert(known(ix).objs[p].locs == w.objs[p].locs.push(write_loc(k, m, j)));
    assert(known(ix).blocks.len() == k.blocks.len() + 1);
    assert(known(ix).blocks[k.blocks.len() as int] == nb);
}
/// The samples of a write are where its block says.
#[verifier::spinoff_prover]
proof fn lemma_written_data<D: TdmsStorageType>(bk: DataBlock, c: Seq<u8>, values: Seq<D>, n: int, big: bool, j: int)
    requires
        D::fixed(),
        1 <= D::SIZE_BYTES,
        0 < n,
        0 < values.len(),
        values.len() as int % n == 0,
        values.len() as int * D::SIZE_BYTES as int <= u64::MAX,
        dt_size(D::NATURAL_TYPE) == D::SIZE_BYTES,
        bk.channels@ == Seq::new(n as nat, |i: int| of_samples::<D>(values.len() as int / n)),
        (bk.byte_order is Big) == big,
        bk.length@ == values.len() as int * D::SIZE_BYTES as int,
        bk.start + enc_all::<D>(values, big, values.len() as int).len() <= c.len(),
        c.subrange(bk.start as int, bk.start + enc_all::<D>(values, big, values.len() as int).len()) == enc_all::<D>(values, big, values.len() as int),
        forall|i: int| 0 <= i < values.len() ==> D::stored_as_is(#[trigger] values[i]),
        0 <= j < n,
    ensures
        block_len(bk, j) == values.len() as int / n,
        forall|g: int| 0 <= g < values.len() as int / n ==> #[trigger] block_sample::<D>(bk, c, j, g) == values[source(bk.layout, n, values.len() as int / n, j, g)],
{
    let v = values.len() as int;
    let m = v / n;
    let f = of_samples::<D>(m);
    let z = D::SIZE_BYTES as int;
    lemma_shares(n, m, v, z);
    assert(m <= v) by (nonlinear_arith) requires v == n * m, n > 0, m > 0;
    assert(v <= v * z) by (nonlinear_arith) requires v > 0, z >= 1;
    assert(f.number_of_values == m);
    assert(ch_bytes(f) == m * z);
    let cs = bk.channels@;
    lemma_uniform(cs, f, n);
    lemma_uniform(cs, f, j);
    assert(!any_var(cs, n));
    assert(bytes_of(cs, n) == v * z);
    assert(width_of(cs, n) == n * z);
    assert forall|g: int| 0 <= g < m implies #[trigger] block_sample::<D>(bk, c, j, g) == values[source(bk.layout, n, m, j, g)] by {
        lemma_source(bk.layout, n, m, j, g, z);
        let i = source(bk.layout, n, m, j, g);
        assert((g / m) * (n * (m * z)) == 0) by (nonlinear_arith) requires g / m == 0;
        assert((g / m) * (v * z) == 0) by (nonlinear_arith) requires g / m == 0;
        assert(block_pos(bk, j, g) == bk.start + i * z);
        lemma_sample_written::<D>(c, bk.start as int, values, big, i);
    }
}
/// W01: after a write the j-th of its channels has one more location, with its share of the values given, in their order.
#[verifier::spinoff_prover]
proof fn theorem_written<D: TdmsStorageType>(k: Known, names: Seq<Seq<char>>, values: Seq<D>, layout: DataLayout, big: bool, b: Seq<u8>, ix: Index, j: int)
    requires
        write_ok::<D>(k, names, values),
        b.len() == k.next,
        k.blocks.len() < usize::MAX,
        known(ix) == with_segment(k, write_segment_of::<D>(k, names, values, layout, big)),
        forall|i: int| 0 <= i < values.len() ==> D::stored_as_is(#[trigger] values[i]),
        0 <= j < names.len(),
    ensures
        ({
            let s = write_segment_of::<D>(k, names, values, layout, big);
            let c = b + seg_enc(s, enc_all::<D>(values, big, values.len() as int));
            let m = values.len() as int / names.len() as int;
            let l = write_loc(k, m, j);
            &&& object_at(ix, names[j]) is Some
            &&& object_at(ix, names[j])->Some_0.data_locations@ == obj_of(k.objs, string_of(names[j])).locs.push(l)
            &&& block_len(ix.data_blocks@[k.blocks.len() as int], j) == m
            &&& loc_data::<D>(ix.data_blocks@, c, l) == Seq::new(m as nat, |g: int| values[source(layout, names.len() as int, m, j, g)])
        }),
{
    hide(with_segment);
    hide(write_meta);
    hide(lead_in);
    hide(object_at);
    let n = names.len() as int;
    let v = values.len() as int;
    let m = v / n;
    let z = D::SIZE_BYTES as int;
    let s = write_segment_of::<D>(k, names, values, layout, big);
    let d = enc_all::<D>(values, big, v);
    let c = b + seg_enc(s, d);
    let nb = write_block::<D>(k, names, values, layout, big);
    let l = write_loc(k, m, j);
    lemma_size::<D>(values[0]);
    lemma_shares(n, m, v, z);
    lemma_written_loc::<D>(k, names, values, layout, big, ix, j);
    lemma_write_block::<D>(k, names, values, layout, big);
    lemma_enc_all::<D>(values, big, v);
    lemma_lead_in(s);
    let wm = write_meta(k, names, of_samples::<D>(m));
    assert(s.meta_data == wm);
    if wm is Some { MetaData::law_stored(wm->Some_0, Seq::empty(), big); }
    assert(nb.start == b.len() + lead_in(s).len() + meta_enc(s.meta_data, big).len());
    assert(c =~= b + lead_in(s) + meta_enc(s.meta_data, big) + d);
    assert(c.subrange(nb.start, nb.start + d.len()) =~= d);
    let bk = ix.data_blocks@[k.blocks.len() as int];
    assert(block_view(bk) == nb);
    assert(block_view(bk).channels == bk.channels@ && block_view(bk).start == bk.start && block_view(bk).length == bk.length@ && block_view(bk).layout == bk.layout && block_view(bk).big == (bk.byte_order is Big));
    assert(v * z <= u64::MAX);
    lemma_written_data::<D>(bk, c, values, n, big, j);
    assert(m <= v) by (nonlinear_arith) requires v == n * m, n > 0, m > 0;
    assert(v <= v * z) by (nonlinear_arith) requires v > 0, z >= 1;
    assert forall|g: int| 0 <= g < m implies #[trigger] loc_data::<D>(ix.data_blocks@, c, l)[g] == values[source(layout, n, m, j, g)] by {
        assert(block_sample::<D>(bk, c, j, g) == values[source(layout, n, m, j, g)]);
    }
    assert(loc_data::<D>(ix.data_blocks@, c, l) =~= Seq::new(m as nat, |g: int| values[source(layout, n, m, j, g)]));
}
proof fn lemma_entries_written_known(k: Known, names: Seq<Seq<char>>, f: RawDataMeta, s: Segment)
    requires
        names_ok(names),
        0 < names.len() <= u32::MAX,
        s.meta_data == write_meta(k, names, f),
        s.toc.contains_new_object_list == !live_is(k, names),
        known_ok(k),
        plain(f),
    ensures known_ok(with_meta(k, s)),
{
    lemma_meta_written(k, names, f, s);
    let st = seg_start(k, s);
    assert(known_ok(st));
    assert forall|i: int| 0 <= i < seg_entries(s).len() implies entry_plain(#[trigger] seg_entries(s)[i]) by {
        if s.meta_data is Some {
            axiom_vec_of(write_entries(k, names, f));
            assert(seg_entries(s)[i] == write_entry(k, names[i], f));
        }
    }
    lemma_entries_ok(st, seg_entries(s), seg_entries(s).len() as int);
}
