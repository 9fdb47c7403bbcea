// ---- reading a file from its start
/// TRUSTED: the derived default of an index is empty.
#[verifier::external_body]
fn vs_no_index() -> (r: Index)
    ensures r.active_objects@.len() == 0, r.objects@ == Map::<String, ObjectData>::empty(), r.data_blocks@.len() == 0, r.next_segment_start == 0,
{ unimplemented!() }
proof fn lemma_no_index(ix: Index)
    requires ix.active_objects@.len() == 0, ix.objects@ == Map::<String, ObjectData>::empty(), ix.data_blocks@.len() == 0, ix.next_segment_start == 0,
    ensures known(ix) == nothing(), live_ok(ix.active_objects@, ix.objects@),
{
    assert(known(ix).live =~= Seq::empty());
    assert(known(ix).blocks =~= Seq::empty());
    assert(known(ix).objs =~= Map::empty());
}
/// What is known from the segments of the bytes, each starting where the one before it says: up to the first start
/// with fewer than four bytes left. None: one of them is no segment, or is not accepted.
spec fn scan(b: Seq<u8>, k: Known) -> Option<Known>
    decreases u64::MAX - k.next,
{
    if k.next + 4 > b.len() { Some(k) } else {
        match seg_parse(b.skip(k.next)) {
            Some(s) => if segment_ok(k, s) { scan(b, with_segment(k, s)) } else { None },
            None => None,
        }
    }
}
proof fn lemma_next(ix: Index)
    ensures known(ix).next == ix.next_segment_start, 0 <= known(ix).next <= u64::MAX,
{ }
proof fn lemma_next_segment(k: Known, s: Segment)
    requires segment_ok(k, s),
    ensures
        with_segment(k, s).next == k.next + 28 + s.next_segment_offset,
        with_segment(k, s).next <= u64::MAX,
{ }
/// No size in bytes is read.
proof fn lemma_parsed_plain(b: Seq<u8>)
    ensures seg_parse(b) is Some ==> segment_plain(seg_parse(b)->Some_0),
{
    if b.len() >= 8 {
        let toc = toc_of(value_u32(b.subrange(4, 8)));
        if b.skip(8).len() >= 20 {
            let m = b.skip(8).skip(20);
            MetaData::law_within(m, toc.big_endian);
            match MetaData::parse(m, toc.big_endian) {
                Some((v, _)) => {
                    assert forall|i: int| 0 <= i < v.objects@.len() implies entry_plain(#[trigger] v.objects@[i]) by { assert(ObjectMetaData::sane(v.objects@[i])); }
                },
                None => {},
            }
        }
    }
}
/// What holds of everything known while scanning: there are fewer blocks than lead-ins would fit.
spec fn scanned_ok(k: Known) -> bool {
    &&& known_ok(k)
    &&& 28 * k.blocks.len() <= k.next
}
proof fn lemma_scanned(k: Known, s: Segment)
    requires
        scanned_ok(k),
        k.next <= u64::MAX,
        segment_ok(k, s),
        segment_plain(s),
        with_segment(k, s).live.len() <= usize::MAX,
    ensures scanned_ok(with_segment(k, s)),
{
    lemma_segment_known(k, s);
    lemma_entries_blocks(seg_start(k, s), seg_entries(s), seg_entries(s).len() as int);
}
proof fn lemma_entries_blocks(k: Known, ms: Seq<ObjectMetaData>, n: int)
    ensures with_entries(k, ms, n).blocks == k.blocks,
    decreases n,
{
    if n > 0 { lemma_entries_blocks(k, ms, n - 1); }
}
proof fn lemma_nothing_scanned()
    ensures scanned_ok(nothing()),
{ lemma_nothing_ok(); }
proof fn lemma_scanned_index(ix: Index)
    requires scanned_ok(known(ix)),
    ensures index_ok(ix),
{ lemma_index_ok(ix); }
