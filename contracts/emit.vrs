// ---- emitting segments
/// TRUSTED: the bytes of a string are its UTF-8 form.
#[verifier::external_body]
fn vs_str_bytes(s: &str) -> (r: &[u8])
    ensures r@ == encode_utf8(s@),
{ s.as_bytes() }
proof fn lemma_tag()
    ensures encode_utf8("TDSm"@) == tag(),
{
    reveal_strlit("TDSm");
    assert(is_ascii_chars("TDSm"@));
    is_ascii_chars_encode_utf8("TDSm"@);
    assert(encode_utf8("TDSm"@) =~= tag());
}
spec fn meta_enc(m: Option<MetaData>, big: bool) -> Seq<u8> { match m { Some(x) => MetaData::enc(x, big), None => Seq::empty() } }
/// The lead-in of a segment, from the tag to the metadata.
spec fn lead_in(s: Segment) -> Seq<u8> {
    let big = s.toc.big_endian;
    tag() + ToC::enc(s.toc, big) + <u32 as TdmsStorageType>::enc(4713, big) + <u64 as TdmsStorageType>::enc(s.next_segment_offset, big) + <u64 as TdmsStorageType>::enc(s.raw_data_offset, big)
}
spec fn seg_enc(s: Segment, data: Seq<u8>) -> Seq<u8> { lead_in(s) + meta_enc(s.meta_data, s.toc.big_endian) + data }
/// The segment for this metadata and so many bytes of raw data.
spec fn emitted(toc: ToC, m: Option<MetaData>, data: Option<nat>, big: bool) -> Segment {
    let k = meta_enc(m, false).len();
    Segment {
        toc: ToC { big_endian: big, contains_meta_data: m is Some, contains_raw_data: data is Some, ..toc },
        next_segment_offset: (k + match data { Some(n) => n, None => 0 }) as u64,
        raw_data_offset: k as u64,
        meta_data: m,
    }
}
spec fn data_enc<B: WriteBlock>(d: Option<B>, big: bool) -> Seq<u8> { match d { Some(x) => x.stored(big), None => Seq::empty() } }
spec fn data_len<B: WriteBlock>(d: Option<B>) -> Option<nat> { match d { Some(x) => Some(x.stored(false).len()), None => None } }
/// C02, H01: a segment reads back as itself from its bytes, whatever follows them.
#[verifier::spinoff_prover]
proof fn theorem_segment_stored(s: Segment, data: Seq<u8>, rest: Seq<u8>)
    requires
        s.toc.contains_meta_data <==> s.meta_data is Some,
        s.meta_data is Some ==> MetaData::stored_as_is(s.meta_data->Some_0),
    ensures seg_parse(seg_enc(s, data) + rest) == Some(s),
{
    let big = s.toc.big_endian;
    let b = seg_enc(s, data) + rest;
    let t = ToC::enc(s.toc, big);
    let v = <u32 as TdmsStorageType>::enc(4713, big);
    let n = <u64 as TdmsStorageType>::enc(s.next_segment_offset, big);
    let w = <u64 as TdmsStorageType>::enc(s.raw_data_offset, big);
    let m = meta_enc(s.meta_data, big);
    lemma_toc_len(s.toc, big);
    const_SIZE_BYTES_u32();
    const_SIZE_BYTES_u64();
    <u32 as TdmsStorageType>::law_stored(4713, n + w + m + data + rest, big);
    <u64 as TdmsStorageType>::law_stored(s.next_segment_offset, w + m + data + rest, big);
    <u64 as TdmsStorageType>::law_stored(s.raw_data_offset, m + data + rest, big);
    assert(b.take(4) =~= tag());
    assert(b.subrange(4, 8) =~= t);
    assert(toc_of(value_u32(t)) == s.toc);
    let c = b.skip(8);
    assert(c =~= v + (n + w + m + data + rest));
    assert(c.skip(4) =~= n + (w + m + data + rest));
    assert(c.skip(12) =~= w + (m + data + rest));
    assert(c.skip(20) =~= m + (data + rest));
    if s.meta_data is Some { MetaData::law_stored(s.meta_data->Some_0, data + rest, big); }
}
proof fn lemma_toc_len(t: ToC, big: bool)
    ensures ToC::enc(t, big).len() == 4, toc_of(value_u32(ToC::enc(t, big))) == t,
{
    lemma_u32(toc_bits(t));
    lemma_toc(t);
}
proof fn lemma_lead_in(s: Segment)
    ensures lead_in(s).len() == 28,
{
    let big = s.toc.big_endian;
    lemma_toc_len(s.toc, big);
    const_SIZE_BYTES_u32();
    const_SIZE_BYTES_u64();
    <u32 as TdmsStorageType>::law_stored(4713, Seq::empty(), big);
    <u64 as TdmsStorageType>::law_stored(s.next_segment_offset, Seq::empty(), big);
    <u64 as TdmsStorageType>::law_stored(s.raw_data_offset, Seq::empty(), big);
}
/// H01: the offsets of an emitted segment are the lengths of its parts.
proof fn theorem_segment_lengths<B: WriteBlock>(toc: ToC, m: Option<MetaData>, d: Option<B>, big: bool)
    requires meta_enc(m, false).len() + data_enc(d, false).len() <= u64::MAX,
    ensures
        seg_enc(emitted(toc, m, data_len(d), big), data_enc(d, big)).len() == 28 + emitted(toc, m, data_len(d), big).next_segment_offset,
        emitted(toc, m, data_len(d), big).raw_data_offset == meta_enc(m, big).len(),
        seg_enc(emitted(toc, m, data_len(d), big), data_enc(d, big)).skip(28 + meta_enc(m, big).len() as int) == data_enc(d, big),
{
    let s = emitted(toc, m, data_len(d), big);
    lemma_lead_in(s);
    if m is Some { MetaData::law_stored(m->Some_0, Seq::empty(), big); }
    if d is Some { d->Some_0.law_block(); }
    assert(seg_enc(s, data_enc(d, big)).skip(28 + meta_enc(m, big).len() as int) =~= data_enc(d, big));
}
proof fn lemma_grown()
    ensures
        forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] a.is_prefix_of(b) && #[trigger] b.is_prefix_of(c) ==> a.is_prefix_of(c),
        forall|a: Seq<u8>, b: Seq<u8>| a.is_prefix_of(#[trigger] (a + b)),
{
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] a.is_prefix_of(b) && #[trigger] b.is_prefix_of(c) implies a.is_prefix_of(c) by { assert(a =~= c.subrange(0, a.len() as int)); }
}
proof fn lemma_joined(w0: Seq<u8>, s: Segment, d: Seq<u8>)
    ensures w0 + seg_enc(s, d) == w0 + tag() + ToC::enc(s.toc, s.toc.big_endian) + <u32 as TdmsStorageType>::enc(4713, s.toc.big_endian) + <u64 as TdmsStorageType>::enc(s.next_segment_offset, s.toc.big_endian) + <u64 as TdmsStorageType>::enc(s.raw_data_offset, s.toc.big_endian) + meta_enc(s.meta_data, s.toc.big_endian) + d,
{
    let big = s.toc.big_endian;
    let m = meta_enc(s.meta_data, big);
    assert(w0 + (lead_in(s) + m + d) =~= w0 + lead_in(s) + m + d);
    assert(w0 + lead_in(s) =~= w0 + tag() + ToC::enc(s.toc, big) + <u32 as TdmsStorageType>::enc(4713, big) + <u64 as TdmsStorageType>::enc(s.next_segment_offset, big) + <u64 as TdmsStorageType>::enc(s.raw_data_offset, big));
}
