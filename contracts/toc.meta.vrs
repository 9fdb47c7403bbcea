/// Least significant byte first, whatever the order of the rest of the segment.
spec fn parse(b: Seq<u8>, big: bool) -> Option<(ToC, nat)> {
    match <u32 as TdmsStorageType>::parse(b, false) { Some((c, n)) => Some((toc_of(c), n)), None => None }
}
spec fn enc(v: ToC, big: bool) -> Seq<u8> { <u32 as TdmsStorageType>::enc(toc_bits(v), false) }
spec fn stored_as_is(v: ToC) -> bool { true }
spec fn sane(v: ToC) -> bool { true }
proof fn law_within(b: Seq<u8>, big: bool) {}
proof fn law_stored(v: ToC, rest: Seq<u8>, big: bool) {
    <u32 as TdmsStorageType>::law_stored(toc_bits(v), rest, false);
    lemma_toc(v);
}
proof fn law_local(b: Seq<u8>, c: Seq<u8>, big: bool) { <u32 as TdmsStorageType>::law_local(b, c, false); }
