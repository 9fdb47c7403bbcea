
spec fn parse(b: Seq<u8>, big: bool) -> Option<(LVTime, nat)> {
    if b.len() < 16 { None } else { Some((value_time(order(b.subrange(0, 16), big)), 16)) }
}
spec fn enc(v: LVTime, big: bool) -> Seq<u8> { order(bytes_time(v), big) }
spec fn stored_as_is(v: LVTime) -> bool { true }
spec fn fixed() -> bool { true }
proof fn law_fixed(b: Seq<u8>, big: bool) { const_SIZE_BYTES_LVTime(); }
proof fn law_supported(t: DataType) { const_SIZE_BYTES_LVTime(); const_SUPPORTED_TYPES_LVTime(); }
proof fn law_stored(v: LVTime, rest: Seq<u8>, big: bool) {
    const_SIZE_BYTES_LVTime();
    const_SUPPORTED_TYPES_LVTime();
    axiom_time(v);
    lemma_order(bytes_time(v), big);
    lemma_order(bytes_time(v), !big);
    assert((Self::enc(v, big) + rest).subrange(0, 16) =~= Self::enc(v, big));
    if Self::SUPPORTED_TYPES@.len() > 0 { assert(Self::SUPPORTED_TYPES@.contains(Self::SUPPORTED_TYPES@[0])); }
    if Self::SUPPORTED_TYPES@.len() > 1 { assert(Self::SUPPORTED_TYPES@.contains(Self::SUPPORTED_TYPES@[1])); }
}
proof fn law_within(b: Seq<u8>, big: bool) {}
proof fn law_local(b: Seq<u8>, c: Seq<u8>, big: bool) { if b.len() >= 16 { lemma_starts_sub(b, c, 0, 16); } }
