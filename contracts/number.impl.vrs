
spec fn parse(b: Seq<u8>, big: bool) -> Option<(@T@, nat)> {
    if b.len() < @N@ { None } else { Some((value_@T@(order(b.subrange(0, @N@), big)), @N@)) }
}
spec fn enc(v: @T@, big: bool) -> Seq<u8> { order(bytes_@T@(v), big) }
spec fn stored_as_is(v: @T@) -> bool { true }
spec fn fixed() -> bool { true }
proof fn law_fixed(b: Seq<u8>, big: bool) { const_SIZE_BYTES_@T@(); }
proof fn law_supported(t: DataType) { const_SIZE_BYTES_@T@(); const_SUPPORTED_TYPES_@T@(); }
proof fn law_stored(v: @T@, rest: Seq<u8>, big: bool) {
    lemma_@T@(v);
    lemma_order(bytes_@T@(v), big);
    lemma_order(bytes_@T@(v), !big);
    assert((Self::enc(v, big) + rest).subrange(0, @N@) =~= Self::enc(v, big));
    const_SIZE_BYTES_@T@();
    const_SUPPORTED_TYPES_@T@();
    if Self::SUPPORTED_TYPES@.len() > 0 { assert(Self::SUPPORTED_TYPES@.contains(Self::SUPPORTED_TYPES@[0])); }
    if Self::SUPPORTED_TYPES@.len() > 1 { assert(Self::SUPPORTED_TYPES@.contains(Self::SUPPORTED_TYPES@[1])); }
}
proof fn law_within(b: Seq<u8>, big: bool) {}
proof fn law_local(b: Seq<u8>, c: Seq<u8>, big: bool) { if b.len() >= @N@ { lemma_starts_sub(b, c, 0, @N@); } }
