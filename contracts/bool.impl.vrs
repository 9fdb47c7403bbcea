
spec fn parse(b: Seq<u8>, big: bool) -> Option<(bool, nat)> {
    if b.len() < 1 { None } else { Some((b[0] != 0, 1)) }
}
spec fn enc(v: bool, big: bool) -> Seq<u8> { seq![if v { 1u8 } else { 0u8 }] }
spec fn stored_as_is(v: bool) -> bool { true }
spec fn fixed() -> bool { true }
proof fn law_fixed(b: Seq<u8>, big: bool) { const_SIZE_BYTES_bool(); }
proof fn law_supported(t: DataType) { const_SIZE_BYTES_bool(); const_SUPPORTED_TYPES_bool(); }
proof fn law_stored(v: bool, rest: Seq<u8>, big: bool) {
    const_SIZE_BYTES_bool();
    const_SUPPORTED_TYPES_bool();
    if Self::SUPPORTED_TYPES@.len() > 0 { assert(Self::SUPPORTED_TYPES@.contains(Self::SUPPORTED_TYPES@[0])); }
    if Self::SUPPORTED_TYPES@.len() > 1 { assert(Self::SUPPORTED_TYPES@.contains(Self::SUPPORTED_TYPES@[1])); }
}
proof fn law_within(b: Seq<u8>, big: bool) {}
proof fn law_local(b: Seq<u8>, c: Seq<u8>, big: bool) {}
