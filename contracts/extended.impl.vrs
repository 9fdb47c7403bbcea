
spec fn parse(b: Seq<u8>, big: bool) -> Option<(ExtendedRaw, nat)> {
    if b.len() < 10 { None } else { Some((ExtendedRaw(le_nat(order(b.subrange(0, 10), big)) as u128), 10)) }
}
spec fn enc(v: ExtendedRaw, big: bool) -> Seq<u8> { order(le_bytes(v.0 as nat, 10), big) }
/// Ten bytes are stored.
spec fn stored_as_is(v: ExtendedRaw) -> bool { v.0 < pow256(10) }
spec fn fixed() -> bool { true }
proof fn law_fixed(b: Seq<u8>, big: bool) { const_SIZE_BYTES_ExtendedRaw(); }
proof fn law_supported(t: DataType) { const_SIZE_BYTES_ExtendedRaw(); const_SUPPORTED_TYPES_ExtendedRaw(); }
proof fn law_stored(v: ExtendedRaw, rest: Seq<u8>, big: bool) {
    const_SIZE_BYTES_ExtendedRaw();
    const_SUPPORTED_TYPES_ExtendedRaw();
    lemma_fits(v.0 as nat, 10);
    lemma_order(le_bytes(v.0 as nat, 10), big);
    lemma_order(le_bytes(v.0 as nat, 10), !big);
    assert((Self::enc(v, big) + rest).subrange(0, 10) =~= Self::enc(v, big));
    if Self::SUPPORTED_TYPES@.len() > 0 { assert(Self::SUPPORTED_TYPES@.contains(Self::SUPPORTED_TYPES@[0])); }
    if Self::SUPPORTED_TYPES@.len() > 1 { assert(Self::SUPPORTED_TYPES@.contains(Self::SUPPORTED_TYPES@[1])); }
}
proof fn law_within(b: Seq<u8>, big: bool) {}
proof fn law_local(b: Seq<u8>, c: Seq<u8>, big: bool) { if b.len() >= 10 { lemma_starts_sub(b, c, 0, 10); } }
