
spec fn parse(b: Seq<u8>, big: bool) -> Option<(String, nat)> {
    if b.len() < 4 { None } else {
        let n = value_u32(order(b.subrange(0, 4), big)) as nat;
        match text(b.skip(4), n) { Some(s) => Some((s, n + 4)), None => None }
    }
}
spec fn enc(v: String, big: bool) -> Seq<u8> {
    order(bytes_u32(encode_utf8(v@).len() as u32), big) + encode_utf8(v@)
}
/// The length is stored in 32 bits.
spec fn stored_as_is(v: String) -> bool { encode_utf8(v@).len() <= u32::MAX }
spec fn fixed() -> bool { false }
proof fn law_fixed(b: Seq<u8>, big: bool) {}
proof fn law_supported(t: DataType) { const_SUPPORTED_TYPES_String(); }
proof fn law_stored(v: String, rest: Seq<u8>, big: bool) {
    const_SUPPORTED_TYPES_String();
    let e = encode_utf8(v@);
    let n = e.len() as u32;
    lemma_u32(n);
    lemma_order(bytes_u32(n), big);
    lemma_order(bytes_u32(n), !big);
    if Self::stored_as_is(v) {
        let b = Self::enc(v, big) + rest;
        assert(b.subrange(0, 4) =~= order(bytes_u32(n), big));
        assert(b.skip(4).subrange(0, n as int) =~= e);
        encode_utf8_valid_utf8(v@);
        encode_utf8_decode_utf8(v@);
        lemma_string_of(v);
    }
    if Self::SUPPORTED_TYPES@.len() > 0 { assert(Self::SUPPORTED_TYPES@.contains(Self::SUPPORTED_TYPES@[0])); }
    if Self::SUPPORTED_TYPES@.len() > 1 { assert(Self::SUPPORTED_TYPES@.contains(Self::SUPPORTED_TYPES@[1])); }
}
proof fn law_within(b: Seq<u8>, big: bool) {}
proof fn law_local(b: Seq<u8>, c: Seq<u8>, big: bool) {
    if b.len() >= 4 {
        lemma_starts_sub(b, c, 0, 4);
        lemma_starts_skip(b, c, 4);
        let n = value_u32(order(b.subrange(0, 4), big)) as int;
        if b.skip(4).len() >= n { lemma_starts_sub(b.skip(4), c.skip(4), 0, n); }
    }
}
