
spec fn parse(b: Seq<u8>, big: bool) -> Option<(Complex<@T@>, nat)> {
    if b.len() < @M@ { None } else {
        Some((Complex { real: value_@T@(order(b.subrange(0, @N@), big)), imaginary: value_@T@(order(b.subrange(@N@, @M@), big)) }, @M@))
    }
}
spec fn enc(v: Complex<@T@>, big: bool) -> Seq<u8> { order(bytes_@T@(v.real), big) + order(bytes_@T@(v.imaginary), big) }
spec fn stored_as_is(v: Complex<@T@>) -> bool { true }
spec fn fixed() -> bool { true }
proof fn law_fixed(b: Seq<u8>, big: bool) { const_SIZE_BYTES_Complex_@T@(); }
proof fn law_supported(t: DataType) { const_SIZE_BYTES_Complex_@T@(); const_SUPPORTED_TYPES_Complex_@T@(); }
proof fn law_stored(v: Complex<@T@>, rest: Seq<u8>, big: bool) {
    const_SIZE_BYTES_Complex_@T@();
    const_SUPPORTED_TYPES_Complex_@T@();
    lemma_@T@(v.real);
    lemma_@T@(v.imaginary);
    lemma_order(bytes_@T@(v.real), big);
    lemma_order(bytes_@T@(v.imaginary), big);
    lemma_order(bytes_@T@(v.real), !big);
    lemma_order(bytes_@T@(v.imaginary), !big);
    assert((Self::enc(v, big) + rest).subrange(0, @N@) =~= order(bytes_@T@(v.real), big));
    assert((Self::enc(v, big) + rest).subrange(@N@, @M@) =~= order(bytes_@T@(v.imaginary), big));
    if Self::SUPPORTED_TYPES@.len() > 0 { assert(Self::SUPPORTED_TYPES@.contains(Self::SUPPORTED_TYPES@[0])); }
    if Self::SUPPORTED_TYPES@.len() > 1 { assert(Self::SUPPORTED_TYPES@.contains(Self::SUPPORTED_TYPES@[1])); }
}
proof fn law_within(b: Seq<u8>, big: bool) {}
proof fn law_local(b: Seq<u8>, c: Seq<u8>, big: bool) { if b.len() >= @M@ { lemma_starts_sub(b, c, 0, @N@); lemma_starts_sub(b, c, @N@, @M@); } }
