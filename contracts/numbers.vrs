global size_of f32 == 4;
global size_of f64 == 8;
// ---- the numeric types: the value of their bytes, least significant first
@each T=u8|u16|u32|u64|u128 N=1|2|4|8|16
spec fn value_@T@(s: Seq<u8>) -> @T@ { le_nat(s) as @T@ }
spec fn bytes_@T@(v: @T@) -> Seq<u8> { le_bytes(v as nat, @N@) }
proof fn lemma_@T@(v: @T@) ensures bytes_@T@(v).len() == @N@, value_@T@(bytes_@T@(v)) == v { lemma_le_bytes(v as nat, @N@); lemma_pow256(); }
@end
@each T=i8|i16|i32|i64 U=u8|u16|u32|u64 N=1|2|4|8
spec fn value_@T@(s: Seq<u8>) -> @T@ { le_nat(s) as @U@ as @T@ }
spec fn bytes_@T@(v: @T@) -> Seq<u8> { le_bytes((v as @U@) as nat, @N@) }
proof fn lemma_@T@(v: @T@) ensures bytes_@T@(v).len() == @N@, value_@T@(bytes_@T@(v)) == v {
    lemma_le_bytes((v as @U@) as nat, @N@);
    lemma_pow256();
    assert((v as @U@) as @T@ == v) by (bit_vector);
}
@end
@each T=f32|f64 U=u32|u64 N=4|8
/// The number with these IEEE bits.
uninterp spec fn of_bits_@T@(b: @U@) -> @T@;
uninterp spec fn to_bits_@T@(v: @T@) -> @U@;
/// TRUSTED: the bits of a @T@ determine it.
#[verifier::external_body]
proof fn axiom_bits_@T@(v: @T@) ensures of_bits_@T@(to_bits_@T@(v)) == v {}
spec fn value_@T@(s: Seq<u8>) -> @T@ { of_bits_@T@(le_nat(s) as @U@) }
spec fn bytes_@T@(v: @T@) -> Seq<u8> { le_bytes(to_bits_@T@(v) as nat, @N@) }
proof fn lemma_@T@(v: @T@) ensures bytes_@T@(v).len() == @N@, value_@T@(bytes_@T@(v)) == v {
    lemma_le_bytes(to_bits_@T@(v) as nat, @N@);
    lemma_pow256();
    axiom_bits_@T@(v);
}
@end
@each T=i8|u8|i16|u16|i32|u32|i64|u64|f32|f64|u128 N=1|1|2|2|4|4|8|8|4|8|16
/// TRUSTED: @T@::from_le_bytes, from_be_bytes, to_le_bytes and to_be_bytes are the two's complement or IEEE bytes in that order.
#[verifier::external_body]
fn vs_from_le_@T@(b: [u8; @N@]) -> (r: @T@) ensures r == value_@T@(b@) { @T@::from_le_bytes(b) }
#[verifier::external_body]
fn vs_from_be_@T@(b: [u8; @N@]) -> (r: @T@) ensures r == value_@T@(b@.reverse()) { @T@::from_be_bytes(b) }
#[verifier::external_body]
fn vs_to_le_@T@(v: &@T@) -> (r: [u8; @N@]) ensures r@ == bytes_@T@(*v) { v.to_le_bytes() }
#[verifier::external_body]
fn vs_to_be_@T@(v: &@T@) -> (r: [u8; @N@]) ensures r@ == bytes_@T@(*v).reverse() { v.to_be_bytes() }
@end
