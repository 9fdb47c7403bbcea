/// TRUSTED: `to_string` of a text gives that text.
#[verifier::external_body]
fn vs_to_string(s: &str) -> (r: String)
    ensures r@ == s@,
{ s.to_string() }
/// T01: which stored types a sample type can be read from, written down independently of the code.
spec fn same(s: Seq<DataType>, a: DataType, b: DataType) -> bool {
    forall|t: DataType| #[trigger] s.contains(t) <==> (t == a || t == b)
}
@each T=i8|i16|i32|i64|u8|u16|u32|u64|f32|f64|bool|LVTime|ExtendedRaw|String|Complex<f32>|Complex<f64> N=i8|i16|i32|i64|u8|u16|u32|u64|f32|f64|bool|LVTime|ExtendedRaw|String|Complex_f32|Complex_f64 A=I8|I16|I32|I64|U8|U16|U32|U64|SingleFloat|DoubleFloat|Boolean|Timestamp|ExtendedFloat|TdmsString|ComplexSingleFloat|ComplexDoubleFloat B=I8|I16|I32|I64|U8|U16|U32|U64|SingleFloatWithUnit|DoubleFloatWithUnit|U8|Timestamp|ExtendedFloatWithUnit|TdmsString|ComplexSingleFloat|ComplexDoubleFloat V=I8|I16|I32|I64|U8|U16|U32|U64|SingleFloat|DoubleFloat|Boolean|Timestamp|Extended|String|ComplexSingleFloat|ComplexDoubleFloat
proof fn theorem_types_@N@(v: @T@)
    ensures
        same(<@T@ as TdmsStorageType>::SUPPORTED_TYPES@, DataType::@A@, DataType::@B@),
        <@T@ as TdmsStorageType>::NATURAL_TYPE == DataType::@A@,
        pv_type(PropertyValue::@V@(v)) == <@T@ as TdmsStorageType>::NATURAL_TYPE,
{
    const_SUPPORTED_TYPES_@N@();
    let s = <@T@ as TdmsStorageType>::SUPPORTED_TYPES@;
    assert forall|t: DataType| #[trigger] s.contains(t) <==> (t == DataType::@A@ || t == DataType::@B@) by {
        if s.contains(t) { let i = choose|i: int| 0 <= i < s.len() && s[i] == t; assert(s[i] == t); }
        if s.len() > 0 { assert(s.contains(s[0])); }
        if s.len() > 1 { assert(s.contains(s[1])); }
    }
}
@end
