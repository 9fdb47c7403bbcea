# the conversions between properties and values of Rust types
@each T=i8|i16|i32|i64|u8|u16|u32|u64|f32|f64|bool|LVTime|Complex<f32>|Complex<f64>|String V=I8|I16|I32|I64|U8|U16|U32|U64|SingleFloat|DoubleFloat|Boolean|Timestamp|ComplexSingleFloat|ComplexDoubleFloat|String
== <PropertyValue as From<@T@>>::from
free vs_from_@V@
ret r
spec {{{
    ensures r == PropertyValue::@V@(value),
}}}

== <@T@ as TryFrom<PropertyValue>>::try_from
free vs_take_@V@
ret r
spec {{{
    ensures
        value is @V@ ==> r == Ok::<@T@, TdmsError>(value->@V@_0),
        !(value is @V@) ==> r is Err,
}}}
@end

@each T=i8|i16|i32|i64|u8|u16|u32|u64|f32|f64|bool|LVTime|Complex<f32>|Complex<f64> V=I8|I16|I32|I64|U8|U16|U32|U64|SingleFloat|DoubleFloat|Boolean|Timestamp|ComplexSingleFloat|ComplexDoubleFloat
== <@T@ as TryFrom<&PropertyValue>>::try_from
free vs_look_@V@
ret r
spec {{{
    ensures
        value is @V@ ==> r == Ok::<@T@, TdmsError>(value->@V@_0),
        !(value is @V@) ==> r is Err,
}}}
@end

== <PropertyValue as From<&str>>::from
free vs_from_str
shim to_string vs_to_string
ret r
spec {{{
    ensures r is String && r->String_0@ == value@,
}}}

== <&str as TryFrom<&PropertyValue>>::try_from
free vs_look_str
ret r
spec {{{
    ensures
        value is String ==> r is Ok && r->Ok_0@ == value->String_0@,
        !(value is String) ==> r is Err,
}}}
