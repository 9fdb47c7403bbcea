/// C02: the value of a property is the code of the type it holds and then what it holds; and it comes back, as the type it was.
proof fn theorem_value(v: PropertyValue, rest: Seq<u8>, big: bool)
    ensures
        PropertyValue::enc(v, big).take(4) == <u32 as TdmsStorageType>::enc(dt_code(pv_type(v)), big),
        PropertyValue::enc(v, big).len() == PropertyValue::enc(v, !big).len(),
        PropertyValue::stored_as_is(v) ==> PropertyValue::parse(PropertyValue::enc(v, big) + rest, big) == Some((v, PropertyValue::enc(v, big).len())),
{
    PropertyValue::law_stored(v, rest, big);
    lemma_dt_len(pv_type(v), big);
    assert(PropertyValue::enc(v, big).take(4) =~= DataType::enc(pv_type(v), big));
}
