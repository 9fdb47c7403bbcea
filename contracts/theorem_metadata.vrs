/// C02: metadata comes back from its bytes, whatever follows them: the same objects in the same order, each with its path, its raw data index
/// and its properties in their order; and it takes as many bytes in either order.
proof fn theorem_metadata(m: MetaData, rest: Seq<u8>, big: bool)
    ensures
        MetaData::enc(m, big).len() == MetaData::enc(m, !big).len(),
        MetaData::stored_as_is(m) ==> MetaData::parse(MetaData::enc(m, big) + rest, big) == Some((m, MetaData::enc(m, big).len())),
{ MetaData::law_stored(m, rest, big); }
/// C02: a property is its name and then its value (see theorem_value); and every one comes back.
proof fn theorem_property(name: String, v: PropertyValue, rest: Seq<u8>, big: bool)
    ensures
        enc_pair((name, v), big) == <String as TdmsStorageType>::enc(name, big) + PropertyValue::enc(v, big),
        pair_stored((name, v)) ==> parse_pair(enc_pair((name, v), big) + rest, big) == Some(((name, v), enc_pair((name, v), big).len())),
{
    lemma_pair_stored((name, v), rest, big);
}
/// C02: the bytes of an object: its path, its index, the number of its properties, and these in their order.
proof fn theorem_object_bytes(o: ObjectMetaData, rest: Seq<u8>, big: bool)
    ensures
        ObjectMetaData::enc(o, big) == <String as TdmsStorageType>::enc(o.path, big) + RawDataIndex::enc(o.raw_data_index, big)
            + <u32 as TdmsStorageType>::enc(o.properties@.len() as u32, big) + enc_pairs(o.properties@, big, o.properties@.len() as int),
        ObjectMetaData::stored_as_is(o) ==> ObjectMetaData::parse(ObjectMetaData::enc(o, big) + rest, big) == Some((o, ObjectMetaData::enc(o, big).len())),
{ ObjectMetaData::law_stored(o, rest, big); }
/// M01: a list of objects, or of properties, is never longer than the bytes it was read from: reading one ends after as many turns as there are bytes,
/// whatever number of entries is claimed.
proof fn theorem_entries(b: Seq<u8>, big: bool, n: nat)
    ensures
        parse_seq::<ObjectMetaData>(b, big, n) is Some ==> n <= b.len(),
        parse_pairs(b, big, n) is Some ==> n <= b.len(),
{
    lemma_parse_seq::<ObjectMetaData>(b, big, n, n);
    lemma_parse_pairs(b, big, n, n);
}
