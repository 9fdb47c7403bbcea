/// C01, C02: a value which is stored as it is comes back from its bytes, whatever follows them; it takes as many bytes in either order,
/// as many as its type has in the file, if that is a number at all; and it is written as a type it can be read as.
proof fn theorem_codec<D: TdmsStorageType>(v: D, rest: Seq<u8>, big: bool)
    ensures
        D::stored_as_is(v) ==> D::parse(D::enc(v, big) + rest, big) == Some((v, D::enc(v, big).len())),
        D::enc(v, big).len() == D::enc(v, !big).len(),
        D::fixed() ==> D::enc(v, big).len() == D::SIZE_BYTES && D::SIZE_BYTES == dt_size(D::NATURAL_TYPE),
        D::SUPPORTED_TYPES@.contains(D::NATURAL_TYPE),
        forall|t: DataType| D::SUPPORTED_TYPES@.contains(t) && #[trigger] dt_size(t) != 0 ==> D::SIZE_BYTES == dt_size(t),
{
    D::law_stored(v, rest, big);
    D::law_supported(D::NATURAL_TYPE);
    assert forall|t: DataType| D::SUPPORTED_TYPES@.contains(t) && #[trigger] dt_size(t) != 0 implies D::SIZE_BYTES == dt_size(t) by { D::law_supported(t); }
}
