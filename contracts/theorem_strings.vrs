/// C02: a text is stored as the number of its bytes and then its UTF-8 form, and comes back.
proof fn theorem_text(v: String, rest: Seq<u8>, big: bool)
    requires encode_utf8(v@).len() <= u32::MAX,
    ensures
        <String as TdmsStorageType>::enc(v, big) == order(bytes_u32(encode_utf8(v@).len() as u32), big) + encode_utf8(v@),
        <String as TdmsStorageType>::parse(<String as TdmsStorageType>::enc(v, big) + rest, big) == Some((v, 4 + encode_utf8(v@).len())),
{
    theorem_codec::<String>(v, rest, big);
    lemma_u32(encode_utf8(v@).len() as u32);
    lemma_order(bytes_u32(encode_utf8(v@).len() as u32), big);
}
