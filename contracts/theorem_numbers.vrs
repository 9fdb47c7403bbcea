@each T=i8|u8|i16|u16|i32|u32|i64|u64|f32|f64 N=1|1|2|2|4|4|8|8|4|8
/// C01: the bytes of a number in one order are those in the other, backwards; every string of bytes is a number, and comes back.
proof fn theorem_bytes_@T@(v: @T@, b: Seq<u8>, big: bool)
    requires b.len() == @N@,
    ensures
        <@T@ as TdmsStorageType>::enc(v, true) == <@T@ as TdmsStorageType>::enc(v, false).reverse(),
        <@T@ as TdmsStorageType>::enc(v, big).len() == @N@,
        <@T@ as TdmsStorageType>::parse(<@T@ as TdmsStorageType>::enc(v, big) + b, big) == Some((v, @N@nat)),
        <@T@ as TdmsStorageType>::parse(b, big) is Some,
{
    lemma_@T@(v);
    theorem_codec::<@T@>(v, b, big);
    <@T@ as TdmsStorageType>::law_fixed(b, big);
    const_SIZE_BYTES_@T@();
}
@end
