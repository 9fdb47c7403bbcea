// ---- properties
/// The value after the four bytes of a type.
spec fn second<T: TdmsStorageType>(b: Seq<u8>, big: bool) -> Option<(T, nat)> {
    match T::parse(b.skip(4), big) { Some((v, n)) => Some((v, n + 4)), None => None }
}
proof fn lemma_dt_len(t: DataType, big: bool)
    ensures DataType::enc(t, big).len() == 4,
{
    const_SIZE_BYTES_u32();
    <u32 as TdmsStorageType>::law_stored(dt_code(t), Seq::empty(), big);
}
proof fn lemma_second<T: TdmsStorageType>(t: DataType, x: T, rest: Seq<u8>, big: bool)
    ensures
        (DataType::enc(t, big) + T::enc(x, big)).len() == (DataType::enc(t, !big) + T::enc(x, !big)).len(),
        DataType::parse(DataType::enc(t, big) + T::enc(x, big) + rest, big) == Some((t, 4nat)),
        T::stored_as_is(x) ==> second::<T>(DataType::enc(t, big) + T::enc(x, big) + rest, big) == Some((x, (DataType::enc(t, big) + T::enc(x, big)).len())),
{
    let a = DataType::enc(t, big);
    let e = T::enc(x, big);
    lemma_dt_len(t, big);
    DataType::law_stored(t, e + rest, big);
    T::law_stored(x, rest, big);
    assert(a + e + rest =~= a + (e + rest));
    assert((a + (e + rest)).skip(4) =~= e + rest);
}
