spec fn parse(b: Seq<u8>, big: bool) -> Option<(DataType, nat)> {
    match <u32 as TdmsStorageType>::parse(b, big) {
        Some((c, n)) => match dt_of(c) { Some(t) => Some((t, n)), None => None },
        None => None,
    }
}
spec fn enc(v: DataType, big: bool) -> Seq<u8> { <u32 as TdmsStorageType>::enc(dt_code(v), big) }
spec fn stored_as_is(v: DataType) -> bool { true }
spec fn sane(v: DataType) -> bool { true }
proof fn law_within(b: Seq<u8>, big: bool) {}
proof fn law_stored(v: DataType, rest: Seq<u8>, big: bool) {
    <u32 as TdmsStorageType>::law_stored(dt_code(v), rest, big);
    lemma_dt(v);
}
proof fn law_local(b: Seq<u8>, c: Seq<u8>, big: bool) { <u32 as TdmsStorageType>::law_local(b, c, big); }
