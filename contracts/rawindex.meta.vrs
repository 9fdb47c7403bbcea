spec fn parse(b: Seq<u8>, big: bool) -> Option<(RawDataIndex, nat)> {
    match <u32 as TdmsStorageType>::parse(b, big) {
        Some((c, _)) =>
            if c == 0 { Some((RawDataIndex::MatchPrevious, 4)) }
            else if c == 0xFFFF_FFFF { Some((RawDataIndex::None, 4)) }
            else if 0x69120000 <= c <= 0x6913FFFF { None }
            else { match DataType::parse(b.skip(4), big) {
                Some((t, _)) => match <u64 as TdmsStorageType>::parse(b.skip(12), big) {
                    Some((n, _)) => if b.len() < 20 { None } else { Some((RawDataIndex::RawData(RawDataMeta { data_type: t, number_of_values: n, total_size_bytes: None }), 20)) },
                    None => None,
                },
                None => None,
            } },
        None => None,
    }
}
spec fn enc(v: RawDataIndex, big: bool) -> Seq<u8> {
    match v {
        RawDataIndex::None => <u32 as TdmsStorageType>::enc(0xFFFF_FFFF, big),
        RawDataIndex::MatchPrevious => <u32 as TdmsStorageType>::enc(0, big),
        RawDataIndex::RawData(m) => <u32 as TdmsStorageType>::enc(20, big) + DataType::enc(m.data_type, big) + <u32 as TdmsStorageType>::enc(1, big) + <u64 as TdmsStorageType>::enc(m.number_of_values, big),
    }
}
/// A size in bytes is not stored.
spec fn stored_as_is(v: RawDataIndex) -> bool { v is RawData ==> v->RawData_0.total_size_bytes is None }
spec fn sane(v: RawDataIndex) -> bool { v is RawData ==> v->RawData_0.total_size_bytes is None }
proof fn law_within(b: Seq<u8>, big: bool) {}
#[verifier::spinoff_prover]
proof fn law_stored(v: RawDataIndex, rest: Seq<u8>, big: bool) {
    match v {
        RawDataIndex::None => { <u32 as TdmsStorageType>::law_stored(0xFFFF_FFFF, rest, big); },
        RawDataIndex::MatchPrevious => { <u32 as TdmsStorageType>::law_stored(0, rest, big); },
        RawDataIndex::RawData(m) => {
            let a = <u32 as TdmsStorageType>::enc(20, big);
            let t = DataType::enc(m.data_type, big);
            let o = <u32 as TdmsStorageType>::enc(1, big);
            let n = <u64 as TdmsStorageType>::enc(m.number_of_values, big);
            const_SIZE_BYTES_u32();
            const_SIZE_BYTES_u64();
            <u32 as TdmsStorageType>::law_stored(20, t + o + n + rest, big);
            DataType::law_stored(m.data_type, o + n + rest, big);
            <u32 as TdmsStorageType>::law_stored(dt_code(m.data_type), rest, big);
            <u32 as TdmsStorageType>::law_stored(1, n + rest, big);
            <u64 as TdmsStorageType>::law_stored(m.number_of_values, rest, big);
            <u64 as TdmsStorageType>::law_stored(m.number_of_values, rest, !big);
            let b = a + t + o + n + rest;
            assert(b =~= a + (t + o + n + rest));
            assert(b.skip(4) =~= t + (o + n + rest));
            assert(b.skip(12) =~= n + rest);
        },
    }
}
proof fn law_local(b: Seq<u8>, c: Seq<u8>, big: bool) {
    <u32 as TdmsStorageType>::law_local(b, c, big);
    if b.len() >= 4 { lemma_starts_skip(b, c, 4); DataType::law_local(b.skip(4), c.skip(4), big); }
    if b.len() >= 20 { lemma_starts_skip(b, c, 12); <u64 as TdmsStorageType>::law_local(b.skip(12), c.skip(12), big); }
}
