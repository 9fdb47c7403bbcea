spec fn parse(b: Seq<u8>, big: bool) -> Option<(ObjectMetaData, nat)> {
    match <String as TdmsStorageType>::parse(b, big) {
        Some((path, n)) => match RawDataIndex::parse(b.skip(n as int), big) {
            Some((ix, m)) => match <u32 as TdmsStorageType>::parse(b.skip((n + m) as int), big) {
                Some((count, _)) => match parse_pairs(b.skip((n + m + 4) as int), big, count as nat) {
                    Some((ps, k)) => Some((ObjectMetaData { path, properties: vec_of(ps), raw_data_index: ix }, n + m + 4 + k)),
                    None => None,
                },
                None => None,
            },
            None => None,
        },
        None => None,
    }
}
spec fn enc(v: ObjectMetaData, big: bool) -> Seq<u8> {
    <String as TdmsStorageType>::enc(v.path, big) + RawDataIndex::enc(v.raw_data_index, big) + <u32 as TdmsStorageType>::enc(v.properties@.len() as u32, big) + enc_pairs(v.properties@, big, v.properties@.len() as int)
}
spec fn stored_as_is(v: ObjectMetaData) -> bool {
    &&& <String as TdmsStorageType>::stored_as_is(v.path)
    &&& RawDataIndex::stored_as_is(v.raw_data_index)
    &&& v.properties@.len() <= u32::MAX
    &&& forall|i: int| 0 <= i < v.properties@.len() ==> pair_stored(#[trigger] v.properties@[i])
}
spec fn sane(v: ObjectMetaData) -> bool { RawDataIndex::sane(v.raw_data_index) }
proof fn law_within(b: Seq<u8>, big: bool) {
    <String as TdmsStorageType>::law_within(b, big);
    match <String as TdmsStorageType>::parse(b, big) {
        Some((path, n)) => {
            RawDataIndex::law_within(b.skip(n as int), big);
            match RawDataIndex::parse(b.skip(n as int), big) {
                Some((ix, m)) => {
                    const_SIZE_BYTES_u32();
                    match <u32 as TdmsStorageType>::parse(b.skip((n + m) as int), big) {
                        Some((count, _)) => { lemma_parse_pairs(b.skip((n + m + 4) as int), big, count as nat, count as nat); },
                        None => {},
                    }
                },
                None => {},
            }
        },
        None => {},
    }
}
proof fn law_stored(v: ObjectMetaData, rest: Seq<u8>, big: bool) {
    let a = <String as TdmsStorageType>::enc(v.path, big);
    let x = RawDataIndex::enc(v.raw_data_index, big);
    let n = v.properties@.len() as int;
    let c = <u32 as TdmsStorageType>::enc(n as u32, big);
    let p = enc_pairs(v.properties@, big, n);
    lemma_u32_len(n as u32, big);
    lemma_u32_len(n as u32, !big);
    <String as TdmsStorageType>::law_stored(v.path, x + c + p + rest, big);
    RawDataIndex::law_stored(v.raw_data_index, c + p + rest, big);
    <u32 as TdmsStorageType>::law_stored(n as u32, p + rest, big);
    lemma_enc_pairs(v.properties@, n, n);
    if Self::stored_as_is(v) {
        lemma_round_pairs(v.properties@, rest, big, n);
        assert(v.properties@.take(n) =~= v.properties@);
        lemma_vec_of_properties(v.properties);
        let b = Self::enc(v, big) + rest;
        assert(b =~= a + (x + c + p + rest));
        assert(b.skip(a.len() as int) =~= x + (c + p + rest));
        assert(x + (c + p + rest) =~= x + c + p + rest);
        assert(b.skip((a.len() + x.len()) as int) =~= c + (p + rest));
        assert(b.skip((a.len() + x.len() + 4) as int) =~= p + rest);
        assert(c + (p + rest) =~= c + p + rest);
    }
}
proof fn law_local(b: Seq<u8>, c: Seq<u8>, big: bool) {
    <String as TdmsStorageType>::law_within(b, big);
    <String as TdmsStorageType>::law_local(b, c, big);
    match <String as TdmsStorageType>::parse(b, big) {
        Some((path, n)) => {
            lemma_starts_skip(b, c, n as int);
            RawDataIndex::law_within(b.skip(n as int), big);
            RawDataIndex::law_local(b.skip(n as int), c.skip(n as int), big);
            match RawDataIndex::parse(b.skip(n as int), big) {
                Some((ix, m)) => {
                    const_SIZE_BYTES_u32();
                    lemma_starts_skip(b, c, (n + m) as int);
                    <u32 as TdmsStorageType>::law_local(b.skip((n + m) as int), c.skip((n + m) as int), big);
                    <u32 as TdmsStorageType>::law_within(b.skip((n + m) as int), big);
                    match <u32 as TdmsStorageType>::parse(b.skip((n + m) as int), big) {
                        Some((count, w)) => {
                            lemma_u32_takes(b.skip((n + m) as int), big);
                            lemma_starts_skip(b, c, (n + m + 4) as int);
                            lemma_local_pairs(b.skip((n + m + 4) as int), c.skip((n + m + 4) as int), big, count as nat);
                        },
                        None => {},
                    }
                },
                None => {},
            }
        },
        None => {},
    }
}
