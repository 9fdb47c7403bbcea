spec fn parse(b: Seq<u8>, big: bool) -> Option<(MetaData, nat)> {
    match <u32 as TdmsStorageType>::parse(b, big) {
        Some((count, _)) => match parse_seq::<ObjectMetaData>(b.skip(4), big, count as nat) {
            Some((s, k)) => Some((MetaData { objects: vec_of(s) }, k + 4)),
            None => None,
        },
        None => None,
    }
}
spec fn enc(v: MetaData, big: bool) -> Seq<u8> {
    <u32 as TdmsStorageType>::enc(v.objects@.len() as u32, big) + enc_seq::<ObjectMetaData>(v.objects@, big, v.objects@.len() as int)
}
spec fn stored_as_is(v: MetaData) -> bool {
    &&& v.objects@.len() <= u32::MAX
    &&& forall|i: int| 0 <= i < v.objects@.len() ==> ObjectMetaData::stored_as_is(#[trigger] v.objects@[i])
}
spec fn sane(v: MetaData) -> bool { forall|i: int| 0 <= i < v.objects@.len() ==> ObjectMetaData::sane(#[trigger] v.objects@[i]) }
proof fn law_within(b: Seq<u8>, big: bool) {
    const_SIZE_BYTES_u32();
    match <u32 as TdmsStorageType>::parse(b, big) { Some((count, _)) => {
        lemma_parse_seq::<ObjectMetaData>(b.skip(4), big, count as nat, count as nat);
        match parse_seq::<ObjectMetaData>(b.skip(4), big, count as nat) { Some((s, k)) => { axiom_vec_of(s); }, None => {} }
    }, None => {} }
}
#[verifier::spinoff_prover]
proof fn law_stored(v: MetaData, rest: Seq<u8>, big: bool) {
    let n = v.objects@.len() as int;
    let c = <u32 as TdmsStorageType>::enc(n as u32, big);
    let e = enc_seq::<ObjectMetaData>(v.objects@, big, n);
    lemma_u32_len(n as u32, big);
    lemma_u32_len(n as u32, !big);
    lemma_enc_seq::<ObjectMetaData>(v.objects@, n, n);
    <u32 as TdmsStorageType>::law_stored(n as u32, e + rest, big);
    if Self::stored_as_is(v) {
        lemma_round_seq::<ObjectMetaData>(v.objects@, rest, big, n);
        assert(v.objects@.take(n) =~= v.objects@);
        lemma_vec_of_objects(v.objects);
        assert(c + e + rest =~= c + (e + rest));
        assert((c + (e + rest)).skip(4) =~= e + rest);
    }
}
proof fn law_local(b: Seq<u8>, c: Seq<u8>, big: bool) {
    <u32 as TdmsStorageType>::law_local(b, c, big);
    lemma_u32_takes(b, big);
    match <u32 as TdmsStorageType>::parse(b, big) { Some((count, _)) => {
        lemma_starts_skip(b, c, 4);
        lemma_local_seq::<ObjectMetaData>(b.skip(4), c.skip(4), big, count as nat);
    }, None => {} }
}
