// ---- objects
/// TRUSTED: vectors of the same elements are equal.
#[verifier::external_body]
proof fn axiom_same_objects(a: Vec<ObjectMetaData>, b: Vec<ObjectMetaData>)
    ensures a@ == b@ ==> a == b,
{}
/// TRUSTED: vectors of the same elements are equal.
#[verifier::external_body]
proof fn axiom_same_properties(a: Vec<(String, PropertyValue)>, b: Vec<(String, PropertyValue)>)
    ensures a@ == b@ ==> a == b,
{}
/// The vector of these elements.
spec fn vec_of<T>(s: Seq<T>) -> Vec<T> { choose|v: Vec<T>| #[trigger] v@ == s }
/// TRUSTED: any sequence (of up to 2^32 elements) is that of a vector.
#[verifier::external_body]
proof fn axiom_vec_of<T>(s: Seq<T>)
    requires s.len() <= u32::MAX,
    ensures vec_of(s)@ == s,
{}
proof fn lemma_vec_of_objects(v: Vec<ObjectMetaData>)
    ensures vec_of(v@) == v,
{ axiom_same_objects(vec_of(v@), v); }
proof fn lemma_vec_of_properties(v: Vec<(String, PropertyValue)>)
    ensures vec_of(v@) == v,
{ axiom_same_properties(vec_of(v@), v); }
/// A property: its name, then its value.
spec fn parse_pair(b: Seq<u8>, big: bool) -> Option<((String, PropertyValue), nat)> {
    match <String as TdmsStorageType>::parse(b, big) {
        Some((name, n)) => match PropertyValue::parse(b.skip(n as int), big) { Some((v, m)) => Some(((name, v), n + m)), None => None },
        None => None,
    }
}
spec fn parse_pairs(b: Seq<u8>, big: bool, n: nat) -> Option<(Seq<(String, PropertyValue)>, nat)>
    decreases n,
{
    if n == 0 { Some((Seq::empty(), 0)) } else {
        match parse_pairs(b, big, (n - 1) as nat) {
            Some((s, k)) => match parse_pair(b.skip(k as int), big) { Some((v, m)) => Some((s.push(v), k + m)), None => None },
            None => None,
        }
    }
}
spec fn enc_pair(p: (String, PropertyValue), big: bool) -> Seq<u8> { <String as TdmsStorageType>::enc(p.0, big) + PropertyValue::enc(p.1, big) }
spec fn enc_pairs(s: Seq<(String, PropertyValue)>, big: bool, n: int) -> Seq<u8>
    decreases n,
{
    if n <= 0 { Seq::empty() } else { enc_pairs(s, big, n - 1) + enc_pair(s[n - 1], big) }
}
spec fn pair_stored(p: (String, PropertyValue)) -> bool { <String as TdmsStorageType>::stored_as_is(p.0) && PropertyValue::stored_as_is(p.1) }
proof fn lemma_pair_within(b: Seq<u8>, big: bool)
    ensures parse_pair(b, big) is Some ==> 1 <= parse_pair(b, big)->Some_0.1 <= b.len(),
{
    <String as TdmsStorageType>::law_within(b, big);
    match <String as TdmsStorageType>::parse(b, big) { Some((name, n)) => { PropertyValue::law_within(b.skip(n as int), big); }, None => {} }
}
proof fn lemma_parse_pairs(b: Seq<u8>, big: bool, n: nat, m: nat)
    requires n <= m,
    ensures
        parse_pairs(b, big, n) is None ==> parse_pairs(b, big, m) is None,
        parse_pairs(b, big, n) is Some ==> n <= parse_pairs(b, big, n)->Some_0.1 <= b.len() && parse_pairs(b, big, n)->Some_0.0.len() == n,
    decreases m,
{
    if n < m {
        lemma_parse_pairs(b, big, n, (m - 1) as nat);
    } else if n > 0 {
        lemma_parse_pairs(b, big, (n - 1) as nat, (n - 1) as nat);
        match parse_pairs(b, big, (n - 1) as nat) { Some((s, k)) => { lemma_pair_within(b.skip(k as int), big); }, None => {} }
    }
}
proof fn lemma_pair_stored(p: (String, PropertyValue), rest: Seq<u8>, big: bool)
    ensures
        enc_pair(p, big).len() == enc_pair(p, !big).len(),
        pair_stored(p) ==> parse_pair(enc_pair(p, big) + rest, big) == Some((p, enc_pair(p, big).len())),
{
    let a = <String as TdmsStorageType>::enc(p.0, big);
    let e = PropertyValue::enc(p.1, big);
    <String as TdmsStorageType>::law_stored(p.0, e + rest, big);
    PropertyValue::law_stored(p.1, rest, big);
    assert(a + e + rest =~= a + (e + rest));
    assert((a + (e + rest)).skip(a.len() as int) =~= e + rest);
}
proof fn lemma_enc_pairs(s: Seq<(String, PropertyValue)>, n: int, m: int)
    requires 0 <= n <= m <= s.len(),
    ensures
        enc_pairs(s, true, n).len() == enc_pairs(s, false, n).len(),
        enc_pairs(s, false, n).len() <= enc_pairs(s, false, m).len(),
    decreases m,
{
    if n < m { lemma_enc_pairs(s, n, m - 1); } else if n > 0 { lemma_enc_pairs(s, n - 1, n - 1); lemma_pair_stored(s[n - 1], Seq::empty(), true); }
}
proof fn lemma_round_pairs(s: Seq<(String, PropertyValue)>, rest: Seq<u8>, big: bool, n: int)
    requires
        0 <= n <= s.len(),
        forall|i: int| 0 <= i < s.len() ==> pair_stored(#[trigger] s[i]),
    ensures parse_pairs(enc_pairs(s, big, n) + rest, big, n as nat) == Some((s.take(n), enc_pairs(s, big, n).len())),
    decreases n,
{
    if n == 0 { assert(s.take(0) =~= Seq::empty()); } else {
        let a = enc_pairs(s, big, n - 1);
        let e = enc_pair(s[n - 1], big);
        lemma_round_pairs(s, e + rest, big, n - 1);
        lemma_pair_stored(s[n - 1], rest, big);
        assert(a + e + rest =~= a + (e + rest));
        assert((a + (e + rest)).skip(a.len() as int) =~= e + rest);
        assert(s.take(n) =~= s.take(n - 1).push(s[n - 1]));
    }
}
proof fn lemma_u32_len(v: u32, big: bool)
    ensures <u32 as TdmsStorageType>::enc(v, big).len() == 4,
{
    const_SIZE_BYTES_u32();
    <u32 as TdmsStorageType>::law_stored(v, Seq::empty(), big);
}

proof fn lemma_u32_takes(b: Seq<u8>, big: bool)
    ensures <u32 as TdmsStorageType>::parse(b, big) is Some ==> b.len() >= 4,
{
    const_SIZE_BYTES_u32();
    <u32 as TdmsStorageType>::law_fixed(b, big);
}
proof fn lemma_local_pairs(b: Seq<u8>, c: Seq<u8>, big: bool, n: nat)
    requires starts(b, c),
    ensures parse_pairs(b, big, n) is Some ==> parse_pairs(c, big, n) == parse_pairs(b, big, n),
    decreases n,
{
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_local_pairs(b, c, big, m);
        lemma_parse_pairs(b, big, m, m);
        match parse_pairs(b, big, m) { Some((s, k)) => {
            let x = b.skip(k as int);
            let y = c.skip(k as int);
            lemma_starts_skip(b, c, k as int);
            <String as TdmsStorageType>::law_local(x, y, big);
            <String as TdmsStorageType>::law_within(x, big);
            match <String as TdmsStorageType>::parse(x, big) { Some((name, j)) => {
                lemma_starts_skip(x, y, j as int);
                PropertyValue::law_local(x.skip(j as int), y.skip(j as int), big);
            }, None => {} }
        }, None => {} }
    }
}
