/// The code of a type in the file, as NI documents it.
spec fn dt_code(t: DataType) -> u32 {
    match t {
        DataType::Void => 0,
        DataType::I8 => 1,
        DataType::I16 => 2,
        DataType::I32 => 3,
        DataType::I64 => 4,
        DataType::U8 => 5,
        DataType::U16 => 6,
        DataType::U32 => 7,
        DataType::U64 => 8,
        DataType::SingleFloat => 9,
        DataType::DoubleFloat => 10,
        DataType::ExtendedFloat => 11,
        DataType::SingleFloatWithUnit => 0x19,
        DataType::DoubleFloatWithUnit => 0x1A,
        DataType::ExtendedFloatWithUnit => 0x1B,
        DataType::TdmsString => 0x20,
        DataType::Boolean => 0x21,
        DataType::Timestamp => 0x44,
        DataType::FixedPoint => 0x4F,
        DataType::ComplexSingleFloat => 0x0008_000c,
        DataType::ComplexDoubleFloat => 0x0010_000d,
        DataType::DAQmxRawData => 0xFFFF_FFFF,
    }
}
spec fn dt_of(c: u32) -> Option<DataType> {
    if exists|t: DataType| dt_code(t) == c { Some(choose|t: DataType| dt_code(t) == c) } else { None }
}
proof fn lemma_dt(t: DataType)
    ensures dt_of(dt_code(t)) == Some(t),
{ }
spec fn discriminant(t: DataType) -> u32 { t as u32 }
/// TRUSTED: FromPrimitive, derived by num_derive, finds the type with that discriminant.
#[verifier::external_body]
fn vs_from_u32(c: u32) -> (r: Option<DataType>)
    ensures
        forall|t: DataType| #[trigger] discriminant(t) == c ==> r == Some(t),
        r is Some ==> discriminant(r->Some_0) == c,
{ unimplemented!() }
/// Reserving room: as for bytes.
trait VsReserve: Sized {
    fn vs_reserve(&mut self, n: usize) -> (r: std::result::Result<(), std::collections::TryReserveError>)
        ensures *final(self) == *old(self), enough_memory() && n <= u32::MAX ==> r is Ok;
}
impl<T> VsReserve for Vec<T> {
    /// TRUSTED: try_reserve changes nothing but room, and works while there is enough memory.
    #[verifier::external_body]
    fn vs_reserve(&mut self, n: usize) -> (r: std::result::Result<(), std::collections::TryReserveError>) { self.try_reserve(n) }
}
// ---- several pieces of metadata after each other
spec fn parse_seq<T: TdmsMetaData>(b: Seq<u8>, big: bool, n: nat) -> Option<(Seq<T>, nat)>
    decreases n,
{
    if n == 0 { Some((Seq::empty(), 0)) } else {
        match parse_seq::<T>(b, big, (n - 1) as nat) {
            Some((s, k)) => match T::parse(b.skip(k as int), big) { Some((v, m)) => Some((s.push(v), k + m)), None => None },
            None => None,
        }
    }
}
spec fn enc_seq<T: TdmsMetaData>(s: Seq<T>, big: bool, n: int) -> Seq<u8>
    decreases n,
{
    if n <= 0 { Seq::empty() } else { enc_seq::<T>(s, big, n - 1) + T::enc(s[n - 1], big) }
}
proof fn lemma_parse_seq<T: TdmsMetaData>(b: Seq<u8>, big: bool, n: nat, m: nat)
    requires n <= m,
    ensures
        parse_seq::<T>(b, big, n) is None ==> parse_seq::<T>(b, big, m) is None,
        parse_seq::<T>(b, big, n) is Some ==> n <= parse_seq::<T>(b, big, n)->Some_0.1 <= b.len() && parse_seq::<T>(b, big, n)->Some_0.0.len() == n && forall|i: int| 0 <= i < n ==> T::sane(#[trigger] parse_seq::<T>(b, big, n)->Some_0.0[i]),
    decreases m,
{
    if n < m {
        lemma_parse_seq::<T>(b, big, n, (m - 1) as nat);
    } else if n > 0 {
        lemma_parse_seq::<T>(b, big, (n - 1) as nat, (n - 1) as nat);
        match parse_seq::<T>(b, big, (n - 1) as nat) { Some((s, k)) => { T::law_within(b.skip(k as int), big); }, None => {} }
    }
}
proof fn lemma_enc_seq<T: TdmsMetaData>(s: Seq<T>, n: int, m: int)
    requires 0 <= n <= m <= s.len(),
    ensures
        enc_seq::<T>(s, true, n).len() == enc_seq::<T>(s, false, n).len(),
        enc_seq::<T>(s, false, n).len() <= enc_seq::<T>(s, false, m).len(),
    decreases m,
{
    if n < m { lemma_enc_seq::<T>(s, n, m - 1); } else if n > 0 { lemma_enc_seq::<T>(s, n - 1, n - 1); T::law_stored(s[n - 1], Seq::empty(), true); }
}
proof fn lemma_round_seq<T: TdmsMetaData>(s: Seq<T>, rest: Seq<u8>, big: bool, n: int)
    requires
        0 <= n <= s.len(),
        forall|i: int| 0 <= i < s.len() ==> T::stored_as_is(#[trigger] s[i]),
    ensures parse_seq::<T>(enc_seq::<T>(s, big, n) + rest, big, n as nat) == Some((s.take(n), enc_seq::<T>(s, big, n).len())),
    decreases n,
{
    if n == 0 { assert(s.take(0) =~= Seq::empty()); } else {
        let a = enc_seq::<T>(s, big, n - 1);
        let e = T::enc(s[n - 1], big);
        lemma_round_seq::<T>(s, e + rest, big, n - 1);
        T::law_stored(s[n - 1], rest, big);
        assert(a + e + rest =~= a + (e + rest));
        assert((a + (e + rest)).skip(a.len() as int) =~= e + rest);
        assert(s.take(n) =~= s.take(n - 1).push(s[n - 1]));
    }
}
proof fn lemma_local_seq<T: TdmsMetaData>(b: Seq<u8>, c: Seq<u8>, big: bool, n: nat)
    requires starts(b, c),
    ensures parse_seq::<T>(b, big, n) is Some ==> parse_seq::<T>(c, big, n) == parse_seq::<T>(b, big, n),
    decreases n,
{
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_local_seq::<T>(b, c, big, m);
        lemma_parse_seq::<T>(b, big, m, m);
        match parse_seq::<T>(b, big, m) { Some((s, k)) => { lemma_starts_skip(b, c, k as int); T::law_local(b.skip(k as int), c.skip(k as int), big); }, None => {} }
    }
}
// ---- table of contents
spec fn toc_of(v: u32) -> ToC {
    ToC {
        contains_meta_data: v & 2 != 0,
        contains_raw_data: v & 8 != 0,
        contains_daqmx_raw_data: v & 128 != 0,
        data_is_interleaved: v & 32 != 0,
        big_endian: v & 64 != 0,
        contains_new_object_list: v & 4 != 0,
    }
}
spec fn bit(b: bool, v: u32) -> u32 { if b { v } else { 0 } }
spec fn toc_bits(t: ToC) -> u32 {
    bit(t.contains_meta_data, 2) | bit(t.contains_raw_data, 8) | bit(t.contains_daqmx_raw_data, 128) | bit(t.data_is_interleaved, 32) | bit(t.big_endian, 64) | bit(t.contains_new_object_list, 4)
}
spec fn bit_at(v: u32, k: u32) -> bool { (v >> k) & 1 == 1 }
proof fn lemma_no_bit(k: u32)
    requires k < 32,
    ensures !bit_at(0, k),
{ assert((0u32 >> k) & 1 != 1) by (bit_vector); }
proof fn lemma_toc_bit(t: ToC, k: u32)
    requires k < 32,
    ensures
        bit_at(toc_bits(t), k) == (t.contains_meta_data && k == 1 || t.contains_new_object_list && k == 2 || t.contains_raw_data && k == 3
            || t.data_is_interleaved && k == 5 || t.big_endian && k == 6 || t.contains_daqmx_raw_data && k == 7),
{
    let a = bit(t.contains_meta_data, 2);
    let b = bit(t.contains_raw_data, 8);
    let c = bit(t.contains_daqmx_raw_data, 128);
    let d = bit(t.data_is_interleaved, 32);
    let e = bit(t.big_endian, 64);
    let f = bit(t.contains_new_object_list, 4);
    assert(((a | b | c | d | e | f) >> k) & 1 == 1 <==> (a == 2 && k == 1 || f == 4 && k == 2 || b == 8 && k == 3 || d == 32 && k == 5 || e == 64 && k == 6 || c == 128 && k == 7)) by (bit_vector)
        requires a == 2 || a == 0, b == 8 || b == 0, c == 128 || c == 0, d == 32 || d == 0, e == 64 || e == 0, f == 4 || f == 0, k < 32;
}
proof fn lemma_same_bits(a: u32, b: u32)
    requires forall|k: u32| k < 32 ==> bit_at(a, k) == bit_at(b, k),
    ensures a == b,
{
    assert(bit_at(a, 0) == bit_at(b, 0));
    assert(bit_at(a, 1) == bit_at(b, 1));
    assert(bit_at(a, 2) == bit_at(b, 2));
    assert(bit_at(a, 3) == bit_at(b, 3));
    assert(bit_at(a, 4) == bit_at(b, 4));
    assert(bit_at(a, 5) == bit_at(b, 5));
    assert(bit_at(a, 6) == bit_at(b, 6));
    assert(bit_at(a, 7) == bit_at(b, 7));
    assert(bit_at(a, 8) == bit_at(b, 8));
    assert(bit_at(a, 9) == bit_at(b, 9));
    assert(bit_at(a, 10) == bit_at(b, 10));
    assert(bit_at(a, 11) == bit_at(b, 11));
    assert(bit_at(a, 12) == bit_at(b, 12));
    assert(bit_at(a, 13) == bit_at(b, 13));
    assert(bit_at(a, 14) == bit_at(b, 14));
    assert(bit_at(a, 15) == bit_at(b, 15));
    assert(bit_at(a, 16) == bit_at(b, 16));
    assert(bit_at(a, 17) == bit_at(b, 17));
    assert(bit_at(a, 18) == bit_at(b, 18));
    assert(bit_at(a, 19) == bit_at(b, 19));
    assert(bit_at(a, 20) == bit_at(b, 20));
    assert(bit_at(a, 21) == bit_at(b, 21));
    assert(bit_at(a, 22) == bit_at(b, 22));
    assert(bit_at(a, 23) == bit_at(b, 23));
    assert(bit_at(a, 24) == bit_at(b, 24));
    assert(bit_at(a, 25) == bit_at(b, 25));
    assert(bit_at(a, 26) == bit_at(b, 26));
    assert(bit_at(a, 27) == bit_at(b, 27));
    assert(bit_at(a, 28) == bit_at(b, 28));
    assert(bit_at(a, 29) == bit_at(b, 29));
    assert(bit_at(a, 30) == bit_at(b, 30));
    assert(bit_at(a, 31) == bit_at(b, 31));
    assert(a == b) by (bit_vector)
        requires ((a >> 0u32) & 1 == 1) == ((b >> 0u32) & 1 == 1), ((a >> 1u32) & 1 == 1) == ((b >> 1u32) & 1 == 1), ((a >> 2u32) & 1 == 1) == ((b >> 2u32) & 1 == 1), ((a >> 3u32) & 1 == 1) == ((b >> 3u32) & 1 == 1), ((a >> 4u32) & 1 == 1) == ((b >> 4u32) & 1 == 1), ((a >> 5u32) & 1 == 1) == ((b >> 5u32) & 1 == 1), ((a >> 6u32) & 1 == 1) == ((b >> 6u32) & 1 == 1), ((a >> 7u32) & 1 == 1) == ((b >> 7u32) & 1 == 1), ((a >> 8u32) & 1 == 1) == ((b >> 8u32) & 1 == 1), ((a >> 9u32) & 1 == 1) == ((b >> 9u32) & 1 == 1), ((a >> 10u32) & 1 == 1) == ((b >> 10u32) & 1 == 1), ((a >> 11u32) & 1 == 1) == ((b >> 11u32) & 1 == 1), ((a >> 12u32) & 1 == 1) == ((b >> 12u32) & 1 == 1), ((a >> 13u32) & 1 == 1) == ((b >> 13u32) & 1 == 1), ((a >> 14u32) & 1 == 1) == ((b >> 14u32) & 1 == 1), ((a >> 15u32) & 1 == 1) == ((b >> 15u32) & 1 == 1), ((a >> 16u32) & 1 == 1) == ((b >> 16u32) & 1 == 1), ((a >> 17u32) & 1 == 1) == ((b >> 17u32) & 1 == 1), ((a >> 18u32) & 1 == 1) == ((b >> 18u32) & 1 == 1), ((a >> 19u32) & 1 == 1) == ((b >> 19u32) & 1 == 1), ((a >> 20u32) & 1 == 1) == ((b >> 20u32) & 1 == 1), ((a >> 21u32) & 1 == 1) == ((b >> 21u32) & 1 == 1), ((a >> 22u32) & 1 == 1) == ((b >> 22u32) & 1 == 1), ((a >> 23u32) & 1 == 1) == ((b >> 23u32) & 1 == 1), ((a >> 24u32) & 1 == 1) == ((b >> 24u32) & 1 == 1), ((a >> 25u32) & 1 == 1) == ((b >> 25u32) & 1 == 1), ((a >> 26u32) & 1 == 1) == ((b >> 26u32) & 1 == 1), ((a >> 27u32) & 1 == 1) == ((b >> 27u32) & 1 == 1), ((a >> 28u32) & 1 == 1) == ((b >> 28u32) & 1 == 1), ((a >> 29u32) & 1 == 1) == ((b >> 29u32) & 1 == 1), ((a >> 30u32) & 1 == 1) == ((b >> 30u32) & 1 == 1), ((a >> 31u32) & 1 == 1) == ((b >> 31u32) & 1 == 1);
}
proof fn lemma_toc(t: ToC)
    ensures toc_of(toc_bits(t)) == t,
{
    let a = bit(t.contains_meta_data, 2);
    let b = bit(t.contains_raw_data, 8);
    let c = bit(t.contains_daqmx_raw_data, 128);
    let d = bit(t.data_is_interleaved, 32);
    let e = bit(t.big_endian, 64);
    let f = bit(t.contains_new_object_list, 4);
    assert((a | b | c | d | e | f) & 2 == a && (a | b | c | d | e | f) & 8 == b && (a | b | c | d | e | f) & 128 == c && (a | b | c | d | e | f) & 32 == d && (a | b | c | d | e | f) & 64 == e && (a | b | c | d | e | f) & 4 == f) by (bit_vector)
        requires a == 2 || a == 0, b == 8 || b == 0, c == 128 || c == 0, d == 32 || d == 0, e == 64 || e == 0, f == 4 || f == 0;
}
#[verifier::external_body]
fn vs_u32_to_le(v: u32) -> (r: [u8; 4]) ensures r@ == bytes_u32(v) { v.to_le_bytes() }
proof fn lemma_byte(b: u8)
    ensures bytes_u8(b) == seq![b], order(bytes_u8(b), true) == seq![b],
{
    lemma_u8(b);
    reveal_with_fuel(le_bytes, 2);
    assert(bytes_u8(b) =~= seq![b]);
    assert(bytes_u8(b).reverse() =~= seq![b]);
}
