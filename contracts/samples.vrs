/// Keeps the name of a field from meaning the verifier's type of real numbers.
fn real() {}
#[verifier::external_body]
fn vs_to_le_wide(v: u128) -> (r: [u8; 16]) ensures r@ == bytes_u128(v) { v.to_le_bytes() }
#[verifier::external_body]
fn vs_to_be_wide(v: u128) -> (r: [u8; 16]) ensures r@ == bytes_u128(v).reverse() { v.to_be_bytes() }
global size_of bool == 1;
global size_of Complex<f32> == 8;
global size_of Complex<f64> == 16;
/// A time of the dependency labview_interop: known by its bytes only.
#[derive(Clone, Copy)]
#[verifier::external_body]
struct LVTime { seconds: i64, fractions: u64 }
global size_of LVTime == 16;
uninterp spec fn value_time(s: Seq<u8>) -> LVTime;
uninterp spec fn bytes_time(v: LVTime) -> Seq<u8>;
/// TRUSTED: a time has 16 bytes, and is the time of its bytes.
#[verifier::external_body]
proof fn axiom_time(v: LVTime) ensures bytes_time(v).len() == 16, value_time(bytes_time(v)) == v {}
impl LVTime {
    /// TRUSTED: the byte orders of a time are each other's reverse.
    #[verifier::external_body]
    fn from_le_bytes(b: [u8; 16]) -> (r: LVTime) ensures r == value_time(b@) { unimplemented!() }
    #[verifier::external_body]
    fn from_be_bytes(b: [u8; 16]) -> (r: LVTime) ensures r == value_time(b@.reverse()) { unimplemented!() }
    #[verifier::external_body]
    fn to_le_bytes(&self) -> (r: [u8; 16]) ensures r@ == bytes_time(*self) { unimplemented!() }
    #[verifier::external_body]
    fn to_be_bytes(&self) -> (r: [u8; 16]) ensures r@ == bytes_time(*self).reverse() { unimplemented!() }
}
/// TRUSTED: slices of byte slices.
#[verifier::external_body]
fn vs_slice_from_to(b: &[u8], from: usize, to: usize) -> (r: &[u8])
    requires from <= to <= b@.len(),
    ensures r@ == b@.subrange(from as int, to as int),
{ &b[from..to] }
#[verifier::external_body]
fn vs_slice_from(b: &[u8], from: usize) -> (r: &[u8])
    requires from <= b@.len(),
    ensures r@ == b@.subrange(from as int, b@.len() as int),
{ &b[from..] }
#[verifier::external_body]
fn vs_slice_from_to_mut(b: &mut [u8], from: usize, to: usize) -> (r: &mut [u8])
    requires from <= to <= old(b)@.len(),
    ensures r@ == old(b)@.subrange(from as int, to as int), final(b)@ == old(b)@.take(from as int) + final(r)@ + old(b)@.skip(to as int),
{ &mut b[from..to] }
#[verifier::external_body]
fn vs_slice_from_mut(b: &mut [u8], from: usize) -> (r: &mut [u8])
    requires from <= old(b)@.len(),
    ensures r@ == old(b)@.skip(from as int), final(b)@ == old(b)@.take(from as int) + final(r)@,
{ &mut b[from..] }
proof fn lemma_padded(s: Seq<u8>, z: Seq<u8>)
    requires forall|i: int| 0 <= i < z.len() ==> z[i] == 0,
    ensures le_nat(s + z) == le_nat(s),
    decreases s.len() + z.len(),
{
    if s.len() == 0 {
        assert(s + z =~= z);
        if z.len() > 0 {
            lemma_padded(s, z.skip(1));
            assert(s + z.skip(1) =~= z.skip(1));
        }
    } else {
        assert((s + z).skip(1) =~= s.skip(1) + z);
        lemma_padded(s.skip(1), z);
    }
}
proof fn lemma_shorter(x: nat, k: nat, m: nat)
    requires k <= m,
    ensures le_bytes(x, m).len() == m, le_bytes(x, m).take(k as int) == le_bytes(x, k),
    decreases k,
{
    lemma_le_bytes(x, m);
    if k == 0 {
        assert(le_bytes(x, m).take(0) =~= le_bytes(x, 0));
    } else {
        lemma_le_bytes(x / 256, (m - 1) as nat);
        lemma_shorter(x / 256, (k - 1) as nat, (m - 1) as nat);
        assert(le_bytes(x, m).take(k as int) =~= seq![(x % 256) as u8] + le_bytes(x / 256, (m - 1) as nat).take(k - 1));
    }
}
proof fn lemma_fits(x: nat, k: nat)
    ensures le_bytes(x, k).len() == k, x < pow256(k) ==> le_nat(le_bytes(x, k)) == x,
{ lemma_le_bytes(x, k); }
/// Zeros in front, most significant first, do not matter.
proof fn lemma_padded_front(z: Seq<u8>, d: Seq<u8>)
    requires forall|i: int| 0 <= i < z.len() ==> z[i] == 0,
    ensures le_nat((z + d).reverse()) == le_nat(d.reverse()),
{
    let zr = z.reverse();
    assert((z + d).reverse() =~= d.reverse() + zr);
    lemma_padded(d.reverse(), zr);
}
