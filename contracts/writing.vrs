// ---- blocks of samples
/// The samples after each other, as they are stored.
spec fn enc_all<D: TdmsStorageType>(s: Seq<D>, big: bool, n: int) -> Seq<u8>
    decreases n,
{
    if n <= 0 { Seq::empty() } else { enc_all::<D>(s, big, n - 1) + D::enc(s[n - 1], big) }
}
#[verifier::spinoff_prover]
proof fn lemma_enc_all_grows<D: TdmsStorageType>(s: Seq<D>, big: bool, n: int, m: int)
    requires 0 <= n <= m <= s.len(),
    ensures enc_all::<D>(s, big, n).len() <= enc_all::<D>(s, big, m).len(),
    decreases m,
{ if n < m { lemma_enc_all_grows::<D>(s, big, n, m - 1); } }
proof fn lemma_enc_all<D: TdmsStorageType>(s: Seq<D>, big: bool, n: int)
    requires 0 <= n <= s.len(),
    ensures
        enc_all::<D>(s, big, n).len() == enc_all::<D>(s, !big, n).len(),
        D::fixed() ==> enc_all::<D>(s, big, n).len() == n * D::SIZE_BYTES,
    decreases n,
{
    let z = D::SIZE_BYTES as int;
    if n > 0 {
        lemma_enc_all::<D>(s, big, n - 1);
        D::law_stored(s[n - 1], Seq::empty(), big);
        D::law_stored(s[n - 1], Seq::empty(), !big);
        assert(n * z == (n - 1) * z + z) by (nonlinear_arith);
    } else {
        assert(n * z == 0) by (nonlinear_arith) requires n == 0;
    }
}
/// The i-th stored sample is at i times their size.
proof fn lemma_enc_at<D: TdmsStorageType>(s: Seq<D>, big: bool, n: int, i: int)
    requires
        D::fixed(),
        0 <= i < n <= s.len(),
    ensures
        enc_all::<D>(s, big, n).len() == n * D::SIZE_BYTES,
        0 <= i * D::SIZE_BYTES,
        i * D::SIZE_BYTES + D::SIZE_BYTES <= enc_all::<D>(s, big, n).len(),
        enc_all::<D>(s, big, n).subrange(i * D::SIZE_BYTES as int, i * D::SIZE_BYTES + D::SIZE_BYTES) == D::enc(s[i], big),
    decreases n,
{
    lemma_enc_all::<D>(s, big, n);
    lemma_enc_all::<D>(s, big, n - 1);
    D::law_stored(s[i], Seq::empty(), big);
    let z = D::SIZE_BYTES as int;
    assert(0 <= i * z) by (nonlinear_arith) requires 0 <= i, 0 <= z;
    assert(i * z + z <= n * z) by (nonlinear_arith) requires i < n, 0 <= z;
    if i == n - 1 {
        assert(enc_all::<D>(s, big, n).subrange(i * z, i * z + z) =~= D::enc(s[i], big));
    } else {
        lemma_enc_at::<D>(s, big, n - 1, i);
        assert(enc_all::<D>(s, big, n).subrange(i * z, i * z + z) =~= enc_all::<D>(s, big, n - 1).subrange(i * z, i * z + z));
    }
}
/// The description of n samples per channel.
spec fn of_samples<D: TdmsStorageType>(n: int) -> RawDataMeta {
    RawDataMeta { data_type: D::NATURAL_TYPE, number_of_values: n as u64, total_size_bytes: None }
}
mod rem_axioms {
    use super::*;
    use vstd::std_specs::ops::*;
    /// TRUSTED: the remainder by a number which is not zero.
    #[verifier::external_body]
    pub(super) broadcast proof fn axiom_rem_nonzero(a: usize, n: NonZeroUsize)
        ensures
            #[trigger] <usize as RemSpec<NonZeroUsize>>::rem_req(a, n),
            <usize as RemSpec<NonZeroUsize>>::obeys_rem_spec(),
            <usize as RemSpec<NonZeroUsize>>::rem_spec(a, n) == a as int % n@ as int,
    {}
}
broadcast use {rem_axioms::axiom_rem_nonzero, vstd::std_specs::nonzero::group_nonzero_axioms};
// ---- the buffered stream
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(W)]
pub struct ExBufWriter<W: ?Sized + Write>(BufWriter<W>);
/// What has reached the stream below.
pub uninterp spec fn flushed<W>(w: W) -> Seq<u8>;
/// TRUSTED: BufWriter::new: the same stream.
pub assume_specification<W: Write>[ BufWriter::<W>::new ](inner: W) -> (r: BufWriter<W>)
    ensures
        written(r) == written(inner),
        accepts(r) == accepts(inner);
/// TRUSTED: flushing a BufWriter passes everything written to it to the stream below.
#[verifier::external_body]
fn vs_flush<W: Write>(b: &mut BufWriter<W>) -> (r: std::io::Result<()>)
    ensures
        written(*final(b)) == written(*old(b)),
        accepts(*final(b)) == accepts(*old(b)),
        accepts(*old(b)) ==> r is Ok,
        r is Ok ==> flushed(*final(b)) == written(*final(b)),
{ b.flush() }
