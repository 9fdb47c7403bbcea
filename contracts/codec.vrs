type StorageResult<T> = std::result::Result<T, TdmsError>;
// ---- what the bytes of a value are (each sample type discharges these laws in its own unit)

/// The sample whose stored form starts at byte `off`.
spec fn sample_at<D: TdmsStorageType>(bytes: Seq<u8>, off: int, big: bool) -> D {
    D::parse(bytes.skip(off), big)->Some_0.0
}
/// Decoding a value from a stream, given what its bytes hold.
spec fn reads<D, R>(old: R, new: R, r: Result<D, TdmsError>, parsed: Option<(D, nat)>) -> bool {
    &&& contents(new) == contents(old)
    &&& healthy(new) == healthy(old)
    &&& spos(old) > contents(old).len() ==> r is Err
    &&& r is Err ==> !(r->Err_0 is EndOfFile)
    &&& 0 <= spos(old) <= contents(old).len() ==> match parsed {
        Some((v, n)) => (healthy(old) ==> r is Ok) && (r is Ok ==> r->Ok_0 == v && spos(new) == spos(old) + n),
        None => r is Err,
    }
}
