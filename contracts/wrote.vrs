// ---- metadata
/// What writing does to a writer: all bytes are added, or a failure leaves a part of them behind.
spec fn wrote(old: Seq<u8>, new: Seq<u8>, takes: bool, takes_now: bool, ok: bool, b: Seq<u8>) -> bool {
    &&& takes_now == takes
    &&& takes ==> ok
    &&& ok ==> new == old + b
    &&& old.is_prefix_of(new)
    &&& new.len() <= old.len() + b.len()
}
/// What reading does to a reader.
spec fn got<T>(bytes: Seq<u8>, bytes_now: Seq<u8>, good: bool, good_now: bool, pos: int, pos_now: int, r: Result<T, TdmsError>, parsed: Option<(T, nat)>) -> bool {
    &&& bytes_now == bytes
    &&& good_now == good
    &&& r is Err ==> !(r->Err_0 is EndOfFile)
    &&& pos > bytes.len() ==> r is Err
    &&& 0 <= pos <= bytes.len() ==> match parsed {
        Some((v, n)) => (good ==> r is Ok) && (r is Ok ==> r->Ok_0 == v && pos_now == pos + n),
        None => r is Err,
    }
}
