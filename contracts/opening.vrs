// ---- a writer on a stream
mod stream_axioms {
    use super::*;
    /// TRUSTED: what is in a stream in front of its position is what was written to it, for a writer which starts there.
    #[verifier::external_body]
    pub(super) broadcast proof fn axiom_written_stream<R>(w: &mut R)
        ensures
            0 <= spos(*old(w)) <= contents(*old(w)).len() ==> #[trigger] written(w) == contents(*old(w)).take(spos(*old(w))),
    {}
    /// TRUSTED: a borrowed stream accepts what the stream accepts.
    #[verifier::external_body]
    pub(super) broadcast proof fn axiom_accepting_stream<R>(w: &mut R)
        ensures #[trigger] accepts(w) == accepts(*old(w)),
    {}
}
