// ---- the stream under a reader: its bytes, its position, and whether its operations succeed
pub uninterp spec fn contents<R>(r: R) -> Seq<u8>;
pub uninterp spec fn spos<R>(r: R) -> int;
/// Reads and seeks inside the bytes of the stream succeed, and memory does not run out.
pub open spec fn healthy<R>(r: R) -> bool { working(r) && enough_memory() }
pub uninterp spec fn working<R>(r: R) -> bool;
pub uninterp spec fn enough_memory() -> bool;
/// Nothing but reads and seeks happen to the stream from here on.
#[verifier::prophetic]
pub uninterp spec fn readonly<R>(r: R) -> bool;
/// TRUSTED: a borrowed stream is the stream, and is as it was if it was only read.
#[verifier::external_body]
proof fn axiom_borrowed_stream<R>(w: Ghost<&mut R>)
    ensures
        contents(w@) == contents(*w@),
        healthy(w@) == healthy(*w@),
        spos(w@) == spos(*w@),
        readonly(w@) ==> contents(*final(w@)) == contents(*w@) && healthy(*final(w@)) == healthy(*w@),
{ }
#[verifier::external_trait_specification]
pub trait ExRead {
    type ExternalTraitSpecificationFor: Read;
}
#[verifier::external_trait_specification]
pub trait ExSeek {
    type ExternalTraitSpecificationFor: Seek;
}
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct ExBufReader<R: ?Sized>(BufReader<R>);
impl From<std::io::Error> for TdmsError {
    /// TRUSTED: derived by thiserror.
    #[verifier::external_body]
    fn from(e: std::io::Error) -> TdmsError { unimplemented!() }
}
mod io_error_axioms {
    use super::*;
    /// TRUSTED: `?` turns an I/O error into the error which holds it (derived by thiserror).
    #[verifier::external_body]
    pub(super) broadcast proof fn axiom_from_io_error(e: std::io::Error, t: TdmsError)
        ensures #[trigger] vstd::std_specs::control_flow::spec_from::<TdmsError, std::io::Error>(e, t) ==> t == TdmsError::IoError(e),
    {}
}
broadcast use {io_error_axioms::axiom_from_io_error};
