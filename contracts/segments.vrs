// ---- segments
#[verifier::external_type_specification]
pub struct ExIoErrorKind(std::io::ErrorKind);
trait VsKind {
    spec fn says_eof(&self) -> bool;
    fn vs_kind(&self) -> (r: std::io::ErrorKind)
        ensures (r == std::io::ErrorKind::UnexpectedEof) == self.says_eof();
}
impl VsKind for std::io::Error {
    spec fn says_eof(&self) -> bool { is_eof(*self) }
    /// TRUSTED: the kind of the error of a stream which ended is UnexpectedEof, and of no other.
    #[verifier::external_body]
    fn vs_kind(&self) -> (r: std::io::ErrorKind) { self.kind() }
}
pub assume_specification[ <std::io::ErrorKind as PartialEq>::eq ](a: &std::io::ErrorKind, b: &std::io::ErrorKind) -> (r: bool)
    ensures r == (*a == *b);
pub assume_specification<T: PartialEq<U>, U, const N: usize>[ <[T; N] as PartialEq<[U; N]>>::ne ](a: &[T; N], b: &[U; N]) -> (r: bool)
    ensures r == array_axioms::arrays_differ(*a, *b);
mod array_axioms {
    use super::*;
    pub uninterp spec fn arrays_differ<T, U, const N: usize>(a: [T; N], b: [U; N]) -> bool;
    /// TRUSTED: arrays of bytes differ if their bytes do.
    #[verifier::external_body]
    pub(super) broadcast proof fn axiom_byte_arrays_differ<const N: usize>(a: [u8; N], b: [u8; N])
        ensures #[trigger] arrays_differ(a, b) == (a@ != b@),
    {}
}
broadcast use {array_axioms::axiom_byte_arrays_differ};
#[verifier::external_body]
fn vs_u32_from_le(b: [u8; 4]) -> (r: u32) ensures r == value_u32(b@) { u32::from_le_bytes(b) }
/// The first four bytes of a segment: TDSm.
spec fn tag() -> Seq<u8> { seq![0x54u8, 0x44u8, 0x53u8, 0x6Du8] }
/// What follows the table of contents: version, offsets of the next segment and of the raw data, metadata if there is any.
spec fn body_parse(b: Seq<u8>, big: bool, toc: ToC) -> Option<(Segment, nat)> {
    match <u32 as TdmsStorageType>::parse(b, big) {
        Some(_) => match <u64 as TdmsStorageType>::parse(b.skip(4), big) {
            Some((next, _)) => match <u64 as TdmsStorageType>::parse(b.skip(12), big) {
                Some((raw, _)) => if toc.contains_meta_data {
                    match MetaData::parse(b.skip(20), big) {
                        Some((m, n)) => Some((Segment { toc, next_segment_offset: next, raw_data_offset: raw, meta_data: Some(m) }, n + 20)),
                        None => None,
                    }
                } else {
                    Some((Segment { toc, next_segment_offset: next, raw_data_offset: raw, meta_data: None }, 20))
                },
                None => None,
            },
            None => None,
        },
        None => None,
    }
}
/// The segment the bytes start with.
spec fn seg_parse(b: Seq<u8>) -> Option<Segment> {
    if b.len() < 8 || b.take(4) != tag() { None } else {
        let toc = toc_of(value_u32(b.subrange(4, 8)));
        match body_parse(b.skip(8), toc.big_endian, toc) { Some((s, _)) => Some(s), None => None }
    }
}
