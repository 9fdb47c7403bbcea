use vstd::utf8::*;
use vstd::std_specs::convert::*;
global size_of String == 24;
/// TRUSTED: strings of the same characters are equal.
#[verifier::external_body]
proof fn axiom_same_string(a: String, b: String)
    ensures a@ == b@ ==> a == b,
{}
/// The string of these characters.
spec fn string_of(s: Seq<char>) -> String { choose|x: String| #[trigger] x@ == s }
proof fn lemma_string_of(x: String)
    ensures string_of(x@) == x,
{ axiom_same_string(string_of(x@), x); }
impl From<std::string::FromUtf8Error> for TdmsError {
    /// TRUSTED: derived by thiserror.
    #[verifier::external_body]
    fn from(e: std::string::FromUtf8Error) -> TdmsError { unimplemented!() }
}
mod utf8_error_axioms {
    use super::*;
    /// TRUSTED: `?` turns the error of from_utf8 into the error which holds it (derived by thiserror).
    #[verifier::external_body]
    pub(super) broadcast proof fn axiom_from_utf8_error(e: std::string::FromUtf8Error, t: TdmsError)
        ensures #[trigger] vstd::std_specs::control_flow::spec_from::<TdmsError, std::string::FromUtf8Error>(e, t) ==> t == TdmsError::StringFormatError(e),
    {}
}
broadcast use {utf8_error_axioms::axiom_from_utf8_error};
/// How much fits a vector without it growing.
uninterp spec fn room<T>(v: Vec<T>) -> nat;
trait VsVec {
    spec fn vs_seq(&self) -> Seq<u8>;
    spec fn vs_room(&self) -> nat;
    fn vs_try_reserve(&mut self, n: usize) -> (r: std::result::Result<(), std::collections::TryReserveError>)
        ensures
            final(self).vs_seq() == old(self).vs_seq(),
            r is Ok ==> final(self).vs_room() >= old(self).vs_seq().len() + n,
            enough_memory() && old(self).vs_seq().len() + n <= u32::MAX ==> r is Ok;
    fn vs_set_len(&mut self, n: usize)
        requires n <= old(self).vs_room(),
        ensures final(self).vs_seq().len() == n;
}
impl VsVec for Vec<u8> {
    spec fn vs_seq(&self) -> Seq<u8> { self@ }
    spec fn vs_room(&self) -> nat { room(*self) }
    /// TRUSTED: try_reserve makes room for that many more elements, if there is enough memory.
    #[verifier::external_body]
    fn vs_try_reserve(&mut self, n: usize) -> (r: std::result::Result<(), std::collections::TryReserveError>) { self.try_reserve(n) }
    /// TRUSTED: set_len within the room of a vector of bytes; the bytes are anything.
    #[verifier::external_body]
    fn vs_set_len(&mut self, n: usize) { unsafe { self.set_len(n) } }
}
/// TRUSTED: the bytes of a vector are one slice.
#[verifier::external_body]
fn vs_slice_mut(s: &mut Vec<u8>) -> (r: &mut [u8])
    ensures r@ == old(s)@, final(s)@ == final(r)@,
{ &mut s[..] }
/// TRUSTED: from_utf8 accepts exactly the UTF-8 strings.
#[verifier::external_body]
fn vs_from_utf8(v: Vec<u8>) -> (r: std::result::Result<String, std::string::FromUtf8Error>)
    ensures r is Ok <==> valid_utf8(v@), r is Ok ==> r->Ok_0@ == decode_utf8(v@),
{ String::from_utf8(v) }
/// TRUSTED: the bytes of a string are its characters in UTF-8, at most isize::MAX of them.
#[verifier::external_body]
fn vs_as_bytes(s: &String) -> (r: &[u8])
    ensures r@ == encode_utf8(s@),
{ s.as_bytes() }
#[verifier::external_body]
fn vs_string_len(s: &String) -> (r: usize)
    ensures r == encode_utf8(s@).len(), r <= isize::MAX,
{ s.len() }
#[verifier::external_body]
fn vs_u32_le(v: u32) -> (r: [u8; 4]) ensures r@ == bytes_u32(v) { v.to_le_bytes() }
#[verifier::external_body]
fn vs_u32_be(v: u32) -> (r: [u8; 4]) ensures r@ == bytes_u32(v).reverse() { v.to_be_bytes() }
/// The text of n bytes.
spec fn text(b: Seq<u8>, n: nat) -> Option<String> {
    if b.len() >= n && valid_utf8(b.subrange(0, n as int)) { Some(string_of(decode_utf8(b.subrange(0, n as int)))) } else { None }
}
