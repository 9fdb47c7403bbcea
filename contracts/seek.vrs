// ---- seeking
#[verifier::external_type_specification]
pub struct ExSeekFrom(SeekFrom);
spec fn start_of(s: SeekFrom) -> Option<u64> {
    match s { SeekFrom::Start(n) => Some(n), _ => None }
}
/// TRUSTED: seeking from the start of a stream goes to that position.
#[verifier::external_body]
fn vs_seek_file<F: Seek>(f: &mut F, to: SeekFrom) -> (r: std::io::Result<u64>)
    ensures
        contents(*final(f)) == contents(*old(f)),
        healthy(*final(f)) == healthy(*old(f)),
        accepts(*final(f)) == accepts(*old(f)),
        start_of(to) is Some && healthy(*old(f)) && start_of(to)->Some_0 <= contents(*old(f)).len() ==> r is Ok,
        start_of(to) is Some && r is Ok ==> spos(*final(f)) == start_of(to)->Some_0,
{ f.seek(to) }
