#[verifier::external_type_specification]
pub struct ExSeekFrom(SeekFrom);
spec fn start_of(s: SeekFrom) -> Option<u64> {
    match s { SeekFrom::Start(n) => Some(n), _ => None }
}
/// TRUSTED: BufReader::new: the same stream, only read and moved from here on.
pub assume_specification<R: Read>[ BufReader::<R>::new ](inner: R) -> (r: BufReader<R>)
    ensures
        contents(r) == contents(inner),
        spos(r) == spos(inner),
        healthy(r) == healthy(inner),
        readonly(inner);
/// TRUSTED: BufReader::seek_relative moves by the offset.
#[verifier::external_body]
fn vs_seek_relative<R: Read + Seek>(b: &mut BufReader<R>, offset: i64) -> (r: std::io::Result<()>)
    ensures
        contents(*final(b)) == contents(*old(b)),
        healthy(*final(b)) == healthy(*old(b)),
        healthy(*old(b)) && 0 <= spos(*old(b)) + offset <= contents(*old(b)).len() ==> r is Ok,
        r is Ok ==> spos(*final(b)) == spos(*old(b)) + offset,
{ b.seek_relative(offset) }
/// TRUSTED: seeking a BufReader from the start of the stream goes to that position.
#[verifier::external_body]
fn vs_seek<R: Read + Seek>(b: &mut BufReader<R>, to: SeekFrom) -> (r: std::io::Result<u64>)
    ensures
        contents(*final(b)) == contents(*old(b)),
        healthy(*final(b)) == healthy(*old(b)),
        start_of(to) is Some && healthy(*old(b)) && start_of(to)->Some_0 <= contents(*old(b)).len() ==> r is Ok,
        start_of(to) is Some && r is Ok ==> spos(*final(b)) == start_of(to)->Some_0,
{ b.seek(to) }
