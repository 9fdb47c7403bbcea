// ---- files of the file system
use std::fs::{File, OpenOptions};
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFile(File);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExOpenOptions(OpenOptions);
/// The name of a file; std::path::Path, of which only the name matters here.
#[verifier::external_body]
pub struct Path { vs_name: u8 }
/// How a file is opened.
pub ghost struct Opening { pub read: bool, pub write: bool, pub append: bool, pub truncate: bool, pub create: bool, pub create_new: bool }
pub uninterp spec fn opening(o: OpenOptions) -> Opening;
/// What is in the file of a name.
pub uninterp spec fn stored_at(p: Path) -> Seq<u8>;
/// A file can be read, can be written anywhere.
pub uninterp spec fn can_read(f: File) -> bool;
pub uninterp spec fn can_write(f: File) -> bool;
/// TRUSTED: File::options and the setters of OpenOptions set what they are named after.
pub assume_specification [ File::options ] () -> (r: OpenOptions)
    ensures opening(r) == (Opening { read: false, write: false, append: false, truncate: false, create: false, create_new: false });
pub assume_specification<'a> [ OpenOptions::read ] (o: &'a mut OpenOptions, v: bool) -> (r: &'a mut OpenOptions)
    ensures opening(*r) == (Opening { read: v, ..opening(*old(o)) }), *final(r) == *final(o);
pub assume_specification<'a> [ OpenOptions::write ] (o: &'a mut OpenOptions, v: bool) -> (r: &'a mut OpenOptions)
    ensures opening(*r) == (Opening { write: v, ..opening(*old(o)) }), *final(r) == *final(o);
pub assume_specification<'a> [ OpenOptions::append ] (o: &'a mut OpenOptions, v: bool) -> (r: &'a mut OpenOptions)
    ensures opening(*r) == (Opening { append: v, ..opening(*old(o)) }), *final(r) == *final(o);
pub assume_specification<'a> [ OpenOptions::truncate ] (o: &'a mut OpenOptions, v: bool) -> (r: &'a mut OpenOptions)
    ensures opening(*r) == (Opening { truncate: v, ..opening(*old(o)) }), *final(r) == *final(o);
pub assume_specification<'a> [ OpenOptions::create ] (o: &'a mut OpenOptions, v: bool) -> (r: &'a mut OpenOptions)
    ensures opening(*r) == (Opening { create: v, ..opening(*old(o)) }), *final(r) == *final(o);
pub assume_specification<'a> [ OpenOptions::create_new ] (o: &'a mut OpenOptions, v: bool) -> (r: &'a mut OpenOptions)
    ensures opening(*r) == (Opening { create_new: v, ..opening(*old(o)) }), *final(r) == *final(o);
/// TRUSTED: OpenOptions::open. A file which was not there (create, create_new) is empty.
#[verifier::external_body]
fn vs_open(o: &OpenOptions, p: &Path) -> (r: std::io::Result<File>)
    ensures
        r is Ok ==> {
            &&& contents(r->Ok_0) == if opening(*o).truncate { Seq::empty() } else { stored_at(*p) }
            &&& can_read(r->Ok_0) == opening(*o).read
            &&& can_write(r->Ok_0) == (opening(*o).write && !opening(*o).append)
        },
{ unimplemented!() }
