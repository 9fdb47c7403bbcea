global size_of usize == 8;

// ---- shims for panicking macros and std adaptors
fn vs_assert(b: bool)
    requires b,
{ }
#[verifier::external_body]
fn vs_unreachable() -> !
    requires false,
{ unreachable!() }

// ---- std types the errors carry
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
#[verifier::external_body]
pub struct DynError(u8);
#[verifier::external_body]
pub struct LVTimeError(u8);

/// The bytes b, with more behind them.
pub open spec fn starts(b: Seq<u8>, c: Seq<u8>) -> bool {
    &&& b.len() <= c.len()
    &&& forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == c[i]
}
proof fn lemma_starts_skip(b: Seq<u8>, c: Seq<u8>, k: int)
    requires starts(b, c), 0 <= k <= b.len(),
    ensures starts(b.skip(k), c.skip(k)),
{ }
proof fn lemma_starts_sub(b: Seq<u8>, c: Seq<u8>, i: int, j: int)
    requires starts(b, c), 0 <= i <= j <= b.len(),
    ensures b.subrange(i, j) == c.subrange(i, j),
{ assert(b.subrange(i, j) =~= c.subrange(i, j)); }
