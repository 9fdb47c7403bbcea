// ---- value types of other crates, opaque here
#[verifier::external_body]
pub struct LVTime(u8);
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Complex<T>(T);
