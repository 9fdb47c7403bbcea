// ---- bytes of numbers
/// The number whose bytes, least significant first, these are.
spec fn le_nat(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { s[0] as nat + 256 * le_nat(s.skip(1)) }
}
spec fn le_bytes(x: nat, k: nat) -> Seq<u8> decreases k {
    if k == 0 { Seq::empty() } else { seq![(x % 256) as u8] + le_bytes(x / 256, (k - 1) as nat) }
}
spec fn pow256(k: nat) -> nat decreases k {
    if k == 0 { 1 } else { 256 * pow256((k - 1) as nat) }
}
proof fn lemma_le_nat(s: Seq<u8>)
    ensures le_nat(s) < pow256(s.len()), le_bytes(le_nat(s), s.len()) == s,
    decreases s.len(),
{
    if s.len() == 0 {
        assert(le_bytes(0, 0) =~= s);
    } else {
        lemma_le_nat(s.skip(1));
        let r = le_nat(s.skip(1));
        assert((s[0] as nat + 256 * r) % 256 == s[0]) by (nonlinear_arith) requires 0 <= s[0] < 256;
        assert((s[0] as nat + 256 * r) / 256 == r) by (nonlinear_arith) requires 0 <= s[0] < 256;
        assert(le_bytes(le_nat(s), s.len()) =~= s);
    }
}
proof fn lemma_le_bytes(x: nat, k: nat)
    ensures le_bytes(x, k).len() == k, x < pow256(k) ==> le_nat(le_bytes(x, k)) == x,
    decreases k,
{
    if k > 0 {
        lemma_le_bytes(x / 256, (k - 1) as nat);
        assert(le_bytes(x, k).skip(1) =~= le_bytes(x / 256, (k - 1) as nat));
        if x < pow256(k) {
            assert(x / 256 < pow256((k - 1) as nat)) by (nonlinear_arith) requires x < 256 * pow256((k - 1) as nat);
            assert(x == x % 256 + 256 * (x / 256)) by (nonlinear_arith);
        }
    }
}
proof fn lemma_pow256()
    ensures pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000, pow256(16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000,
{
    reveal_with_fuel(pow256, 17);
}
/// The bytes in the order of the stream, as least significant first, or back.
spec fn order(s: Seq<u8>, big: bool) -> Seq<u8> {
    if big { s.reverse() } else { s }
}
proof fn lemma_order(s: Seq<u8>, big: bool)
    ensures order(order(s, big), big) == s, order(s, big).len() == s.len(),
{
    assert(order(order(s, big), big) =~= s);
}
// ---- streams
/// The error says that the stream ended.
uninterp spec fn is_eof(e: std::io::Error) -> bool;
/// TRUSTED: read_exact takes the next bytes of the stream, or fails if there are too few.
#[verifier::external_body]
fn vs_read_exact<R: Read>(reader: &mut R, buf: &mut [u8]) -> (r: std::io::Result<()>)
    ensures
        final(buf)@.len() == old(buf)@.len(),
        contents(*final(reader)) == contents(*old(reader)),
        healthy(*final(reader)) == healthy(*old(reader)),
        old(buf)@.len() > 0 && spos(*old(reader)) + old(buf)@.len() > contents(*old(reader)).len() ==> r is Err && (healthy(*old(reader)) ==> is_eof(r->Err_0)),
        0 <= spos(*old(reader)) && spos(*old(reader)) + old(buf)@.len() <= contents(*old(reader)).len() ==> {
            &&& healthy(*old(reader)) ==> r is Ok
            &&& r is Ok ==> final(buf)@ == contents(*old(reader)).subrange(spos(*old(reader)), spos(*old(reader)) + old(buf)@.len())
                && spos(*final(reader)) == spos(*old(reader)) + old(buf)@.len()
        },
{ reader.read_exact(buf) }
/// What was written to a stream so far, and whether writing to it succeeds.
pub uninterp spec fn written<W>(w: W) -> Seq<u8>;
pub uninterp spec fn accepts<W>(w: W) -> bool;
/// Writing these bytes: all of them, or a failure which leaves a part behind.
spec fn writes<W>(old: W, new: W, ok: bool, b: Seq<u8>) -> bool {
    &&& accepts(new) == accepts(old)
    &&& accepts(old) ==> ok
    &&& ok ==> written(new) == written(old) + b
    &&& written(old).is_prefix_of(written(new))
    &&& written(new).len() <= written(old).len() + b.len()
}
#[verifier::external_trait_specification]
pub trait ExWrite {
    type ExternalTraitSpecificationFor: Write;
}
/// TRUSTED: write_all appends the bytes, or fails having appended some of them.
#[verifier::external_body]
fn vs_write_all<W: Write>(writer: &mut W, buf: &[u8]) -> (r: std::io::Result<()>)
    ensures writes(*old(writer), *final(writer), r is Ok, buf@),
{ writer.write_all(buf) }
