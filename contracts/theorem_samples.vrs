/// C01: a truth value is one byte, 1 or 0, and any byte but 0 is true.
proof fn theorem_bytes_bool(v: bool, b: u8, big: bool)
    ensures
        <bool as TdmsStorageType>::enc(v, big) == seq![if v { 1u8 } else { 0u8 }],
        <bool as TdmsStorageType>::parse(seq![b], big) == Some((b != 0, 1nat)),
{ }
@each T=f32|f64 N=4|8 M=8|16
/// C01: a complex number is its real part and then its imaginary part, each in the byte order of the segment.
proof fn theorem_bytes_Complex_@T@(v: Complex<@T@>, big: bool)
    ensures
        <Complex<@T@> as TdmsStorageType>::enc(v, big) == <@T@ as TdmsStorageType>::enc(v.real, big) + <@T@ as TdmsStorageType>::enc(v.imaginary, big),
        <Complex<@T@> as TdmsStorageType>::enc(v, big).len() == @M@,
{
    theorem_codec::<Complex<@T@>>(v, Seq::empty(), big);
    const_SIZE_BYTES_Complex_@T@();
}
@end
/// C01: a timestamp is sixteen bytes, in one order those in the other backwards.
proof fn theorem_bytes_LVTime(v: LVTime, big: bool)
    ensures
        <LVTime as TdmsStorageType>::enc(v, true) == <LVTime as TdmsStorageType>::enc(v, false).reverse(),
        <LVTime as TdmsStorageType>::enc(v, big).len() == 16,
{
    theorem_codec::<LVTime>(v, Seq::empty(), big);
    const_SIZE_BYTES_LVTime();
}
/// C01: an extended number is the low ten bytes of what holds it.
proof fn theorem_bytes_ExtendedRaw(v: ExtendedRaw, rest: Seq<u8>, big: bool)
    ensures
        <ExtendedRaw as TdmsStorageType>::enc(v, true) == <ExtendedRaw as TdmsStorageType>::enc(v, false).reverse(),
        <ExtendedRaw as TdmsStorageType>::enc(v, big).len() == 10,
        v.0 < pow256(10) ==> <ExtendedRaw as TdmsStorageType>::parse(<ExtendedRaw as TdmsStorageType>::enc(v, big) + rest, big) == Some((v, 10nat)),
{
    theorem_codec::<ExtendedRaw>(v, rest, big);
    const_SIZE_BYTES_ExtendedRaw();
}
