# the codecs of the sample types
@each T=i8|u8|i16|u16|i32|u32|i64|u64|f32|f64 N=1|1|2|2|4|4|8|8|4|8
== <@T@ as TdmsStorageType>::read_le
ret r
shim read_exact vs_read_exact
shim from_le_bytes vs_from_le_@T@
at entry {{{
    let ghost b0 = contents(*reader).skip(spos(*reader));
    let ghost p0 = spos(*reader);
}}}
at ret {{{
    proof { if 0 <= p0 { assert(buf@ =~= b0.subrange(0, @N@)); } }
}}}

== <@T@ as TdmsStorageType>::read_be
ret r
shim read_exact vs_read_exact
shim from_be_bytes vs_from_be_@T@
at entry {{{
    let ghost b0 = contents(*reader).skip(spos(*reader));
    let ghost p0 = spos(*reader);
}}}
at ret {{{
    proof { if 0 <= p0 { assert(buf@ =~= b0.subrange(0, @N@)); } }
}}}

== <@T@ as TdmsStorageType>::write_le
ret r
shim write_all vs_write_all
shim to_le_bytes vs_to_le_@T@

== <@T@ as TdmsStorageType>::write_be
ret r
shim write_all vs_write_all
shim to_be_bytes vs_to_be_@T@

== <@T@ as TdmsStorageType>::size
ret r
at entry {{{
    proof { Self::law_stored(*self, Seq::empty(), false); }
}}}

@end

== <bool as TdmsStorageType>::read_le
ret r
shim read_exact vs_read_exact
at entry {{{
    let ghost b0 = contents(*reader).skip(spos(*reader));
    let ghost p0 = spos(*reader);
}}}
at ret {{{
    proof { if 0 <= p0 { assert(b0[0] == buf@[0]); } }
}}}

== <bool as TdmsStorageType>::read_be
ret r

== <bool as TdmsStorageType>::write_le
ret r
shim write_all vs_write_all
at entry {{{
    let ghost e = Self::enc(*self, false);
    proof { assert forall|a: [u8; 1]| #[trigger] a@[0] == e[0] implies a@ == e by { assert(a@ =~= e); } }
}}}

== <bool as TdmsStorageType>::write_be
ret r

== <bool as TdmsStorageType>::size
ret r

== <ExtendedRaw as TdmsStorageType>::read_le
ret r
shim read_exact vs_read_exact
shim from_le_bytes vs_from_le_u128
rangefn 0 ref
at entry {{{
    let ghost b0 = contents(*reader).skip(spos(*reader));
    let ghost p0 = spos(*reader);
}}}
at ret {{{
    proof {
        if 0 <= p0 {
            assert(buffer@ =~= b0.subrange(0, 10) + buffer@.skip(10));
            lemma_padded(b0.subrange(0, 10), buffer@.skip(10));
        }
    }
}}}

== <ExtendedRaw as TdmsStorageType>::read_be
ret r
shim read_exact vs_read_exact
shim from_be_bytes vs_from_be_u128
rangefn 0 ref
at entry {{{
    let ghost b0 = contents(*reader).skip(spos(*reader));
    let ghost p0 = spos(*reader);
}}}
at ret {{{
    proof {
        if 0 <= p0 {
            let d = b0.subrange(0, 10);
            let z = buffer@.take(6);
            assert(buffer@ =~= z + d);
            lemma_padded_front(z, d);
        }
    }
}}}

== <ExtendedRaw as TdmsStorageType>::write_le
ret r
shim write_all vs_write_all
shim to_le_bytes vs_to_le_wide
rangefn 0 ref
at entry {{{
    proof {
        lemma_shorter(self.0 as nat, 10, 16);
        assert(bytes_u128(self.0).subrange(0, 10) =~= bytes_u128(self.0).take(10));
    }
}}}

== <ExtendedRaw as TdmsStorageType>::write_be
ret r
shim write_all vs_write_all
shim to_be_bytes vs_to_be_wide
rangefn 0 ref
at entry {{{
    proof {
        lemma_shorter(self.0 as nat, 10, 16);
        assert(bytes_u128(self.0).reverse().subrange(6, 16) =~= bytes_u128(self.0).take(10).reverse());
    }
}}}

== <ExtendedRaw as TdmsStorageType>::size
ret r
at entry {{{
    proof { Self::law_stored(*self, Seq::empty(), false); }
}}}

== <LVTime as TdmsStorageType>::read_le
ret r
shim read_exact vs_read_exact
at entry {{{
    let ghost b0 = contents(*reader).skip(spos(*reader));
    let ghost p0 = spos(*reader);
}}}
at ret {{{
    proof { if 0 <= p0 { assert(bytes@ =~= b0.subrange(0, 16)); } }
}}}

== <LVTime as TdmsStorageType>::read_be
ret r
shim read_exact vs_read_exact
at entry {{{
    let ghost b0 = contents(*reader).skip(spos(*reader));
    let ghost p0 = spos(*reader);
}}}
at ret {{{
    proof { if 0 <= p0 { assert(bytes@ =~= b0.subrange(0, 16)); } }
}}}

== <LVTime as TdmsStorageType>::write_le
ret r
shim write_all vs_write_all

== <LVTime as TdmsStorageType>::write_be
ret r
shim write_all vs_write_all

== <LVTime as TdmsStorageType>::size
ret r
at entry {{{
    proof { Self::law_stored(*self, Seq::empty(), false); }
}}}

== Complex::new
ret r
spec {{{
    ensures r == (Complex { real: real, imaginary: imaginary }),
}}}

@each T=f32|f64 N=4|8 M=8|16
== <Complex<@T@> as TdmsStorageType>::read_le
ret r
at entry {{{
    let ghost b0 = contents(*reader).skip(spos(*reader));
    let ghost p0 = spos(*reader);
    let ghost bs = contents(*reader);
    proof {
        if 0 <= p0 && p0 + @N@ <= bs.len() {
            assert(bs.skip(p0 + @N@) =~= b0.skip(@N@));
            assert(bs.skip(p0).subrange(0, @N@) =~= b0.subrange(0, @N@));
            if p0 + @M@ <= bs.len() { assert(b0.skip(@N@).subrange(0, @N@) =~= b0.subrange(@N@, @M@)); }
        }
    }
}}}

== <Complex<@T@> as TdmsStorageType>::read_be
ret r
at entry {{{
    let ghost b0 = contents(*reader).skip(spos(*reader));
    let ghost p0 = spos(*reader);
    let ghost bs = contents(*reader);
    proof {
        if 0 <= p0 && p0 + @N@ <= bs.len() {
            assert(bs.skip(p0 + @N@) =~= b0.skip(@N@));
            assert(bs.skip(p0).subrange(0, @N@) =~= b0.subrange(0, @N@));
            if p0 + @M@ <= bs.len() { assert(b0.skip(@N@).subrange(0, @N@) =~= b0.subrange(@N@, @M@)); }
        }
    }
}}}

== <Complex<@T@> as TdmsStorageType>::write_le
ret r
at entry {{{
    let ghost w0 = written(*writer);
    let ghost a = <@T@ as TdmsStorageType>::enc(self.real, false);
    let ghost b = <@T@ as TdmsStorageType>::enc(self.imaginary, false);
    proof { assert(w0 + (a + b) =~= (w0 + a) + b); }
}}}

== <Complex<@T@> as TdmsStorageType>::write_be
ret r
at entry {{{
    let ghost w0 = written(*writer);
    let ghost a = <@T@ as TdmsStorageType>::enc(self.real, true);
    let ghost b = <@T@ as TdmsStorageType>::enc(self.imaginary, true);
    proof { assert(w0 + (a + b) =~= (w0 + a) + b); }
}}}

== <Complex<@T@> as TdmsStorageType>::size
ret r
at entry {{{
    proof { Self::law_stored(*self, Seq::empty(), false); }
}}}
@end

== U128_SIZE
sub std::mem::size_of::<u128>() => 16

== read_string_with_length
ret r
shim try_reserve .vs_try_reserve
shim set_len .vs_set_len
shim read_exact vs_read_exact
shim from_utf8 vs_from_utf8
rangefn 0 ref
spec {{{
    ensures
        contents(*final(reader)) == contents(*old(reader)),
        healthy(*final(reader)) == healthy(*old(reader)),
        0 <= spos(*old(reader)) <= contents(*old(reader)).len() ==> match text(contents(*old(reader)).skip(spos(*old(reader))), length as nat) {
            Some(s) => (healthy(*old(reader)) ==> r is Ok) && (r is Ok ==> r->Ok_0 == s && spos(*final(reader)) == spos(*old(reader)) + length),
            None => r is Err,
        },
        r is Err ==> !(r->Err_0 is EndOfFile),
}}}
closure 0 {{{ -> (e: TdmsError) ensures e is StringAllocationFailed }}}
at entry {{{
    let ghost b0 = contents(*reader).skip(spos(*reader));
    let ghost p0 = spos(*reader);
    proof { if 0 <= p0 && p0 + length <= contents(*reader).len() { assert(contents(*reader).subrange(p0, p0 + length) =~= b0.subrange(0, length as int)); } }
}}}
at ret {{{
    proof { lemma_string_of(value); }
}}}

@each D=le|be B=false|true
== <String as TdmsStorageType>::read_@D@
ret r
at entry {{{
    let ghost bs = contents(*reader);
    let ghost p0 = spos(*reader);
    let ghost b0 = bs.skip(p0);
    proof { if 0 <= p0 && p0 + 4 <= bs.len() { assert(bs.skip(p0 + 4) =~= b0.skip(4)); } }
}}}

== <String as TdmsStorageType>::write_@D@
ret r
shim write_all vs_write_all
shim to_@D@_bytes vs_u32_@D@
shim len vs_string_len
shim as_bytes vs_as_bytes
at entry {{{
    let ghost w0 = written(*writer);
    let ghost a = order(bytes_u32(encode_utf8(self@).len() as u32), @B@);
    let ghost b = encode_utf8(self@);
    proof { assert(w0 + (a + b) =~= (w0 + a) + b); }
}}}
@end

== <String as TdmsStorageType>::size
ret r
shim len vs_string_len
at entry {{{
    proof { let n = #[verifier::truncate] (encode_utf8(self@).len() as u32); lemma_u32(n); }
}}}
