# writing
== WriteBlock
extra {{{
    /// The description of every channel.
    spec fn formats(&self) -> Seq<RawDataMeta>;
    /// The bytes it is stored as.
    spec fn stored(&self, big: bool) -> Seq<u8>;
    /// For at least one channel.
    spec fn fit(&self) -> bool;
    /// Made of samples of one size.
    spec fn even(&self) -> bool;
    /// LAW: as many bytes in either order.
    proof fn law_block(&self)
        ensures self.stored(true).len() == self.stored(false).len();
}}}

== WriteBlock::data_structure
ret r
spec {{{
    requires self.fit(),
    ensures r@ == self.formats(),
}}}

== WriteBlock::write
ret r
spec {{{
    ensures wrote(old(writer).out(), final(writer).out(), old(writer).takes(), final(writer).takes(), r is Ok, self.stored(T::BIG_ENDIAN_FLAG)),
}}}

== WriteBlock::size
ret r
spec {{{
    requires
        self.even(),
        self.stored(false).len() <= usize::MAX,
    ensures r == self.stored(false).len(),
}}}

== <&[D] as WriteBlock>::data_structure
ret r
at ret {{{
        proof { assert(vs_ret@ =~= self.formats()); }
}}}

== <&[D] as WriteBlock>::write
ret r
at entry {{{
        let ghost w0 = writer.out();
        let ghost s = (*self)@;
        let ghost big = T::BIG_ENDIAN_FLAG;
        proof { assert(w0 + enc_all::<D>(s, big, 0) =~= w0); }
}}}
loop 0 native it {{{
        invariant
            w0 == old(writer).out(),
            s == (*self)@,
            big == T::BIG_ENDIAN_FLAG,
            writer.takes() == old(writer).takes(),
            it.seq().len() == s.len(),
            forall|i: int| 0 <= i < s.len() ==> *#[trigger] it.seq()[i] == s[i],
            writer.out() == w0 + enc_all::<D>(s, big, it.index@),
}}}
at loop 0 body {{{
            let ghost i = it.index@;
            proof {
                let a = enc_all::<D>(s, big, i);
                let e = D::enc(s[i], big);
                assert(w0 + (a + e) =~= w0 + a + e);
                lemma_enc_all_grows::<D>(s, big, i + 1, s.len() as int);
            }
}}}

== <&[D] as WriteBlock>::size
ret r
at entry {{{
        proof { lemma_enc_all::<D>((*self)@, false, (*self)@.len() as int); }
}}}

== MultiChannelSlice::from_slice
ret r
spec {{{
    ensures
        channel_count@ > 0,
        r is Ok <==> slice@.len() % (channel_count@ as nat) == 0,
        r is Ok ==> r->Ok_0.0 == slice && r->Ok_0.1 == channel_count@,
}}}
at entry {{{
        proof { assert(slice.len() == slice@.len()); }
}}}

== <MultiChannelSlice as WriteBlock>::data_structure
ret r
shim clone .vs_clone
shim map vs_map
shim collect vs_collect
closure 0 {{{ -> (r: RawDataMeta) ensures r == (RawDataMeta { number_of_values: samples_per_channel, ..basic_meta }) }}}
at ret {{{
        proof { assert(vs_ret@ =~= self.formats()); }
}}}

== <MultiChannelSlice as WriteBlock>::write
ret r

== <MultiChannelSlice as WriteBlock>::size
ret r

== <LittleEndianWriter as TdmsWriter>::from_writer
ret r

== <LittleEndianWriter as TdmsWriter>::write_value
ret r

== <LittleEndianWriter as TdmsWriter>::sync
ret r
shim flush &vs_flush

== <BigEndianWriter as TdmsWriter>::from_writer
ret r

== <BigEndianWriter as TdmsWriter>::write_value
ret r

== <BigEndianWriter as TdmsWriter>::sync
ret r
shim flush &vs_flush

== TdmsWriter::write_segment
free vs_write_segment
ret r
shim as_bytes vs_str_bytes
shim write_meta vs_write_meta
spec {{{
    requires
        data is Some ==> data->Some_0.even(),
        meta_enc(meta, false).len() + data_enc(data, false).len() <= usize::MAX,
    ensures
        wrote(old(vs_self).out(), final(vs_self).out(), old(vs_self).takes(), final(vs_self).takes(), r is Ok, seg_enc(emitted(toc, meta, data_len(data), VsX::BIG_ENDIAN_FLAG), data_enc(data, VsX::BIG_ENDIAN_FLAG))),
        r is Ok ==> r->Ok_0 == emitted(toc, meta, data_len(data), VsX::BIG_ENDIAN_FLAG),
}}}
at entry {{{
        hide(le_bytes);
        hide(order);
        hide(toc_bits);
        hide(Seq::is_prefix_of);
        let ghost w0 = self.out();
        let ghost big = VsX::BIG_ENDIAN_FLAG;
        let ghost s = emitted(toc, meta, data_len(data), big);
        let ghost t = tag();
        proof { lemma_tag(); lemma_lead_in(s); assert(w0 + t.take(0) =~= w0); lemma_grown(); }
}}}
loop 0 native it {{{
        invariant
            t == tag(),
            t.len() == 4,
            forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] a.is_prefix_of(b) && #[trigger] b.is_prefix_of(c) ==> a.is_prefix_of(c),
            forall|a: Seq<u8>, b: Seq<u8>| a.is_prefix_of(#[trigger] (a + b)),
            w0 == old(self).out(),
            self.takes() == old(self).takes(),
            it.seq().len() == 4,
            forall|i: int| 0 <= i < 4 ==> *#[trigger] it.seq()[i] == t[i],
            self.out() == w0 + t.take(it.index@),
}}}
at loop 0 body {{{
            let ghost i = it.index@;
            proof { reveal(order); lemma_byte(*char); assert(<u8 as TdmsStorageType>::enc(*char, VsX::BIG_ENDIAN_FLAG) == seq![t[i]]); assert(w0 + t.take(i) + seq![t[i]] =~= w0 + t.take(i + 1)); }
}}}
at loop 0 after {{{
        proof { assert(t.take(4) =~= t); }
}}}
at tail {{{
        proof { lemma_joined(w0, s, data_enc(data, big)); }
}}}
