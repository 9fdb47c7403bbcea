# metadata
== TdmsWriter
extra {{{
    /// What was written so far.
    spec fn out(&self) -> Seq<u8>;
    /// Writing to it succeeds.
    spec fn takes(&self) -> bool;
    /// What the stream below holds of it.
    spec fn landed(&self) -> Seq<u8>;
}}}

== TdmsWriter::sync
ret r
spec {{{
    ensures
        final(self).out() == old(self).out(),
        final(self).takes() == old(self).takes(),
        old(self).takes() ==> r is Ok,
        r is Ok ==> final(self).landed() == final(self).out(),
}}}

== TdmsWriter::from_writer
ret r
spec {{{
    ensures
        r.out() == written(writer),
        r.takes() == accepts(writer),
}}}

== TdmsWriter::write_value
ret r
spec {{{
    ensures wrote(old(self).out(), final(self).out(), old(self).takes(), final(self).takes(), r is Ok, T::enc(*value, Self::BIG_ENDIAN_FLAG)),
}}}

== TdmsMetaData
extra {{{
    /// What the bytes start with, and how many bytes it takes.
    spec fn parse(b: Seq<u8>, big: bool) -> Option<(Self, nat)>;
    /// The stored form.
    spec fn enc(v: Self, big: bool) -> Seq<u8>;
    /// What has a stored form of its own.
    spec fn stored_as_is(v: Self) -> bool;
    /// What reading gives.
    spec fn sane(v: Self) -> bool;
    /// LAW: it is made of bytes which are there, of one at least.
    proof fn law_within(b: Seq<u8>, big: bool)
        ensures Self::parse(b, big) is Some ==> 1 <= Self::parse(b, big)->Some_0.1 <= b.len() && Self::sane(Self::parse(b, big)->Some_0.0);
    /// LAW: what bytes further on are does not matter.
    proof fn law_local(b: Seq<u8>, c: Seq<u8>, big: bool)
        requires starts(b, c),
        ensures Self::parse(b, big) is Some ==> Self::parse(c, big) == Self::parse(b, big);
    /// LAW: it is read back whatever follows it, and takes as many bytes in either order.
    proof fn law_stored(v: Self, rest: Seq<u8>, big: bool)
        ensures
            Self::enc(v, big).len() == Self::enc(v, !big).len(),
            Self::stored_as_is(v) ==> Self::parse(Self::enc(v, big) + rest, big) == Some((v, Self::enc(v, big).len()));
}}}

== TdmsMetaData::read
ret r
spec {{{
    ensures got(old(reader).bytes(), final(reader).bytes(), old(reader).good(), final(reader).good(), old(reader).pos(), final(reader).pos(), r, Self::parse(old(reader).bytes().skip(old(reader).pos()), VsI0::big())),
}}}

== TdmsMetaData::write
ret r
spec {{{
    ensures wrote(old(writer).out(), final(writer).out(), old(writer).takes(), final(writer).takes(), r is Ok, Self::enc(*self, VsI0::BIG_ENDIAN_FLAG)),
}}}

== TdmsMetaData::size
ret r
spec {{{
    requires Self::enc(*self, false).len() <= usize::MAX,
    ensures r == Self::enc(*self, false).len(),
}}}

== TdmsReader::read_meta
free vs_read_meta
ret r
spec {{{
    ensures got(old(vs_self).bytes(), final(vs_self).bytes(), old(vs_self).good(), final(vs_self).good(), old(vs_self).pos(), final(vs_self).pos(), r, T::parse(old(vs_self).bytes().skip(old(vs_self).pos()), VsX::big())),
}}}

== TdmsReader::read_vec
free vs_read_vec
ret r
shim try_reserve .vs_reserve
shim read_meta vs_read_meta
spec {{{
    ensures
        final(vs_self).bytes() == old(vs_self).bytes(),
        final(vs_self).good() == old(vs_self).good(),
        r is Err ==> !(r->Err_0 is EndOfFile),
        0 <= old(vs_self).pos() <= old(vs_self).bytes().len() ==> match parse_seq::<T>(old(vs_self).bytes().skip(old(vs_self).pos()), VsX::big(), length as nat) {
            Some((s, n)) => (old(vs_self).good() && enough_memory() && length <= u32::MAX ==> r is Ok) && (r is Ok ==> r->Ok_0@ == s && final(vs_self).pos() == old(vs_self).pos() + n),
            None => r is Err,
        },
}}}
closure 0 {{{ -> (e: TdmsError) ensures e is VecAllocationFailed }}}
at entry {{{
        let ghost bs = self.bytes();
        let ghost p0 = self.pos();
        let ghost b0 = bs.skip(p0);
        let ghost good0 = self.good();
}}}
loop 0 native it {{{
        invariant
            self.bytes() == bs,
            self.good() == good0,
            bs == old(self).bytes(),
            good0 == old(self).good(),
            p0 == old(self).pos(),
            b0 == bs.skip(p0),
            it.seq().len() == length,
            0 <= p0 <= bs.len() ==> parse_seq::<T>(b0, VsX::big(), it.index@ as nat) is Some && vec@ == parse_seq::<T>(b0, VsX::big(), it.index@ as nat)->Some_0.0 && self.pos() == p0 + parse_seq::<T>(b0, VsX::big(), it.index@ as nat)->Some_0.1,
}}}
at loop 0 body {{{
            let ghost i = it.index@ as nat;
            proof {
                lemma_parse_seq::<T>(b0, VsX::big(), i, i);
                lemma_parse_seq::<T>(b0, VsX::big(), i + 1, length as nat);
                if 0 <= p0 <= bs.len() { assert(bs.skip(self.pos()) =~= b0.skip(parse_seq::<T>(b0, VsX::big(), i)->Some_0.1 as int)); }
            }
}}}

== TdmsWriter::write_meta
free vs_write_meta
ret r
spec {{{
    ensures wrote(old(vs_self).out(), final(vs_self).out(), old(vs_self).takes(), final(vs_self).takes(), r is Ok, T::enc(*value, VsX::BIG_ENDIAN_FLAG)),
}}}

== <DataType as TdmsMetaData>::read
ret r
shim from_u32 vs_from_u32
at entry {{{
        proof {
            assert(forall|t: DataType| #[trigger] dt_code(t) == discriminant(t));
            assert(forall|t: DataType| #[trigger] discriminant(t) == dt_code(t));
            assert forall|t: DataType| #[trigger] dt_of(dt_code(t)) == Some(t) by { lemma_dt(t); }
        }
}}}

== <DataType as TdmsMetaData>::write
ret r

== <DataType as TdmsMetaData>::size
ret r
at entry {{{
        proof { <u32 as TdmsStorageType>::law_stored(dt_code(*self), Seq::empty(), false); const_SIZE_BYTES_u32(); }
}}}

== mask_bit_set
ret r
spec {{{
    requires bit < 32,
    ensures r == (value & (1u32 << bit) != 0),
}}}

== set_bits
spec {{{
    requires bit < 32,
    ensures
        forall|k: u32| k < 32 ==> #[trigger] bit_at(*final(input), k) == (bit_at(*old(input), k) || value && k == bit),
}}}
at entry {{{
        let ghost v0 = *input;
}}}
at exit {{{
        proof {
            assert forall|k: u32| k < 32 implies #[trigger] bit_at(*input, k) == (bit_at(v0, k) || value && k == bit) by {
                let n = *input;
                let b = bit as u32;
                assert(((v0 | (1u32 << b)) >> k) & 1 == 1 <==> ((v0 >> k) & 1 == 1 || k == b)) by (bit_vector) requires k < 32, b < 32;
                assert((1u32 << b) == (1u32 << bit));
            }
        }
}}}

== ToC::from_u32
ret r
spec {{{
    ensures r == toc_of(value),
}}}
at entry {{{
        proof { assert(1u32 << 1 == 2 && 1u32 << 2 == 4 && 1u32 << 3 == 8 && 1u32 << 5 == 32 && 1u32 << 6 == 64 && 1u32 << 7 == 128) by (bit_vector); }
}}}

== ToC::as_bytes
ret r
shim to_le_bytes vs_u32_to_le
spec {{{
    ensures r@ == bytes_u32(toc_bits(*self)),
}}}
at ret {{{
        proof {
            assert forall|k: u32| k < 32 implies bit_at(toc, k) == bit_at(toc_bits(*self), k) by { lemma_toc_bit(*self, k); lemma_no_bit(k); }
            lemma_same_bits(toc, toc_bits(*self));
        }
}}}

== <ToC as TdmsMetaData>::read
ret r

== <ToC as TdmsMetaData>::write
ret r
at entry {{{
        let ghost w0 = writer.out();
        let ghost e = bytes_u32(toc_bits(*self));
}}}
loop 0 native it .iter() {{{
        invariant
            it.seq().len() == 4,
            forall|i: int| 0 <= i < 4 ==> *#[trigger] it.seq()[i] == e[i],
            e.len() == 4,
            e == bytes_u32(toc_bits(*self)),
            writer.out() == w0 + e.take(it.index@),
            w0 == old(writer).out(),
            writer.takes() == old(writer).takes(),
}}}
at loop 0 body {{{
            let ghost i = it.index@;
            proof { lemma_byte(*byte); assert(w0 + e.take(i) + seq![e[i]] =~= w0 + e.take(i + 1)); }
}}}
at loop 0 after {{{
        proof { assert(e.take(4) =~= e); }
}}}

== <ToC as TdmsMetaData>::size
ret r
at entry {{{
        proof { <u32 as TdmsStorageType>::law_stored(toc_bits(*self), Seq::empty(), false); const_SIZE_BYTES_u32(); }
}}}

== <RawDataIndex as TdmsMetaData>::read
ret r
shim read_meta vs_read_meta
at entry {{{
        let ghost bs = reader.bytes();
        let ghost p0 = reader.pos();
        let ghost b0 = bs.skip(p0);
        proof {
            const_SIZE_BYTES_u32();
            const_SIZE_BYTES_u64();
            if 0 <= p0 {
                if p0 + 4 <= bs.len() { assert(bs.skip(p0 + 4) =~= b0.skip(4)); }
                if p0 + 12 <= bs.len() { assert(bs.skip(p0 + 12) =~= b0.skip(12)); }
            }
        }
}}}

== <RawDataIndex as TdmsMetaData>::write
ret r
shim write_meta vs_write_meta
at entry {{{
        let ghost w0 = writer.out();
        proof {
            if *self is RawData {
                let m = self->RawData_0;
                let big = VsI0::BIG_ENDIAN_FLAG;
                let a = <u32 as TdmsStorageType>::enc(20, big);
                let t = DataType::enc(m.data_type, big);
                let o = <u32 as TdmsStorageType>::enc(1, big);
                let n = <u64 as TdmsStorageType>::enc(m.number_of_values, big);
                assert(w0 + (a + t + o + n) =~= w0 + a + t + o + n);
            }
        }
}}}

== <RawDataIndex as TdmsMetaData>::size
ret r
at entry {{{
        proof {
            const_SIZE_BYTES_u32();
            const_SIZE_BYTES_u64();
            assert forall|v: u32| (#[trigger] <u32 as TdmsStorageType>::enc(v, false)).len() == 4 by { <u32 as TdmsStorageType>::law_stored(v, Seq::empty(), false); }
            assert forall|v: u64| (#[trigger] <u64 as TdmsStorageType>::enc(v, false)).len() == 8 by { <u64 as TdmsStorageType>::law_stored(v, Seq::empty(), false); }
        }
}}}


== PropertyValue::datatype
ret r
spec {{{
    ensures r == pv_type(*self),
}}}

== write_property_components
ret r
shim write_meta vs_write_meta
spec {{{
    ensures wrote(old(writer).out(), final(writer).out(), old(writer).takes(), final(writer).takes(), r is Ok, DataType::enc(data_type, VsI0::BIG_ENDIAN_FLAG) + T::enc(*value, VsI0::BIG_ENDIAN_FLAG)),
}}}
at entry {{{
        let ghost w0 = writer.out();
        proof {
            let big = VsI0::BIG_ENDIAN_FLAG;
            assert(w0 + (DataType::enc(data_type, big) + T::enc(*value, big)) =~= w0 + DataType::enc(data_type, big) + T::enc(*value, big));
        }
}}}

== <PropertyValue as TdmsMetaData>::read
ret r
shim read_meta vs_read_meta
at entry {{{
        let ghost bs = reader.bytes();
        let ghost p0 = reader.pos();
        let ghost b0 = bs.skip(p0);
        proof { if 0 <= p0 && p0 + 4 <= bs.len() { assert(bs.skip(p0 + 4) =~= b0.skip(4)); } }
}}}

== <PropertyValue as TdmsMetaData>::write
ret r
shim write_meta vs_write_meta
at entry {{{
        proof { let e = DataType::enc(DataType::Void, VsI0::BIG_ENDIAN_FLAG); assert(e + Seq::<u8>::empty() =~= e); }
}}}

== <PropertyValue as TdmsMetaData>::size
ret r
at entry {{{
        proof { lemma_dt_len(pv_type(*self), false); }
}}}

== <ObjectMetaData as TdmsMetaData>::read
ret r
shim read_meta vs_read_meta
shim try_reserve .vs_reserve
closure 0 {{{ -> (e: TdmsError) ensures e is PropertyTableAllocationFailed }}}
at entry {{{
        let ghost bs = reader.bytes();
        let ghost p0 = reader.pos();
        let ghost b0 = bs.skip(p0);
        let ghost good0 = reader.good();
        proof { reader.law_good(); }
        let ghost s1 = <String as TdmsStorageType>::parse(b0, VsI0::big());
        let ghost n = if s1 is Some { s1->Some_0.1 } else { 0 };
        let ghost s2 = RawDataIndex::parse(b0.skip(n as int), VsI0::big());
        let ghost m = if s2 is Some { s2->Some_0.1 } else { 0 };
        proof {
            const_SIZE_BYTES_u32();
            <String as TdmsStorageType>::law_within(b0, VsI0::big());
            RawDataIndex::law_within(b0.skip(n as int), VsI0::big());
            if 0 <= p0 <= bs.len() {
                assert(bs.skip(p0 + n) =~= b0.skip(n as int));
                if p0 + n + m <= bs.len() { assert(bs.skip(p0 + n + m) =~= b0.skip((n + m) as int)); }
                if p0 + n + m + 4 <= bs.len() { assert(bs.skip(p0 + n + m + 4) =~= b0.skip((n + m + 4) as int)); }
            }
        }
}}}
at loop 0 before {{{
        let ghost p1 = reader.pos();
        let ghost b1 = bs.skip(p1);
}}}
loop 0 native it {{{
        invariant
            reader.bytes() == bs,
            reader.good() == good0,
            bs == old(reader).bytes(),
            good0 == old(reader).good(),
            p0 == old(reader).pos(),
            b0 == bs.skip(p0),
            0 <= p0 <= bs.len() ==> {
                &&& p0 <= p1 <= bs.len()
                &&& Self::parse(b0, VsI0::big()) == match parse_pairs(b1, VsI0::big(), property_count as nat) {
                    Some((ps, k)) => Some((ObjectMetaData { path, properties: vec_of(ps), raw_data_index: raw_data }, (p1 - p0 + k) as nat)),
                    None => None,
                }
            },
            p0 > bs.len() ==> false,
            b1 == bs.skip(p1),
            it.seq().len() == property_count,
            0 <= p0 <= bs.len() ==> parse_pairs(b1, VsI0::big(), it.index@ as nat) is Some && properties@ == parse_pairs(b1, VsI0::big(), it.index@ as nat)->Some_0.0 && reader.pos() == p1 + parse_pairs(b1, VsI0::big(), it.index@ as nat)->Some_0.1,
}}}
at loop 0 body {{{
            let ghost i = it.index@ as nat;
            proof {
                lemma_parse_pairs(b1, VsI0::big(), i, i);
                lemma_parse_pairs(b1, VsI0::big(), i + 1, property_count as nat);
                if 0 <= p0 {
                    let q = reader.pos();
                    let k = parse_pairs(b1, VsI0::big(), i)->Some_0.1;
                    assert(bs.skip(q) =~= b1.skip(k as int));
                    let sn = <String as TdmsStorageType>::parse(b1.skip(k as int), VsI0::big());
                    <String as TdmsStorageType>::law_within(b1.skip(k as int), VsI0::big());
                    if sn is Some { assert(bs.skip(q + sn->Some_0.1) =~= b1.skip(k as int).skip(sn->Some_0.1 as int)); }
                }
            }
}}}
at tail {{{
        proof { lemma_vec_of_properties(properties); }
}}}

== <ObjectMetaData as TdmsMetaData>::write
ret r
shim write_meta vs_write_meta
at entry {{{
        let ghost w0 = writer.out();
        let ghost big = VsI0::BIG_ENDIAN_FLAG;
        let ghost head = <String as TdmsStorageType>::enc(self.path, big) + RawDataIndex::enc(self.raw_data_index, big) + <u32 as TdmsStorageType>::enc(self.properties@.len() as u32, big);
        let ghost w1 = w0 + head;
        proof {
            assert(w1 =~= w0 + <String as TdmsStorageType>::enc(self.path, big) + RawDataIndex::enc(self.raw_data_index, big) + <u32 as TdmsStorageType>::enc(self.properties@.len() as u32, big));
        }
}}}
at loop 0 before {{{
        proof { assert(w1 + enc_pairs(self.properties@, big, 0) =~= w1); }
}}}
loop 0 native it .iter() {{{
        invariant
            w0 == old(writer).out(),
            w1 == w0 + head,
            big == VsI0::BIG_ENDIAN_FLAG,
            writer.takes() == old(writer).takes(),
            it.seq().len() == self.properties@.len(),
            forall|i: int| 0 <= i < self.properties@.len() ==> *#[trigger] it.seq()[i] == self.properties@[i],
            writer.out() == w1 + enc_pairs(self.properties@, big, it.index@),
            head.len() + enc_pairs(self.properties@, big, self.properties@.len() as int).len() == Self::enc(*self, big).len(),
}}}
at loop 0 body {{{
            let ghost i = it.index@;
            proof {
                let a = enc_pairs(self.properties@, big, i);
                let x = <String as TdmsStorageType>::enc(self.properties@[i].0, big);
                let y = PropertyValue::enc(self.properties@[i].1, big);
                assert(w1 + (a + (x + y)) =~= w1 + a + x + y);
                lemma_enc_pairs(self.properties@, i + 1, self.properties@.len() as int);
                lemma_enc_pairs(self.properties@, self.properties@.len() as int, self.properties@.len() as int);
                if big {} else {}
                assert(a.len() + x.len() + y.len() <= enc_pairs(self.properties@, big, self.properties@.len() as int).len());
            }
}}}
at loop 0 after {{{
        proof {
            let p = enc_pairs(self.properties@, big, self.properties@.len() as int);
            assert(w0 + (head + p) =~= w1 + p);
        }
}}}

== <ObjectMetaData as TdmsMetaData>::size
ret r
at entry {{{
        let ghost n = self.properties@.len() as int;
        let ghost head = <String as TdmsStorageType>::enc(self.path, false).len() + RawDataIndex::enc(self.raw_data_index, false).len() + 4;
        proof {
            const_SIZE_BYTES_u32();
            lemma_u32_len(n as u32, false);
        }
}}}
loop 0 native it .iter() {{{
        invariant
            n == self.properties@.len(),
            head + enc_pairs(self.properties@, false, n).len() <= usize::MAX,
            it.seq().len() == self.properties@.len(),
            forall|i: int| 0 <= i < self.properties@.len() ==> *#[trigger] it.seq()[i] == self.properties@[i],
            size == head + enc_pairs(self.properties@, false, it.index@).len(),
}}}
at loop 0 body {{{
            proof { lemma_enc_pairs(self.properties@, it.index@ + 1, n); }
}}}

== <MetaData as TdmsMetaData>::read
ret r
shim read_vec vs_read_vec
at entry {{{
        let ghost bs = reader.bytes();
        let ghost p0 = reader.pos();
        let ghost b0 = bs.skip(p0);
        proof {
            reader.law_good();
            const_SIZE_BYTES_u32();
            if 0 <= p0 && p0 + 4 <= bs.len() { assert(bs.skip(p0 + 4) =~= b0.skip(4)); }
        }
}}}
at tail {{{
        proof { lemma_vec_of_objects(objects); }
}}}

== <MetaData as TdmsMetaData>::write
ret r
shim write_meta vs_write_meta
at entry {{{
        let ghost w0 = writer.out();
        let ghost big = VsI0::BIG_ENDIAN_FLAG;
        let ghost head = <u32 as TdmsStorageType>::enc(self.objects@.len() as u32, big);
        let ghost w1 = w0 + head;
}}}
at loop 0 before {{{
        proof { assert(w1 + enc_seq::<ObjectMetaData>(self.objects@, big, 0) =~= w1); }
}}}
loop 0 native it .iter() {{{
        invariant
            w0 == old(writer).out(),
            w1 == w0 + head,
            big == VsI0::BIG_ENDIAN_FLAG,
            writer.takes() == old(writer).takes(),
            it.seq().len() == self.objects@.len(),
            forall|i: int| 0 <= i < self.objects@.len() ==> *#[trigger] it.seq()[i] == self.objects@[i],
            writer.out() == w1 + enc_seq::<ObjectMetaData>(self.objects@, big, it.index@),
            head.len() + enc_seq::<ObjectMetaData>(self.objects@, big, self.objects@.len() as int).len() == Self::enc(*self, big).len(),
}}}
at loop 0 body {{{
            let ghost i = it.index@;
            proof {
                let a = enc_seq::<ObjectMetaData>(self.objects@, big, i);
                let x = ObjectMetaData::enc(self.objects@[i], big);
                assert(w1 + (a + x) =~= w1 + a + x);
                lemma_enc_seq::<ObjectMetaData>(self.objects@, i + 1, self.objects@.len() as int);
                lemma_enc_seq::<ObjectMetaData>(self.objects@, self.objects@.len() as int, self.objects@.len() as int);
                if big {} else {}
                assert(a.len() + x.len() <= enc_seq::<ObjectMetaData>(self.objects@, big, self.objects@.len() as int).len());
            }
}}}
at loop 0 after {{{
        proof {
            let p = enc_seq::<ObjectMetaData>(self.objects@, big, self.objects@.len() as int);
            assert(w0 + (head + p) =~= w1 + p);
        }
}}}

== <MetaData as TdmsMetaData>::size
ret r
at entry {{{
        let ghost n = self.objects@.len() as int;
        proof {
            const_SIZE_BYTES_u32();
            lemma_u32_len(n as u32, false);
        }
}}}
loop 0 native it .iter() {{{
        invariant
            n == self.objects@.len(),
            4 + enc_seq::<ObjectMetaData>(self.objects@, false, n).len() <= usize::MAX,
            it.seq().len() == self.objects@.len(),
            forall|i: int| 0 <= i < self.objects@.len() ==> *#[trigger] it.seq()[i] == self.objects@[i],
            size == 4 + enc_seq::<ObjectMetaData>(self.objects@, false, it.index@).len(),
}}}
at loop 0 body {{{
            proof { lemma_enc_seq::<ObjectMetaData>(self.objects@, it.index@ + 1, n); }
}}}

== TdmsReader::read_segment
free vs_read_segment
ret r
shim read_meta vs_read_meta
spec {{{
    ensures got(old(vs_self).bytes(), final(vs_self).bytes(), old(vs_self).good(), final(vs_self).good(), old(vs_self).pos(), final(vs_self).pos(), r, body_parse(old(vs_self).bytes().skip(old(vs_self).pos()), VsX::big(), toc)),
}}}
at entry {{{
        let ghost bs = self.bytes();
        let ghost p0 = self.pos();
        let ghost b0 = bs.skip(p0);
        proof {
            const_SIZE_BYTES_u32();
            const_SIZE_BYTES_u64();
            if 0 <= p0 {
                if p0 + 4 <= bs.len() { assert(bs.skip(p0 + 4) =~= b0.skip(4)); }
                if p0 + 12 <= bs.len() { assert(bs.skip(p0 + 12) =~= b0.skip(12)); }
                if p0 + 20 <= bs.len() { assert(bs.skip(p0 + 20) =~= b0.skip(20)); }
            }
        }
}}}

== Segment::read
ret r
shim read_exact vs_read_exact
shim kind .vs_kind
shim from_le_bytes vs_u32_from_le
shim read_segment &vs_read_segment
spec {{{
    ensures
        contents(*final(reader)) == contents(*old(reader)),
        healthy(*final(reader)) == healthy(*old(reader)),
        healthy(*old(reader)) && 0 <= spos(*old(reader)) ==> (r is Err && r->Err_0 is EndOfFile <==> spos(*old(reader)) + 4 > contents(*old(reader)).len()),
        spos(*old(reader)) > contents(*old(reader)).len() ==> r is Err,
        0 <= spos(*old(reader)) <= contents(*old(reader)).len() ==> match seg_parse(contents(*old(reader)).skip(spos(*old(reader)))) {
            Some(s) => (healthy(*old(reader)) ==> r is Ok) && (r is Ok ==> r->Ok_0 == s),
            None => r is Err,
        },
}}}
at before from_u32 0 {{{
        let ghost bs = contents(*old(reader));
        let ghost p0 = spos(*old(reader));
        proof {
            if 0 <= p0 <= bs.len() {
                let b = bs.skip(p0);
                assert(bs.subrange(p0, p0 + 4) =~= b.take(4));
                assert(bs.subrange(p0 + 4, p0 + 8) =~= b.subrange(4, 8));
                assert(bs.skip(p0 + 8) =~= b.skip(8));
            }
            axiom_borrowed_stream(Ghost(reader));
        }
}}}
