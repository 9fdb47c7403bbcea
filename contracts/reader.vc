== TdmsStorageType
extra {{{
    /// The value the bytes start with, and how many bytes it takes.
    spec fn parse(b: Seq<u8>, big: bool) -> Option<(Self, nat)>;
    /// The stored form of a value.
    spec fn enc(v: Self, big: bool) -> Seq<u8>;
    /// The values which have a stored form of their own.
    spec fn stored_as_is(v: Self) -> bool;
    spec fn fixed() -> bool;
    /// LAW: a fixed-size value takes SIZE_BYTES bytes, and every such string of bytes is a value.
    proof fn law_fixed(b: Seq<u8>, big: bool)
        requires Self::fixed(),
        ensures
            Self::SIZE_BYTES >= 1,
            Self::SIZE_BYTES <= 16,
            Self::parse(b, big) is Some <==> b.len() >= Self::SIZE_BYTES,
            Self::parse(b, big) is Some ==> Self::parse(b, big)->Some_0.1 == Self::SIZE_BYTES;
    /// LAW: the supported types have the size of the sample type.
    proof fn law_supported(t: DataType)
        requires Self::SUPPORTED_TYPES@.contains(t),
        ensures dt_size(t) == Self::SIZE_BYTES || dt_size(t) == 0, dt_size(t) != 0 ==> Self::fixed();
    /// LAW: a value is written as the type it is read as, and decodes to itself whatever follows it.
    proof fn law_stored(v: Self, rest: Seq<u8>, big: bool)
        ensures
            Self::SUPPORTED_TYPES@.contains(Self::NATURAL_TYPE),
            Self::fixed() <==> dt_size(Self::NATURAL_TYPE) != 0,
            Self::fixed() ==> Self::enc(v, big).len() == Self::SIZE_BYTES,
            Self::enc(v, big).len() == Self::enc(v, !big).len(),
            Self::stored_as_is(v) ==> Self::parse(Self::enc(v, big) + rest, big) == Some((v, Self::enc(v, big).len()));
    /// LAW: a value is made of bytes which are there.
    proof fn law_within(b: Seq<u8>, big: bool)
        ensures Self::parse(b, big) is Some ==> Self::parse(b, big)->Some_0.1 <= b.len();
    /// LAW: what bytes further on are does not matter.
    proof fn law_local(b: Seq<u8>, c: Seq<u8>, big: bool)
        requires starts(b, c),
        ensures Self::parse(b, big) is Some ==> Self::parse(c, big) == Self::parse(b, big);
}}}

== TdmsStorageType::read_le
ret r
spec {{{
    ensures reads(*old(reader), *final(reader), r, Self::parse(contents(*old(reader)).skip(spos(*old(reader))), false)),
}}}

== TdmsStorageType::read_be
ret r
spec {{{
    ensures reads(*old(reader), *final(reader), r, Self::parse(contents(*old(reader)).skip(spos(*old(reader))), true)),
}}}

== TdmsStorageType::write_le
ret r
spec {{{
    ensures writes(*old(writer), *final(writer), r is Ok, Self::enc(*self, false)),
}}}

== TdmsStorageType::write_be
ret r
spec {{{
    ensures writes(*old(writer), *final(writer), r is Ok, Self::enc(*self, true)),
}}}

== TdmsStorageType::size
ret r
spec {{{
    ensures
        Self::enc(*self, false).len() <= usize::MAX ==> r == Self::enc(*self, false).len(),
}}}

== TdmsStorageType::supports_data_type
ret r
shim contains vs_contains
spec {{{
    ensures r == Self::SUPPORTED_TYPES@.contains(*data_type),
}}}

== TdmsReader::buffered_reader
ret r
spec {{{
    ensures
        contents(*r) == old(self).bytes(),
        spos(*r) == old(self).pos(),
        healthy(*r) == old(self).good(),
        contents(*final(r)) == final(self).bytes(),
        spos(*final(r)) == final(self).pos(),
        healthy(*final(r)) == final(self).good(),
}}}

== <LittleEndianReader as TdmsReader>::from_reader
== <LittleEndianReader as TdmsReader>::read_value
== <LittleEndianReader as TdmsReader>::buffered_reader
== <BigEndianReader as TdmsReader>::from_reader
== <BigEndianReader as TdmsReader>::read_value
== <BigEndianReader as TdmsReader>::buffered_reader

== TdmsReader
extra {{{
    spec fn bytes(&self) -> Seq<u8>;
    spec fn pos(&self) -> int;
    spec fn good(&self) -> bool;
    spec fn big() -> bool;
    /// LAW: memory does not run out while all goes well.
    proof fn law_good(&self) ensures self.good() ==> enough_memory();
}}}

== TdmsReader::from_reader
ret r
spec {{{
    ensures
        r.bytes() == contents(reader),
        r.good() == healthy(reader),
        r.pos() == spos(reader),
        readonly(reader),
}}}

== TdmsReader::read_value
ret r
spec {{{
    ensures
        final(self).bytes() == old(self).bytes(),
        final(self).good() == old(self).good(),
        0 <= old(self).pos() <= old(self).bytes().len() ==> match T::parse(old(self).bytes().skip(old(self).pos()), Self::big()) {
            Some((v, n)) => {
                &&& old(self).good() ==> r is Ok
                &&& r is Ok ==> r->Ok_0 == v && final(self).pos() == old(self).pos() + n
            },
            None => r is Err,
        },
        old(self).pos() > old(self).bytes().len() ==> r is Err,
        r is Err ==> !(r->Err_0 is EndOfFile),
}}}

== TdmsReader::to_file_position
ret r
shim seek vs_seek
spec {{{
    ensures
        final(self).bytes() == old(self).bytes(),
        final(self).good() == old(self).good(),
        old(self).good() && position <= old(self).bytes().len() ==> r is Ok,
        r is Ok ==> final(self).pos() == position,
}}}

== TdmsReader::move_position
ret r
shim seek_relative vs_seek_relative
spec {{{
    ensures
        final(self).bytes() == old(self).bytes(),
        final(self).good() == old(self).good(),
        old(self).good() && 0 <= old(self).pos() + offset <= old(self).bytes().len() ==> r is Ok,
        r is Ok ==> final(self).pos() == old(self).pos() + offset,
}}}
