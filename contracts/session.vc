# a session which writes
== <RawDataIndex as From<DataFormat>>::from
free vs_index_from
ret r
spec {{{
    ensures value == DataFormat::RawData(r->RawData_0), r is RawData,
}}}

== Index::check_write_values
ret r
eq vs_eq
shim zip vs_zip
shim fold vs_fold
shim map vs_map
shim collect vs_collect
shim into vs_index_from
spec {{{
    ensures
        r.0 == live_is(known(*self), names_in(objects@)),
        r.1@.len() == objects@.len(),
        forall|i: int| 0 <= i < objects@.len() ==> (#[trigger] r.1@[i]).0@ == objects@[i].0@ && r.1@[i].1 == index_for(known(*self), objects@[i].0@, objects@[i].1->RawData_0),
}}}
at entry {{{
        let ghost k = known(*self);
        let ghost given = objects@;
        proof { lemma_names_known(*self); }
}}}
recv fold 0 z {{{
                proof { assert forall|i: int| 0 <= i < IteratorSpec::remaining(&z).len() implies *IteratorSpec::remaining(&z)[i].0 == #[trigger] self.active_objects@[i] && *IteratorSpec::remaining(&z)[i].1 == given[i] by { } }
                proof { assert forall|i: int| 0 <= i < IteratorSpec::remaining(&z).len() implies *(#[trigger] IteratorSpec::remaining(&z)[i]).0 == self.active_objects@[i] && *IteratorSpec::remaining(&z)[i].1 == given[i] && k.live[i]@ == self.active_objects@[i].path@ by { } }
}}}
at after and_then {{{
                proof { lemma_found(*self, path, found_format); }
}}}
at tail {{{
        proof {
            let names = names_in(given);
            assert(names.len() == given.len());
            assert forall|i: int| 0 <= i < names.len() implies #[trigger] names[i] == given[i].0@ by { }
            assert forall|i: int| 0 <= i < names.len() && names.len() == k.live.len() implies (#[trigger] k.live[i])@ == self.active_objects@[i].path@ by { }
        }
}}}
closure 0 {{{ -> (r: bool) ensures r == (matches && vp0_1.0.path@ == vp0_1.1.0@) }}}
closure 1 {{{ -> (r: (&'b str, RawDataIndex)) ensures r.0 == vp1_0.0, r.1 == index_for(known(*self), vp1_0.0@, vp1_0.1->RawData_0) }}}
closure 2 {{{ -> (r: Option<&DataFormat>) ensures r == match object_data.latest_data_format { Some(f) => Some(&f), None => None } }}}

== DataStreamWriter::new
ret r
swap DataFormat::RawData => |m: RawDataMeta| -> (r: DataFormat) ensures r == DataFormat::RawData(m) { DataFormat::RawData(m) }
shim as_ref vs_as_channel
shim map vs_map
shim zip vs_zip
shim collect vs_collect
shim all vs_all
shim default vs_no_toc
shim to_string vs_to_string
shim write_segment vs_write_segment
spec {{{
    requires
        !refused::<D>(names_of(channels@), values@) ==> write_fits::<D>(known(*old(index)), names_of(channels@), values@),
    ensures
        refused::<D>(names_of(channels@), values@) ==> r is Err && final(writer).out() == old(writer).out() && final(writer).takes() == old(writer).takes(),
        !refused::<D>(names_of(channels@), values@) && r is Err ==> wrote(old(writer).out(), final(writer).out(), old(writer).takes(), final(writer).takes(), false, seg_enc(write_segment_of::<D>(known(*old(index)), names_of(channels@), values@, layout, W::BIG_ENDIAN_FLAG), data_of::<D>(values@, W::BIG_ENDIAN_FLAG))),
        r is Err ==> *final(index) == *old(index),
        r is Ok ==> {
            &&& wrote(old(writer).out(), r->Ok_0.writer.out(), old(writer).takes(), r->Ok_0.writer.takes(), true, seg_enc(write_segment_of::<D>(known(*old(index)), names_of(channels@), values@, layout, W::BIG_ENDIAN_FLAG), data_of::<D>(values@, W::BIG_ENDIAN_FLAG)))
            &&& *r->Ok_0.index == *old(index)
            &&& *final(index) == *final(r->Ok_0.index)
            &&& *final(writer) == *final(r->Ok_0.writer)
            &&& r->Ok_0.segment == write_segment_of::<D>(known(*old(index)), names_of(channels@), values@, layout, W::BIG_ENDIAN_FLAG)
        },
}}}
at entry {{{
        let ghost k = known(*index);
        let ghost names = names_of(channels@);
        let ghost f = of_samples::<D>(values@.len() as int / names.len() as int);
        proof { assert(channels.len() == channels@.len()); assert(values.len() == values@.len()); }
}}}
closure 0 {{{ -> (r: &'b str) ensures r@ == chars_of(*path) }}}
closure 1 {{{ -> (r: bool) ensures r == (vp1_0.1 is MatchPrevious) }}}
closure 2 {{{ -> (r: ObjectMetaData) ensures r.path@ == vp2_0.0@, r.properties@.len() == 0, r.raw_data_index == vp2_0.1 }}}
at after collect 0 {{{
        let ghost given = channels@;
        proof {
            assert(given.len() == names.len());
            assert forall|i: int| 0 <= i < names.len() implies (#[trigger] given[i]).0@ == names[i] && given[i].1 == DataFormat::RawData(f) by { }
            assert(names_in(given) =~= names);
        }
}}}
at after check_write_values {{{
        let ghost ch = channels@;
        proof {
            assert forall|i: int| 0 <= i < names.len() implies (#[trigger] ch[i]).0@ == names[i] && ch[i].1 == index_for(k, names[i], f) by { assert(given[i].0@ == names[i]); }
        }
}}}
recv all 0 z {{{
                proof { assert forall|i: int| 0 <= i < ch.len() implies *IteratorSpec::remaining(&z)[i] == #[trigger] ch[i] by { } }
}}}
at after all {{{
        proof {
            assert(formats_match == all_match(k, names, f)) by {
                if formats_match {
                    assert forall|i: int| 0 <= i < names.len() implies index_for(k, #[trigger] names[i], f) is MatchPrevious by { assert(ch[i].0@ == names[i]); }
                }
            }
        }
}}}
at after collect 1 {{{
            proof { lemma_write_entries(k, names, f, ch, objects); }
}}}
at before write_segment {{{
        proof {
            D::law_stored(values@[0], Seq::empty(), false);
            assert(meta == write_meta(k, names, f));
            assert(toc == write_toc(k, names, layout));
        }
}}}

== DataStreamWriter::end_stream
ret r
spec {{{
    requires live_ok(old(self.index).active_objects@, old(self.index).objects@),
    ensures
        *final(self.writer) == *old(self.writer),
        r is Ok <==> segment_ok(known(*old(self.index)), self.segment),
        r is Ok ==> known(*final(self.index)) == with_segment(known(*old(self.index)), self.segment) && live_ok(final(self.index).active_objects@, final(self.index).objects@),
}}}

== TdmsFileWriter::new
ret r
spec {{{
    ensures
        *r.index == *old(index),
        *final(index) == *final(r.index),
        r.writer == writer,
}}}

== TdmsFileWriter::write_channels
ret r
spec {{{
    requires
        live_ok(old(self).index.active_objects@, old(self).index.objects@),
        !refused::<D>(names_of(channels@), values@) ==> write_fits::<D>(known(*old(self).index), names_of(channels@), values@),
    ensures
        *final(final(self).index) == *final(old(self).index),
        refused::<D>(names_of(channels@), values@) ==> r is Err && *final(self).index == *old(self).index && final(self).writer.out() == old(self).writer.out() && final(self).writer.takes() == old(self).writer.takes(),
        !refused::<D>(names_of(channels@), values@) ==> ({
            let k = known(*old(self).index);
            let seg = write_segment_of::<D>(k, names_of(channels@), values@, layout, W::BIG_ENDIAN_FLAG);
            let bytes = seg_enc(seg, data_of::<D>(values@, W::BIG_ENDIAN_FLAG));
            &&& wrote(old(self).writer.out(), final(self).writer.out(), old(self).writer.takes(), final(self).writer.takes(), r is Ok || !segment_ok(k, seg), bytes) || (r is Err && wrote(old(self).writer.out(), final(self).writer.out(), old(self).writer.takes(), final(self).writer.takes(), false, bytes))
            &&& r is Ok ==> segment_ok(k, seg) && known(*final(self).index) == with_segment(k, seg) && live_ok(final(self).index.active_objects@, final(self).index.objects@)
            &&& r is Err && segment_ok(k, seg) ==> *final(self).index == *old(self).index
        }),
}}}

== TdmsFileWriter::write_properties
ret r
shim map vs_map
shim collect vs_collect
shim to_string vs_to_string
shim clone .vs_clone
shim default vs_no_toc
shim write_segment &vs_write_segment
spec {{{
    requires
        live_ok(old(self).index.active_objects@, old(self).index.objects@),
        meta_enc(Some(props_meta(ppath(*path), properties@)), false).len() <= usize::MAX,
    ensures
        *final(final(self).index) == *final(old(self).index),
        ({
            let k = known(*old(self).index);
            let seg = props_segment(ppath(*path), properties@, W::BIG_ENDIAN_FLAG);
            let bytes = seg_enc(seg, Seq::empty());
            &&& wrote(old(self).writer.out(), final(self).writer.out(), old(self).writer.takes(), final(self).writer.takes(), r is Ok || !segment_ok(k, seg), bytes) || (r is Err && wrote(old(self).writer.out(), final(self).writer.out(), old(self).writer.takes(), final(self).writer.takes(), false, bytes))
            &&& r is Ok ==> segment_ok(k, seg) && known(*final(self).index) == with_segment(k, seg) && live_ok(final(self).index.active_objects@, final(self).index.objects@)
            &&& r is Err && segment_ok(k, seg) ==> *final(self).index == *old(self).index
        }),
}}}
closure 0 {{{ -> (r: (String, PropertyValue)) ensures r.0@ == vp0_0.0@, r.1 == vp0_0.1 }}}
at before write_segment {{{
        proof { lemma_props_meta(path, vs_given, meta); }
}}}
at entry {{{
        let ghost vs_given = properties@;
}}}

== TdmsFileWriter::sync
ret r
spec {{{
    ensures
        *final(final(self).index) == *final(old(self).index),
        *final(self).index == *old(self).index,
        final(self).writer.out() == old(self).writer.out(),
        final(self).writer.takes() == old(self).writer.takes(),
        old(self).writer.takes() ==> r is Ok,
        r is Ok ==> final(self).writer.landed() == final(self).writer.out(),
}}}

== TdmsFile::writer
ret r
shim seek &vs_seek_file
at entry {{{
        broadcast use {stream_axioms::axiom_written_stream, stream_axioms::axiom_accepting_stream};
}}}
spec {{{
    ensures
        healthy(old(self).file) && old(self).index.next_segment_start <= contents(old(self).file).len() ==> r is Ok,
        r is Ok ==> {
            &&& *r->Ok_0.index == old(self).index
            &&& final(self).index == *final(r->Ok_0.index)
            &&& r->Ok_0.writer.takes() == accepts(old(self).file)
            &&& old(self).index.next_segment_start <= contents(old(self).file).len() ==> r->Ok_0.writer.out() == contents(old(self).file).take(old(self).index.next_segment_start as int)
        },
        r is Err ==> final(self).index == old(self).index && contents(final(self).file) == contents(old(self).file),
}}}
