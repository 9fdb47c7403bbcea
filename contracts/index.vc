== DataFormat::from_index
ret r
spec {{{
    ensures r == match *index { RawDataIndex::RawData(m) => Some(DataFormat::RawData(m)), _ => None },
}}}
shim clone .vs_clone

== ObjectData::from_metadata
ret r
spec {{{
    ensures
        r is Ok <==> update_ok(fresh(), *meta),
        r is Ok ==> r->Ok_0.path == meta.path && obj_view(r->Ok_0) == updated(fresh(), *meta),
}}}

== ObjectData::update
ret r
spec {{{
    ensures
        r is Ok <==> update_ok(obj_view(*old(self)), *other),
        final(self).path == old(self).path,
        r is Ok ==> obj_view(*final(self)) == updated(obj_view(*old(self)), *other),
}}}
shim clone .vs_clone
at entry {{{
        let ghost props = self.properties@;
        let ghost o0 = *self;
}}}
loop 0 native it {{{
        invariant
            it.seq().len() == other.properties@.len(),
            forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == other.properties@[i],
            self.properties@ == set_props(props, other.properties@, it.index@),
            self.path == o0.path,
            self.data_locations == o0.data_locations,
            self.latest_data_format == o0.latest_data_format,
            props == o0.properties@,
}}}

== ObjectData::add_data_location
spec {{{
    ensures
        final(self).path == old(self).path,
        obj_view(*final(self)) == (Obj { locs: old(self).data_locations@.push(location), ..obj_view(*old(self)) }),
        final(self).latest_data_format == old(self).latest_data_format,
}}}

== ActiveObject::new
ret r
spec {{{
    ensures r.path@ == path@, r.number_of_samples == format->RawData_0.number_of_values,
}}}

== ActiveObject::update
spec {{{
    ensures
        final(self).path == old(self).path,
        final(self).number_of_samples == match meta.raw_data_index { RawDataIndex::RawData(r) => r.number_of_values, _ => old(self).number_of_samples },
}}}

== ActiveObject::get_object_data
ret r
spec {{{
    requires index@.contains_key(self.path),
    ensures *r == index@[self.path],
}}}

== ActiveObject::get_object_data_mut
ret r
spec {{{
    requires old(index)@.contains_key(self.path),
    ensures
        *r == old(index)@[self.path],
        final(index)@ == old(index)@.insert(self.path, *final(r)),
}}}

== Index::channel_format
ret r
spec {{{
    ensures match r {
        Some(f) => object_at(*self, path@) is Some && object_at(*self, path@)->Some_0.latest_data_format == Some(*f),
        None => object_at(*self, path@) is None || object_at(*self, path@)->Some_0.latest_data_format is None,
    },
}}}
closure 0 {{{ -> (r: Option<&DataFormat>) ensures match r { Some(f) => object.latest_data_format == Some(*f), None => object.latest_data_format is None } }}}

== Index::update_meta_object
ret r
spec {{{
    ensures
        r is Ok <==> entry_ok_in(known(*old(self)), *object),
        r is Ok && object.raw_data_index is None ==> known(*final(self)) == with_entry(known(*old(self)), *object),
        r is Ok && object.raw_data_index is None && live_ok(old(self).active_objects@, old(self).objects@) ==> live_ok(final(self).active_objects@, final(self).objects@),
        r is Ok ==> objs_view(final(self).objects@) == objs_view(old(self).objects@).insert(object.path, updated(obj_of(objs_view(old(self).objects@), object.path), *object)),
        final(self).active_objects == old(self).active_objects,
        final(self).data_blocks == old(self).data_blocks,
        final(self).next_segment_start == old(self).next_segment_start,
}}}
shim clone .vs_clone
at entry {{{
        let ghost m0 = self.objects@;
        let ghost p = object.path;
        proof { lemma_known_obj(m0, p); }
}}}
at ret {{{
        proof {
            lemma_objs_insert(m0, p, self.objects@[p]);
            if vs_ret is Ok && object.raw_data_index is None && live_ok(self.active_objects@, m0) {
                assert forall|i: int| 0 <= i < self.active_objects@.len() implies live_in(#[trigger] self.active_objects@[i], self.objects@) by {
                    lemma_entry_live(self.active_objects@, m0, self.objects@, *object, i);
                }
            }
        }
}}}

== Index::deactivate_all_objects
spec {{{
    ensures
        final(self).active_objects@ == Seq::<ActiveObject>::empty(),
        known(*final(self)) == (Known { live: Seq::empty(), ..known(*old(self)) }),
        live_ok(final(self).active_objects@, final(self).objects@),
        final(self).objects == old(self).objects,
        final(self).data_blocks == old(self).data_blocks,
        final(self).next_segment_start == old(self).next_segment_start,
}}}
at exit {{{
        proof { assert(known(*self).live =~= Seq::<String>::empty()); }
}}}

== Index::update_or_activate_data_object
ret r
spec {{{
    requires
        live_ok(old(self).active_objects@, old(self).objects@),
        !(object.raw_data_index is None),
    ensures
        r is Ok <==> entry_ok_in(known(*old(self)), *object),
        r is Ok ==> known(*final(self)) == with_entry(known(*old(self)), *object) && live_ok(final(self).active_objects@, final(self).objects@),
        final(self).data_blocks == old(self).data_blocks,
        final(self).next_segment_start == old(self).next_segment_start,
}}}
shim find vs_find_mut
closure 0 {{{ -> (r: bool) ensures r == has_path(*active_object, object.path) }}}
at entry {{{
        let ghost a0 = self.active_objects@;
        let ghost m0 = self.objects@;
        let ghost p = object.path;
        let ghost k0 = known(*self);
        proof { lemma_known_obj(m0, p); }
}}}
recv find 0 vs_it {{{
            proof {
                assert forall|i: int| 0 <= i < a0.len() implies *IteratorSpec::remaining(&vs_it)[i] == #[trigger] a0[i] by { }
                assert forall|i: int| 0 <= i < a0.len() implies *final(IteratorSpec::remaining(&vs_it)[i]) == #[trigger] after_borrow(self.active_objects)@[i] by { }
                assert(IteratorSpec::remaining(&vs_it).len() == a0.len());
            }
}}}
at after find 0 {{{
        proof {
            if matching_active is Some {
                assert(exists|k: int| (#[trigger] a0[k]).path == p && found_live(a0, after_borrow(self.active_objects)@, k, p, *matching_active->Some_0, *final(matching_active->Some_0)));
            } else {
                assert(forall|i: int| 0 <= i < a0.len() ==> (#[trigger] a0[i]).path != p); assert(after_borrow(self.active_objects)@ =~= a0);
            }
        }
}}}
at after update_meta_object 0 {{{
                proof { lemma_updated_format(m0, self.objects@, *object); lemma_at_name(self.objects@, p); }
}}}
at ret {{{
        proof {
            lemma_objs_insert(m0, p, self.objects@[p]);
            if vs_ret is Ok {
                let a = self.active_objects@;
                lemma_updated_format(m0, self.objects@, *object);
                assert forall|i: int| 0 <= i < a0.len() && a0[i].path != p implies live_in(#[trigger] a0[i], self.objects@) by {
                    lemma_entry_live(a0, m0, self.objects@, *object, i);
                }
                if k0.live.contains(p) {
                    let i = choose|i: int| 0 <= i < k0.live.len() && k0.live[i] == p;
                    assert(a0[i].path == p);
                    assert(a.len() == a0.len());
                    assert(a[i].path == p);
                    assert(forall|j: int| 0 <= j < a0.len() && j != i ==> #[trigger] a[j] == a0[j]);
                    assert(live_in(a[i], self.objects@));
                    assert(known(*self).live =~= k0.live);
                } else {
                    assert forall|i: int| 0 <= i < a0.len() implies (#[trigger] a0[i]).path != p by { assert(k0.live[i] == a0[i].path); }
                    assert(known(*self).live =~= k0.live.push(p));
                }
            }
        }
}}}

== Index::get_active_raw_data_meta
ret r
spec {{{
    requires live_ok(self.active_objects@, self.objects@),
    ensures r@ == live_formats(known(*self)),
}}}
shim map vs_map
shim collect vs_collect
shim clone .vs_clone
closure 0 {{{ -> (r: DataFormat) requires live_in(*ao, self.objects@) ensures r == self.objects@[ao.path].latest_data_format->Some_0 }}}
closure 1 {{{ -> (r: RawDataMeta) ensures format == DataFormat::RawData(r) }}}

== Index::insert_data_block
ret r
spec {{{
    requires
        live_ok(old(self).active_objects@, old(self).objects@),
        block.channels@ == live_formats(known(*old(self))),
    ensures
        r is Ok <==> bytes_of(block.channels@, block.channels@.len() as int) <= u64::MAX && forall|i: int| 0 <= i < block.channels@.len() ==> chunks_of(block) * (#[trigger] block.channels@[i]).number_of_values <= u64::MAX,
        r is Ok ==> known(*final(self)) == with_block(known(*old(self)), block_view(block)) && live_ok(final(self).active_objects@, final(self).objects@),
        final(self).next_segment_start == old(self).next_segment_start,
}}}
shim enumerate vs_enumerate
at entry {{{
        let ghost k0 = known(*self);
        let ghost a0 = self.active_objects@;
        let ghost b0 = block;
        let ghost bv = block_view(block);
        let ghost m0 = self.objects@;
        proof { assert(self.active_objects.len() == a0.len()); lemma_live_formats(*self); assert(known(*self).blocks.len() == self.data_blocks.len()); }
}}}
at loop 0 body {{{
            let ghost i = it.index@;
            let ghost m1 = self.objects@;
            proof {
                assert(*it.seq()[i].1 == a0[i]);
                assert(live_in(a0[i], m1));
                lemma_known_obj(m1, a0[i].path);
                assert(bv.channels[i].number_of_values == a0[i].number_of_samples);
                assert(k0.live[i] == a0[i].path);
                assert(chunks_of(b0) * bv.channels[i].number_of_values == a0[i].number_of_samples * chunks) by (nonlinear_arith) requires chunks == chunks_of(b0), bv.channels[i].number_of_values == a0[i].number_of_samples;
            }
}}}
at loop 0 end {{{
            proof {
                let p = a0[i].path;
                lemma_objs_insert(m1, p, self.objects@[p]);
                assert(self.objects@ == m1.insert(p, self.objects@[p]));
                assert(obj_view(self.objects@[p]).locs == m1[p].data_locations@.push(new_loc(k0, bv, i)));
                lemma_live_kept(a0, m1, p, self.objects@[p]);
            }
}}}
at loop 0 after {{{
        proof { assert(self.active_objects@ =~= a0); assert(known(*self).live =~= k0.live); assert(known(*self).blocks =~= k0.blocks.push(bv)); }
}}}
loop 0 native it {{{
        invariant
            it.seq().len() == a0.len(),
            forall|c: int| 0 <= c < a0.len() ==> (#[trigger] it.seq()[c]).0 == c && *it.seq()[c].1 == a0[c],
            forall|c: int| 0 <= c < a0.len() ==> *final((#[trigger] it.seq()[c]).1) == after_borrow(self.active_objects)@[c],
            after_borrow(self.active_objects)@.len() == a0.len(),
            forall|c: int| 0 <= c < it.index@ ==> #[trigger] after_borrow(self.active_objects)@[c] == a0[c],
            objs_view(self.objects@) == placed(k0, bv, it.index@),
            live_ok(a0, self.objects@),
            forall|c: int| 0 <= c < a0.len() ==> (#[trigger] bv.channels[c]).number_of_values == a0[c].number_of_samples,
            k0.live.len() == a0.len(),
            data_index == k0.blocks.len(),
            chunks == chunks_of(b0),
            chunks_of(b0) == block_chunks(bv),
            k0.live == paths_of(a0),
            bv.channels == live_formats(k0),
            bv == block_view(b0),
            b0 == block,
            self.next_segment_start == old(self).next_segment_start,
            self.data_blocks@ == old(self).data_blocks@.push(b0),
            forall|c: int| 0 <= c < it.index@ ==> chunks_of(b0) * (#[trigger] bv.channels[c]).number_of_values <= u64::MAX,
}}}

== Segment::total_size_bytes
ret r
spec {{{
    ensures
        r is Ok <==> self.next_segment_offset + 28 <= u64::MAX,
        r is Ok ==> r->Ok_0 == self.next_segment_offset + 28,
}}}

== Index::add_segment
ret r
spec {{{
    requires live_ok(old(self).active_objects@, old(self).objects@),
    ensures
        r is Ok <==> segment_ok(known(*old(self)), segment),
        r is Ok ==> known(*final(self)) == with_segment(known(*old(self)), segment) && live_ok(final(self).active_objects@, final(self).objects@),
        r is Ok ==> r->Ok_0 == final(self).next_segment_start,
}}}
at entry {{{
        hide(known);
        hide(live_ok);
        hide(with_entry);
        hide(entry_ok_in);
        hide(with_block);
        let ghost k0 = known(*self);
        let ghost s0 = seg_start(k0, segment);
        let ghost ms = seg_entries(segment);
        proof { lemma_seg_start(k0, segment); lemma_known_next(*self); }
}}}
loop 0 native it {{{
        invariant
            it.seq().len() == ms.len(),
            forall|i: int| 0 <= i < ms.len() ==> *#[trigger] it.seq()[i] == ms[i],
            ms == seg_entries(segment),
            k0 == known(*old(self)),
            s0 == seg_start(k0, segment),
            known(*self) == with_entries(s0, ms, it.index@),
            entries_ok_in(s0, ms, it.index@),
            live_ok(self.active_objects@, self.objects@),
}}}
at loop 0 body {{{
                let ghost i = it.index@;
                proof { assert(*obj == ms[i]); lemma_entries_step(s0, ms, i); }
}}}
at after get_active_raw_data_meta 0 {{{
            let ghost k1 = known(*self);
            proof { lemma_known_next(*self); lemma_live_len(*self); }
}}}
at after from_segment 0 {{{
            let ghost b0 = data_block;
            proof { lemma_seg_block(k1, segment, b0); }
}}}
at before total_size_bytes 0 {{{
        let ghost x1 = *self;
        proof {
            lemma_known_next(*self);
            lemma_with_block_next(with_meta(k0, segment), segment);
            lemma_entries_next(s0, ms, ms.len() as int);
            assert(entries_ok_in(s0, ms, ms.len() as int));
            assert(known(*self) == with_data(with_meta(k0, segment), segment));
            assert(segment.toc.contains_raw_data ==> block_fine(seg_block(with_meta(k0, segment), segment)));
        }
}}}
at tail {{{
        proof { lemma_next_set(x1, *self); }
}}}
