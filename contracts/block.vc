== ChunkSize::combine
ret r
spec {{{
    ensures ({
        let a = match *old(self) { ChunkSize::Fixed(x) => x, ChunkSize::Variable(x) => x };
        let b = match rhs { ChunkSize::Fixed(x) => x, ChunkSize::Variable(x) => x };
        &&& r is Ok <==> a + b <= u64::MAX
        &&& r is Ok ==> *final(self) == if *old(self) is Variable || rhs is Variable { ChunkSize::Variable((a + b) as u64) } else { ChunkSize::Fixed((a + b) as u64) }
    }),
}}}

== DataBlock::from_segment
ret r
spec {{{
    ensures
        r is Ok ==> {
            let b = r->Ok_0;
            &&& b.start == segment_start + 28 + segment.raw_data_offset
            &&& b.length@ == segment.next_segment_offset - segment.raw_data_offset
            &&& b.start + b.length@ <= i64::MAX
            &&& b.layout == if segment.toc.data_is_interleaved { DataLayout::Interleaved } else { DataLayout::Contigious }
            &&& b.byte_order == if segment.toc.big_endian { Endianess::Big } else { Endianess::Little }
            &&& b.channels == active_channels_meta
            &&& b.channels@.len() > 0
        },
        r is Ok <==> segment.raw_data_offset < segment.next_segment_offset && active_channels_meta@.len() > 0 && segment_start + 28 + segment.next_segment_offset <= i64::MAX,
}}}
closure 0 {{{ -> (r: Option<u64>) ensures r == if offset + segment_start <= u64::MAX { Some((offset + segment_start) as u64) } else { None } }}}

== DataBlock::chunk_size
ret r
spec {{{
    ensures
        r is Ok <==> bytes_of(self.channels@, self.channels@.len() as int) <= u64::MAX,
        r is Ok ==> r->Ok_0 == chunk_of(self.channels@),
}}}
at entry {{{
    let ghost cs = self.channels@;
    let ghost n = cs.len() as int;
}}}
loop 0 native it {{{
        invariant
            cs == self.channels@,
            n == cs.len(),
            it.seq().len() == n,
            forall|i: int| 0 <= i < n ==> *#[trigger] it.seq()[i] == cs[i],
            0 <= bytes_of(cs, it.index@) <= u64::MAX,
            size == if any_var(cs, it.index@) { ChunkSize::Variable(bytes_of(cs, it.index@) as u64) } else { ChunkSize::Fixed(bytes_of(cs, it.index@) as u64) },
}}}
at loop 0 body {{{
            let ghost k = it.index@;
            proof {
                assert(*channel == cs[k]);
                lemma_bytes_of(cs, k, k + 1);
                lemma_bytes_of(cs, k + 1, n);
                lemma_ch_bytes(cs[k]);
                assert(any_var(cs, k + 1) == (any_var(cs, k) || is_var(cs[k])));
            }
}}}

== DataBlock::number_of_chunks
ret r
spec {{{
    ensures
        r is Ok <==> bytes_of(self.channels@, self.channels@.len() as int) <= u64::MAX,
        r is Ok ==> r->Ok_0 == chunks_of(*self),
}}}
at entry {{{ proof { lemma_bytes_of(self.channels@, 0, self.channels@.len() as int); } }}}

== DataBlock::read
ret r
spec {{{
    requires
        block_ok(*self),
        bytes_of(self.channels@, self.channels@.len() as int) > 0,
        outs_ok(old(channels_to_read)@, self.channels@.len() as int),
        outs_fed(self.channels@, old(channels_to_read)@),
    ensures
        contents(*final(reader)) == contents(*old(reader)),
        healthy(*final(reader)) == healthy(*old(reader)),
        r is Ok ==> final(channels_to_read)@.len() == old(channels_to_read)@.len(),
        (forall|k: int| 0 <= k < old(channels_to_read)@.len() ==> types_match::<D>(self.channels@[(#[trigger] old(channels_to_read)@[k]).0 as int])) && healthy(*old(reader)) && self.start + self.length@ <= contents(*old(reader)).len() ==> r is Ok,
        r is Ok ==> forall|k: int| 0 <= k < old(channels_to_read)@.len() ==> {
            &&& types_match::<D>(self.channels@[(#[trigger] old(channels_to_read)@[k]).0 as int])
            &&& out_read(*self, contents(*old(reader)), 0, old(channels_to_read)@[k], final(channels_to_read)@[k])
        },
}}}
at entry {{{
    let ghost o0 = channels_to_read@;
    let ghost o9 = final(channels_to_read)@;
    let ghost by = contents(*reader);
    proof { axiom_borrowed_stream(Ghost(reader)); }
}}}
at tail {{{
    proof { lemma_built(*self, record_plan.0@, o0, o9); }
    let ghost es = record_plan.0@;
}}}
at ret {{{
    proof {
        if vs_ret is Ok {
            assert forall|k: int| 0 <= k < o0.len() implies out_read(*self, by, 0, #[trigger] o0[k], o9[k]) by {
                lemma_out_read(*self, es, es, o0, o9, 0, k, by);
            }
        }
    }
}}}

== DataBlock::read_with_per_channel_skip
ret r
spec {{{
    requires
        block_ok(*self),
        bytes_of(self.channels@, self.channels@.len() as int) > 0,
        cfgs_ok(old(channels_to_read)@, self.channels@.len() as int),
        cfgs_fed(self.channels@, old(channels_to_read)@),
    ensures
        contents(*final(reader)) == contents(*old(reader)),
        healthy(*final(reader)) == healthy(*old(reader)),
        r is Ok ==> final(channels_to_read)@.len() == old(channels_to_read)@.len(),
        (forall|k: int| 0 <= k < old(channels_to_read)@.len() ==> types_match::<D>(self.channels@[(#[trigger] old(channels_to_read)@[k]).channel_index as int])) && healthy(*old(reader)) && self.start + self.length@ <= contents(*old(reader)).len() ==> r is Ok,
        r is Ok ==> forall|k: int| 0 <= k < old(channels_to_read)@.len() ==> {
            &&& types_match::<D>(self.channels@[(#[trigger] old(channels_to_read)@[k]).channel_index as int])
            &&& cfg_read(*self, contents(*old(reader)), old(channels_to_read)@[k], final(channels_to_read)@[k])
        },
}}}
shim map vs_map
shim collect vs_collect
rangefn 0
closure 0 {{{ -> (r: (usize, u64)) ensures r == (vp0_0.channel_index, vp0_0.samples_to_skip) }}}
closure 1 {{{ -> (r: (usize, &mut [D])) ensures cfg_ref(*old(vp1_0), *final(vp1_0), r) }}}
at entry {{{
    let ghost c0 = channels_to_read@;
    let ghost c9 = final(channels_to_read)@;
    let ghost by = contents(*reader);
    proof { axiom_borrowed_stream(Ghost(reader)); }
}}}
at before build_record_plan 0 {{{
        let ghost o0 = channel_refs@;
        assert(cfg_refs(c0, c9, o0));
        proof { assert forall|k: int| 0 <= k < o0.len() && (#[trigger] o0[k]).1@.len() > 0 implies self.channels@[o0[k].0 as int].number_of_values >= 1 by { assert(cfg_ref(c0[k], c9[k], o0[k])); assert(c0[k].output@.len() > 0); } }
}}}
at loop 0 before {{{
        let ghost es = record_plan.0@;
        let ghost o9 = after_borrow(channel_refs)@;
        proof { lemma_built(*self, es, o0, o9); assert forall|k: int| 0 <= k < c0.len() implies is_read(es[(#[trigger] c0[k]).channel_index as int]) by { assert(cfg_ref(c0[k], c9[k], o0[k])); assert(reads_into(es[o0[k].0 as int], o0[k], o9[k])); } }
}}}
loop 0 native it {{{
        invariant
            it.seq().len() == c0.len(),
            cfgs_ok(c0, es.len() as int),
            forall|k: int| 0 <= k < c0.len() ==> is_read(es[(#[trigger] c0[k]).channel_index as int]),
            forall|k: int| 0 <= k < c0.len() ==> #[trigger] it.seq()[k] == (c0[k].channel_index, c0[k].samples_to_skip),
            same_shape(es, record_plan.0@),
            forall|k: int| 0 <= k < it.index@ ==> eskip(record_plan.0@[(#[trigger] c0[k]).channel_index as int]) == c0[k].samples_to_skip,
}}}
at loop 0 body {{{
            let ghost p1 = record_plan.0@;
            let ghost k0 = it.index@;
            proof { assert(it.seq()[k0] == (c0[k0].channel_index, c0[k0].samples_to_skip)); }
}}}
at loop 0 end {{{
            proof {
                assert forall|k: int| 0 <= k < k0 + 1 implies eskip(record_plan.0@[(#[trigger] c0[k]).channel_index as int]) == c0[k].samples_to_skip by {
                    if k < k0 { assert(c0[k].channel_index != c0[k0].channel_index); }
                }
            }
}}}
at loop 0 after {{{
        let ghost es2 = record_plan.0@;
        proof { lemma_shape_ok(*self, es, es2); }
}}}
at ret {{{
        proof {
            if vs_ret is Ok {
                assert forall|k: int| 0 <= k < c0.len() implies types_match::<D>(self.channels@[(#[trigger] c0[k]).channel_index as int]) && cfg_read(*self, by, c0[k], c9[k]) by {
                    assert(cfg_ref(c0[k], c9[k], o0[k]));
                    assert(reads_into(es[o0[k].0 as int], o0[k], o9[k]));
                    lemma_out_read(*self, es, es2, o0, o9, c0[k].samples_to_skip as int, k, by);
                    assert(has_resolved(o9[k]));
                    assert(has_resolved(o9[k].1));
                }
            }
        }
}}}
