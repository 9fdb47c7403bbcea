== RecordEntryPlan::entry_size_bytes
ret r
spec {{{
    requires ep_size(*self) >= 0,
    ensures r == Some(ep_size(*self) as usize),
}}}

== RecordPlan::row_size
ret r
spec {{{
    requires
        sizes_ok(self.0@),
        row_off(self.0@, self.0@.len() as int) <= usize::MAX,
    ensures r == row_off(self.0@, self.0@.len() as int),
}}}
shim map vs_map
shim sum vs_sum
at entry {{{ broadcast use lemma_row_sum; }}}
closure 0 {{{ -> (r: usize) requires 0 <= esize(*entry) ensures r == esize(*entry) }}}

== RecordPlan::block_size
ret r
spec {{{
    requires
        sizes_ok(self.0@),
        chunk_off(self.0@, self.0@.len() as int) <= usize::MAX,
    ensures r == chunk_off(self.0@, self.0@.len() as int),
}}}
shim map vs_map
shim sum vs_sum
at entry {{{
    broadcast use lemma_chunk_sum;
    proof {
        assert forall|i: int| 0 <= i < self.0@.len() implies 0 <= esize(#[trigger] self.0@[i]) * self.0@[i].length <= usize::MAX by {
            lemma_offs(self.0@, i, i + 1);
            lemma_offs(self.0@, i + 1, self.0@.len() as int);
        }
    }
}}}
closure 0 {{{ -> (r: usize) requires 0 <= esize(*entry) && esize(*entry) * entry.length <= usize::MAX ensures r == esize(*entry) * entry.length }}}

== RecordPlan::read_instructions
ret r
spec {{{
    ensures
        r@ == old(self).0@,
        final(self).0@ == final(r)@,
}}}
vecrange 0

== RecordPlan::block_skips
ret r
spec {{{
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::remaining(&r) == skips(self.0@),
}}}
shim filter_map vs_skips
closure 0 {{{ -> (r: Option<u64>) ensures r == skip_of(*entry) }}}

== RecordPlan::block_skips_mut
ret r
spec {{{
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::decrease(&r) is Some,
        skips_mut(old(self).0@, final(self).0@, IteratorSpec::remaining(&r)),
}}}
shim filter_map vs_skips_mut
closure 0 {{{ -> (r: Option<&mut u64>) ensures skip_mut_of(*old(entry), *final(entry), r) }}}

== RecordPlan::set_block_skip
spec {{{
    requires channel_index < old(self).0@.len(),
    ensures final(self).0@ == (if is_read(old(self).0@[channel_index as int]) {
        old(self).0@.update(channel_index as int, with_skip(old(self).0@[channel_index as int], samples_to_skip))
    } else { old(self).0@ }),
}}}

== RecordPlan::outputs_complete
ret r
spec {{{
    ensures r == (forall|e: int| 0 <= e < self.0@.len() ==> rem(#[trigger] self.0@[e]).len() == 0),
}}}
closure 0 {{{ -> (r: bool) ensures r == (rem(*entry).len() == 0) }}}
recv all 0 vs_it {{{
    proof { assert forall|i: int| 0 <= i < self.0@.len() implies *IteratorSpec::remaining(&vs_it)[i] == #[trigger] self.0@[i] by { } }
}}}

== RecordPlan::build_base_record
ret r
spec {{{
    ensures base_plan(channels@, r.0@),
}}}
loop 0 native it {{{
        invariant
            it.seq().len() == channels@.len(),
            forall|i: int| 0 <= i < channels@.len() ==> *#[trigger] it.seq()[i] == channels@[i],
            plan@.len() == it.index@,
            forall|i: int| 0 <= i < plan@.len() ==> base_entry(channels@[i], #[trigger] plan@[i]),
}}}

== RecordPlan::set_readable_records
spec {{{
    requires outs_ok(old(outputs)@, old(self).0@.len() as int),
    ensures
        final(outputs)@.len() == old(outputs)@.len(),
        plan_set_to(old(self).0@, final(self).0@, old(outputs)@, final(outputs)@, old(outputs)@.len() as int),
}}}
at entry {{{
    let ghost p0 = self.0@;
    let ghost o0 = outputs@;
    let ghost o9 = final(outputs)@;
}}}
loop 0 native it .iter_mut() {{{
        invariant
            outs_ok(o0, p0.len() as int),
            it.seq().len() == o0.len(),
            o9.len() == o0.len(),
            forall|k: int| 0 <= k < o0.len() ==> *#[trigger] it.seq()[k] == o0[k] && *final(it.seq()[k]) == o9[k],
            plan_set_to(p0, self.0@, o0, o9, it.index@),
}}}
at loop 0 body {{{
        let ghost p1 = self.0@;
        let ghost k = it.index@;
        proof { assert(*output == o0[k]); }
}}}
at loop 0 end {{{
        proof {
            assert forall|j: int| 0 <= j < k + 1 implies reads_into(self.0@[(#[trigger] o0[j]).0 as int], o0[j], o9[j]) by {
                if j < k { assert(o0[j].0 != o0[k].0); }
            }
            assert forall|i: int| 0 <= i < self.0@.len() && !picked(o0, i, k + 1) implies #[trigger] self.0@[i] == p0[i] by {
                assert(o0[k].0 != i);
                if picked(o0, i, k) { let j = choose|j: int| 0 <= j < k && (#[trigger] o0[j]).0 == i; assert(o0[j].0 == i); assert(picked(o0, i, k + 1)); }
                assert(self.0@[i] == p1[i]);
            }
        }
}}}

== RecordPlan::compress_reads
spec {{{
    ensures final(self).0@ == old(self).0@,
}}}

== validate_types_match
shim contains vs_contains
ret r
spec {{{
    requires forall|k: int| 0 <= k < outputs@.len() ==> (#[trigger] outputs@[k]).0 < channels@.len(),
    ensures
        r is Ok ==> forall|k: int| 0 <= k < outputs@.len() ==> types_match::<T>(channels@[(#[trigger] outputs@[k]).0 as int]),
        (forall|k: int| 0 <= k < outputs@.len() ==> types_match::<T>(channels@[(#[trigger] outputs@[k]).0 as int])) ==> r is Ok,
}}}
loop 0 native it {{{
        invariant
            it.seq().len() == outputs@.len(),
            forall|i: int| 0 <= i < outputs@.len() ==> *#[trigger] it.seq()[i] == outputs@[i],
            forall|k: int| 0 <= k < outputs@.len() ==> (#[trigger] outputs@[k]).0 < channels@.len(),
            forall|k: int| 0 <= k < it.index@ ==> types_match::<T>(channels@[(#[trigger] outputs@[k]).0 as int]),
}}}

== RecordPlan::build_record_plan
ret r
spec {{{
    requires outs_ok(old(outputs)@, channels@.len() as int),
    ensures
        r is Ok ==> built(channels@, r->Ok_0.0@, old(outputs)@, final(outputs)@),
        (forall|k: int| 0 <= k < old(outputs)@.len() ==> types_match::<T>(channels@[(#[trigger] old(outputs)@[k]).0 as int])) ==> r is Ok,
}}}
at entry {{{
    let ghost o0 = outputs@;
    let ghost o9 = final(outputs)@;
}}}
at tail {{{
    proof {
        let es = plan.0@;
        assert forall|i: int| 0 <= i < es.len() implies (#[trigger] es[i]).length == channels@[i].number_of_values as usize && esize(es[i]) == dt_size(channels@[i].data_type) by {
            if picked(o0, i, o0.len() as int) {
                let k = choose|k: int| 0 <= k < o0.len() && (#[trigger] o0[k]).0 == i;
                assert(reads_into(es[o0[k].0 as int], o0[k], o9[k]));
                T::law_supported(channels@[i].data_type);
            }
        }
    }
}}}
