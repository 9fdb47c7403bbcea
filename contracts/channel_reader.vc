== read_plan
ret r
spec {{{
    requires
        start_skips@.len() == channel_positions@.len(),
        forall|c: int| 0 <= c < channel_positions@.len() ==> sorted(#[trigger] channel_positions@[c]@),
        forall|c: int, j: int| 0 <= c < channel_positions@.len() && 0 <= j < channel_positions@[c]@.len() ==> (#[trigger] channel_positions@[c]@[j]).data_block < usize::MAX,
    ensures planned(channel_positions@, start_skips@, r@),
}}}
shim zip vs_zip
shim filter_map vs_filter_map
shim min vs_min_usize a0
shim to_vec vs_to_vec
closure 0 {{{ -> (r: Option<usize>) ensures r == if *vp0_0.1 < vp0_0.0@.len() { Some(vp0_0.0@[*vp0_0.1 as int].data_block) } else { None } }}}
closure 1 {{{ -> (r: usize) ensures r == loc.data_block }}}
at entry {{{
    let ghost ps = channel_positions@;
    let ghost ss = start_skips@;
    let ghost n = ps.len() as int;
    let ghost mut d: int = 0;
}}}
loop 0 {{{
        invariant
            ps == channel_positions@,
            ss == start_skips@,
            n == ps.len(),
            channels == n,
            ss.len() == n,
            forall|c: int| 0 <= c < n ==> sorted(#[trigger] ps[c]@),
            forall|c: int, j: int| 0 <= c < n && 0 <= j < ps[c]@.len() ==> (#[trigger] ps[c]@[j]).data_block < usize::MAX,
            next_location@.len() == n,
            remaining_skips@.len() == n,
            forall|c: int| 0 <= c < n ==> upto(ps[c]@, #[trigger] next_location@[c] as int, d),
            forall|c: int| 0 <= c < n ==> #[trigger] remaining_skips@[c] == skip_in(ps[c]@, ss[c] as int, next_location@[c] as int),
            forall|b: int| 0 <= b < blocks@.len() ==> (#[trigger] blocks@[b]).data_block < d,
            forall|a: int, b: int| 0 <= a < b < blocks@.len() ==> (#[trigger] blocks@[a]).data_block < (#[trigger] blocks@[b]).data_block,
            forall|b: int| 0 <= b < blocks@.len() ==> entries_ok(ps, ss, #[trigger] blocks@[b]) && reads_any(blocks@[b]),
            forall|c: int, j: int| 0 <= c < n && 0 <= j < next_location@[c] && wanted(ps[c]@, ss[c] as int, j) ==> has_block(blocks@, (#[trigger] ps[c]@[j]).data_block as int),
        decreases left(ps, next_location@, n),
}}}
at loop 0 body {{{
        let ghost n0 = next_location@;
        let ghost r0 = remaining_skips@;
        let ghost d0 = d;
        let ghost b0 = blocks@;
}}}
recv min 0 vs_cand {{{
            let ghost cand = IteratorSpec::remaining(&vs_cand);
            proof { lemma_candidates(ps, n0, cand); }
}}}
at loop 1 before {{{
        proof { assert(d <= next_block < usize::MAX); assert(forall|c: int, j: int| 0 <= c < n && n0[c] <= j < ps[c]@.len() ==> next_block <= (#[trigger] ps[c]@[j]).data_block); }
        let ghost nb = next_block as int;
}}}
loop 1 native it {{{
        invariant
            ps == channel_positions@,
            ss == start_skips@,
            n == ps.len(),
            channels == n,
            ss.len() == n,
            forall|c: int| 0 <= c < n ==> sorted(#[trigger] ps[c]@),
            next_location@.len() == n,
            remaining_skips@.len() == n,
            channel_read_plans@.len() == it.index@,
            n0.len() == n,
            r0.len() == n,
            nb == next_block,
            d <= nb,
            forall|c: int| 0 <= c < n ==> upto(ps[c]@, #[trigger] n0[c] as int, d),
            forall|c: int, j: int| 0 <= c < n && n0[c] <= j < ps[c]@.len() ==> nb <= (#[trigger] ps[c]@[j]).data_block,
            forall|c: int| 0 <= c < n ==> #[trigger] r0[c] == skip_in(ps[c]@, ss[c] as int, n0[c] as int),
            forall|c: int| it.index@ <= c < n ==> #[trigger] next_location@[c] == n0[c],
            forall|c: int| it.index@ <= c < n ==> #[trigger] remaining_skips@[c] == r0[c],
            forall|c: int| 0 <= c < it.index@ ==> upto(ps[c]@, #[trigger] next_location@[c] as int, nb + 1) && n0[c] <= next_location@[c] <= n0[c] + 1,
            forall|c: int| 0 <= c < it.index@ ==> #[trigger] remaining_skips@[c] == skip_in(ps[c]@, ss[c] as int, next_location@[c] as int),
            forall|c: int| 0 <= c < it.index@ ==> entry_ok(ps[c]@, ss[c] as int, nb, #[trigger] channel_read_plans@[c]),
            forall|c: int| 0 <= c < it.index@ && n0[c] < ps[c]@.len() && ps[c]@[n0[c] as int].data_block == nb ==> #[trigger] next_location@[c] == n0[c] + 1,
            any_needs_read == exists|c: int| 0 <= c < it.index@ && #[trigger] channel_read_plans@[c] is Some,
}}}
at loop 1 body {{{
            let ghost ci = it.index@;
            let ghost p = ps[ci]@;
            let ghost g = n0[ci] as int;
            proof {
                assert(next_location@[ci] == n0[ci]);
                assert(upto(p, g, d));
                assert(sorted(p));
                lemma_prefix(p, 0, g);
                assert(ps[ci].len() == p.len());
            }
            let ghost plans0 = channel_read_plans@;
            let ghost n1 = next_location@;
            let ghost r1 = remaining_skips@;
}}}
at loop 1 end {{{
            proof {
                assert(forall|c: int| 0 <= c < n && c != ci ==> #[trigger] next_location@[c] == n1[c]);
                assert(forall|c: int| 0 <= c < n && c != ci ==> #[trigger] remaining_skips@[c] == r1[c]);
                lemma_step(p, ss[ci] as int, g, d, nb);
                assert(forall|c: int| 0 <= c < ci ==> #[trigger] channel_read_plans@[c] == plans0[c]);
                assert(forall|c: int| 0 <= c < ci ==> channel_read_plans@[c] == #[trigger] plans0[c]);
                assert(channel_read_plans@[ci] is Some ==> any_needs_read);
                assert(any_needs_read == exists|c: int| 0 <= c < ci + 1 && #[trigger] channel_read_plans@[c] is Some);
            }
}}}
at loop 1 after {{{
        let ghost pl = channel_read_plans@;
        proof {
            assert forall|c: int, j: int| !any_needs_read && 0 <= c < n && 0 <= j < ps[c]@.len() && (#[trigger] ps[c]@[j]).data_block == nb implies !wanted(ps[c]@, ss[c] as int, j) by {
                assert(!(pl[c] is Some));
                assert(entry_ok(ps[c]@, ss[c] as int, nb, pl[c]));
            }
        }
}}}
at loop 0 end {{{
        proof { assert(any_needs_read ==> blocks@.drop_last() =~= b0); assert(!any_needs_read ==> blocks@ =~= b0); lemma_planned_step(ps, ss, n0, next_location@, b0, blocks@, d0, nb); d = nb + 1; lemma_left(ps, n0, next_location@, n); }
}}}

== ChannelProgress::new
ret r
spec {{{
    ensures r.samples_read == 0, r.samples_target == samples_target,
}}}

== ChannelProgress::is_complete
ret r
spec {{{
    ensures r == done(*self),
}}}

== ChannelProgress::add_samples
spec {{{
    requires old(self).samples_read + samples <= usize::MAX,
    ensures final(self).samples_read == old(self).samples_read + samples, final(self).samples_target == old(self).samples_target,
}}}

== ChannelProgress::samples_remaining
ret r
spec {{{
    ensures r == imax(0, self.samples_target - self.samples_read),
}}}

== get_block_sample_counts
ret r
spec {{{
    requires
        location.channel_indexes@.len() == channel_progress@.len(),
        bytes_of(block.channels@, block.channels@.len() as int) <= u64::MAX,
        forall|c: int| 0 <= c < channel_progress@.len() ==> serves(*block, #[trigger] location.channel_indexes@[c]),
    ensures
        r is Ok,
        r->Ok_0@.len() == channel_progress@.len(),
        forall|c: int| 0 <= c < channel_progress@.len() ==> #[trigger] r->Ok_0@[c] == to_read(*block, location.channel_indexes@[c], channel_progress@[c]),
}}}
shim zip vs_zip
loop 0 native it {{{
        invariant
            location.channel_indexes@.len() == channel_progress@.len(),
            it.seq().len() == channel_progress@.len(),
            forall|c: int| 0 <= c < channel_progress@.len() ==> *(#[trigger] it.seq()[c]).0 == location.channel_indexes@[c] && *it.seq()[c].1 == channel_progress@[c],
            chunks == chunks_of(*block),
            forall|c: int| 0 <= c < channel_progress@.len() ==> serves(*block, #[trigger] location.channel_indexes@[c]),
            sample_counts@.len() == it.index@,
            forall|c: int| 0 <= c < it.index@ ==> #[trigger] sample_counts@[c] == to_read(*block, location.channel_indexes@[c], channel_progress@[c]),
}}}
at loop 0 body {{{
        proof {
            let c = it.index@;
            assert(it.seq()[c] == (plan, progress));
            assert(serves(*block, location.channel_indexes@[c]));
            if plan is Some {
                let nv = block.channels@[plan->Some_0.index as int].number_of_values;
                assert(nv * chunks == chunks_of(*block) * nv) by (nonlinear_arith) requires chunks == chunks_of(*block);
            }
        }
}}}

== get_block_read_data
ret r
spec {{{
    requires rooms(*location, old(output)@, channel_progress@, sample_counts@),
    ensures exists|o: Seq<Option<(usize, &mut [D])>>| lents(*location, old(output)@, final(output)@, channel_progress@, sample_counts@, o) && r@ == #[trigger] somes(o),
}}}
shim zip vs_zip
shim filter_map vs_filter_map
shim collect vs_collect
rangefn 0
rangefn 1
closure 0 {{{ -> (r: Option<(usize, &mut [D])>) requires *vp0_0.0.0.0 is Some && !done(*vp0_0.0.1) ==> vp0_0.0.1.samples_read + *vp0_0.1 <= (*old(vp0_0.0.0.1))@.len() ensures lent(*vp0_0.0.0.0, *old(vp0_0.0.0.1), *final(vp0_0.0.0.1), *vp0_0.0.1, *vp0_0.1 as int, r) }}}

== get_block_read_data_with_skip
ret r
spec {{{
    requires rooms(*location, old(output)@, channel_progress@, sample_counts@),
    ensures exists|o: Seq<Option<BlockReadChannelConfig<D>>>| lents_with(*location, old(output)@, final(output)@, channel_progress@, sample_counts@, o) && r@ == #[trigger] somes(o),
}}}
shim zip vs_zip
shim filter_map vs_filter_map
shim collect vs_collect
rangefn 0
rangefn 1
closure 0 {{{ -> (r: Option<BlockReadChannelConfig<D>>) requires *vp0_0.0.0.0 is Some && !done(*vp0_0.0.1) ==> vp0_0.0.1.samples_read + *vp0_0.1 <= (*old(vp0_0.0.0.1))@.len() ensures lent_with(*vp0_0.0.0.0, *old(vp0_0.0.0.1), *final(vp0_0.0.0.1), *vp0_0.0.1, *vp0_0.1 as int, r) }}}

== all_channels_complete
ret r
spec {{{
    ensures r == (forall|c: int| 0 <= c < channel_progress@.len() ==> done(#[trigger] channel_progress@[c])),
}}}
closure 0 {{{ -> (r: bool) ensures r == done(*progress) }}}
recv all 0 vs_it {{{
    proof { assert forall|i: int| 0 <= i < channel_progress@.len() implies *IteratorSpec::remaining(&vs_it)[i] == #[trigger] channel_progress@[i] by { } }
}}}

== Index::get_data_block
ret r
spec {{{
    ensures match r {
        Some(b) => index < self.data_blocks@.len() && *b == self.data_blocks@[index as int],
        None => index >= self.data_blocks@.len(),
    },
}}}

== TdmsFile::execute_read_plan
ret r
spec {{{
    requires
        plan_runs(old(self).index.data_blocks@, plan@, old(output)@.len() as int),
    ensures
        contents(final(self).file) == contents(old(self).file),
        healthy(final(self).file) == healthy(old(self).file),
        final(self).index == old(self).index,
        r is Ok ==> final(output)@.len() == old(output)@.len(),
        r is Ok ==> forall|c: int| 0 <= c < old(output)@.len() ==> executed::<D>(old(self).index.data_blocks@, contents(old(self).file), plan@, c, plan@.len() as int, #[trigger] old(output)@[c], final(output)@[c]),
        healthy(old(self).file) && plan_typed::<D>(old(self).index.data_blocks@, contents(old(self).file), plan@, old(output)@.len() as int) ==> r is Ok,
}}}
shim zip vs_zip
shim map vs_map
shim collect vs_collect
closure 1 {{{ -> (r: bool) ensures r == (*plan is Some && (*plan)->Some_0.samples_to_skip > 0) }}}
closure 0 {{{ -> (r: ChannelProgress) ensures r.samples_read == 0, r.samples_target == room(out_slice) }}}
at entry {{{
        let ghost plan0 = plan;
        let ghost pl = plan@;
        let ghost bs = self.index.data_blocks@;
        let ghost by = contents(self.file);
        let ghost h = healthy(self.file);
        let ghost out0 = output@;
        let ghost n = output@.len() as int;
        let ghost mut k: int = 0;
        let ghost ix = self.index;
}}}
loop 0 native it {{{
            invariant_except_break
                k == it.index@,
            invariant
                it.seq() == pl,
                pl == plan0@,
                bs == old(self).index.data_blocks@,
                by == contents(old(self).file),
                h == healthy(old(self).file),
                out0 == old(output)@,
                0 <= k <= pl.len(),
                n == out0.len(),
                plan_runs(bs, pl, n),
                self.index == ix,
                ix.data_blocks@ == bs,
                contents(self.file) == by,
                healthy(self.file) == h,
                output@.len() == n,
                channel_progress@.len() == n,
                forall|c: int| 0 <= c < n ==> (#[trigger] channel_progress@[c]).samples_target == out0[c]@.len(),
                forall|c: int| 0 <= c < n ==> (#[trigger] channel_progress@[c]).samples_read == imin(out0[c]@.len() as int, plan_data::<D>(bs, by, pl, c, k).len() as int),
                forall|c: int| 0 <= c < n ==> executed::<D>(bs, by, pl, c, k, #[trigger] out0[c], output@[c]),
            ensures
                k == pl.len() || forall|c: int| 0 <= c < n ==> done(#[trigger] channel_progress@[c]),
}}}
at loop 0 body {{{
            let ghost ps0 = channel_progress@;
            let ghost outa = output@;
            proof { assert(location == pl[k]); assert(runs(bs[pl[k].data_block as int], pl[k], n)); }
}}}
loop 1 native jt {{{
                invariant
                    n == ps0.len(),
                    jt.seq().len() == n,
                    sample_counts@.len() == n,
                    forall|c: int| 0 <= c < n ==> *(#[trigger] jt.seq()[c]).0 == sample_counts@[c] && *jt.seq()[c].1 == ps0[c],
                    forall|c: int| 0 <= c < n ==> *final((#[trigger] jt.seq()[c]).1) == after_borrow(channel_progress)@[c],
                    forall|c: int| 0 <= c < n ==> (#[trigger] ps0[c]).samples_read + sample_counts@[c] <= usize::MAX,
                    forall|c: int| 0 <= c < jt.index@ ==> (#[trigger] after_borrow(channel_progress)@[c]).samples_read == ps0[c].samples_read + sample_counts@[c] && after_borrow(channel_progress)@[c].samples_target == ps0[c].samples_target,
}}}
recv any 0 vs_any {{{
                proof { assert forall|i: int| 0 <= i < n implies *IteratorSpec::remaining(&vs_any)[i] == #[trigger] location.channel_indexes@[i] by { } }
}}}
at before read_with_per_channel_skip 0 {{{
                let ghost outb = after_borrow(output)@;
                let ghost o0 = channels_with_skip@;
                proof { lemma_request_with::<D>(*block, location, outa, outb, ps0, sample_counts@, o0); }
}}}
at after read_with_per_channel_skip 0 {{{
                proof {
                    let o9 = channels_with_skip@;
                    assert forall|j: int| 0 <= j < o9.len() implies final((#[trigger] o9[j]).output)@ == o9[j].output@ by { assert(has_resolved(o9[j].output)); }
                    lemma_block_read_with::<D>(*block, by, location, outa, outb, ps0, sample_counts@, o0, o9);
                }
}}}
at before read 0 {{{
                let ghost outb = after_borrow(output)@;
                let ghost o0 = channels_to_read@;
                proof { lemma_request::<D>(*block, location, outa, outb, ps0, sample_counts@, o0); }
}}}
at after read 0 {{{
                proof {
                    let o9 = channels_to_read@;
                    assert forall|j: int| 0 <= j < o9.len() implies final((#[trigger] o9[j]).1)@ == o9[j].1@ by { assert(has_resolved(o9[j].1)); }
                    lemma_block_read::<D>(*block, by, location, outa, outb, ps0, sample_counts@, o0, o9);
                }
}}}
at loop 1 before {{{
            proof { assert(forall|c: int| 0 <= c < n ==> stepped_ref::<D>(*block, by, location.channel_indexes@[c], #[trigger] ps0[c], outa[c], output@[c])); }
}}}
at loop 1 after {{{
            proof {
                assert forall|c: int| 0 <= c < n implies executed::<D>(bs, by, pl, c, k + 1, #[trigger] out0[c], output@[c]) && channel_progress@[c].samples_read == imin(out0[c]@.len() as int, plan_data::<D>(bs, by, pl, c, k + 1).len() as int) by {
                    assert(executed::<D>(bs, by, pl, c, k, out0[c], outa[c]));
                    lemma_executed_step::<D>(bs, by, pl, c, k, ps0[c], Ghost(out0[c]), Ghost(outa[c]), Ghost(output@[c]));
                }
                k = k + 1;
            }
}}}
at tail {{{
        proof {
            assert forall|c: int| 0 <= c < n implies executed::<D>(bs, by, pl, c, pl.len() as int, #[trigger] out0[c], output@[c]) by {
                if k < pl.len() { assert(done(channel_progress@[c])); }
                lemma_executed_all::<D>(bs, by, pl, c, k, Ghost(out0[c]), Ghost(output@[c]));
            }
        }
}}}

== Index::get_channel_data_positions
ret r
spec {{{
    ensures match r {
        Some(p) => object_at(*self, cpath(*path)) is Some && p@ == object_at(*self, cpath(*path))->Some_0.data_locations@,
        None => object_at(*self, cpath(*path)) is None,
    },
}}}
closure 0 {{{ -> (r: &[DataLocation]) ensures r@ == object.data_locations@ }}}
vecrange 0
rangefn 0

== TdmsFile::read_channel_from
ret r
spec {{{
    requires index_ok(old(self).index),
    ensures
        contents(final(self).file) == contents(old(self).file),
        healthy(final(self).file) == healthy(old(self).file),
        final(self).index == old(self).index,
        match object_at(old(self).index, cpath(*channel)) {
            None => r is Err,
            Some(o) => {
                &&& r is Ok ==> channel_read::<D>(old(self).index.data_blocks@, contents(old(self).file), o.data_locations@, start as int, old(output)@, final(output)@)
                &&& healthy(old(self).file) && readable::<D>(old(self).index.data_blocks@, contents(old(self).file), o.data_locations@) ==> r is Ok
            },
        },
}}}
at entry {{{
        let ghost out0 = output;
        let ghost bs = self.index.data_blocks@;
        let ghost by = contents(self.file);
}}}
at before read_plan 0 {{{
        proof { lemma_object(self.index, cpath(*channel)); }
}}}
at tail {{{
        let ghost ps = seq![data_positions];
        let ghost ss = seq![start];
        let ghost pl = plan@;
        proof { lemma_plan_runs::<D>(self.index, by, ps, ss, pl); }
}}}
at ret {{{
        proof {
            if vs_ret is Ok { lemma_channel_read::<D>(bs, by, ps, ss, pl, 0, out0@, output@); }
        }
}}}

== TdmsFile::read_channel
ret r
spec {{{
    requires index_ok(old(self).index),
    ensures
        contents(final(self).file) == contents(old(self).file),
        healthy(final(self).file) == healthy(old(self).file),
        final(self).index == old(self).index,
        match object_at(old(self).index, cpath(*channel)) {
            None => r is Err,
            Some(o) => {
                &&& r is Ok ==> channel_read::<D>(old(self).index.data_blocks@, contents(old(self).file), o.data_locations@, 0, old(output)@, final(output)@)
                &&& healthy(old(self).file) && readable::<D>(old(self).index.data_blocks@, contents(old(self).file), o.data_locations@) ==> r is Ok
            },
        },
}}}

== TdmsFile::read_channels_from
ret r
spec {{{
    requires
        index_ok(old(self).index),
        old(output)@.len() == channels@.len(),
        distinct_channels(channels@),
    ensures
        contents(final(self).file) == contents(old(self).file),
        healthy(final(self).file) == healthy(old(self).file),
        final(self).index == old(self).index,
        r is Ok ==> forall|c: int| 0 <= c < channels@.len() ==> object_at(old(self).index, chars_of(#[trigger] channels@[c])) is Some,
        r is Ok ==> forall|c: int| 0 <= c < channels@.len() ==> output_read::<D>(old(self).index.data_blocks@, contents(old(self).file), object_at(old(self).index, chars_of(channels@[c]))->Some_0.data_locations@, start as int, #[trigger] old(output)@[c], final(output)@[c]),
        healthy(old(self).file) && (forall|c: int| 0 <= c < channels@.len() ==> object_at(old(self).index, chars_of(#[trigger] channels@[c])) is Some && readable::<D>(old(self).index.data_blocks@, contents(old(self).file), object_at(old(self).index, chars_of(channels@[c]))->Some_0.data_locations@)) ==> r is Ok,
}}}
shim as_ref vs_as_channel
shim map vs_map
shim collect vs_collect_result
vecrange 0
rangefn 0
closure 0 {{{ -> (r: Result<_, TdmsError>) ensures match r { Ok(p) => located(ix, chars_of(*channel), p), Err(_) => object_at(ix, chars_of(*channel)) is None } }}}
at entry {{{
        let ghost out0 = output@;
        let ghost by = contents(self.file);
        let ghost ix = self.index;
}}}
at before read_plan 0 {{{
        let ghost ps = channel_positions@;
        let ghost ss = start_skips@;
        proof { lemma_objects(ix, channels@, ps); }
}}}
at tail {{{
        let ghost pl = plan@;
        proof {
            assert forall|c: int| 0 <= c < channels@.len() implies located(ix, chars_of(#[trigger] channels@[c]), ps[c]) by { assert(located(ix, chars_of(channels@[c]), ps[c])); }
            lemma_plan_runs::<D>(ix, by, ps, ss, pl);
        }
}}}
at ret {{{
        proof {
            if vs_ret is Ok { lemma_outputs::<D, _>(ix, by, channels@, ps, start, ss, pl, Ghost(out0), Ghost(output@)); }
        }
}}}

== TdmsFile::read_channels
ret r
spec {{{
    requires
        index_ok(old(self).index),
        old(output)@.len() == channels@.len(),
        distinct_channels(channels@),
    ensures
        contents(final(self).file) == contents(old(self).file),
        healthy(final(self).file) == healthy(old(self).file),
        final(self).index == old(self).index,
        r is Ok ==> forall|c: int| 0 <= c < channels@.len() ==> object_at(old(self).index, chars_of(#[trigger] channels@[c])) is Some,
        r is Ok ==> forall|c: int| 0 <= c < channels@.len() ==> output_read::<D>(old(self).index.data_blocks@, contents(old(self).file), object_at(old(self).index, chars_of(channels@[c]))->Some_0.data_locations@, 0, #[trigger] old(output)@[c], final(output)@[c]),
        healthy(old(self).file) && (forall|c: int| 0 <= c < channels@.len() ==> object_at(old(self).index, chars_of(#[trigger] channels@[c])) is Some && readable::<D>(old(self).index.data_blocks@, contents(old(self).file), object_at(old(self).index, chars_of(channels@[c]))->Some_0.data_locations@)) ==> r is Ok,
}}}
