== MultiChannelInterleavedReader::new
ret r
spec {{{
    ensures r.reader == reader, r.block_start == block_start, r.block_size == block_size,
}}}

== MultiChannelInterleavedReader::read
ret r
spec {{{
    requires
        plan_ok(channels.0@),
        0 < row_off(channels.0@, channels.0@.len() as int) <= usize::MAX,
        old(self).block_start + old(self).block_size@ <= i64::MAX,
    ensures
        old(self).reader.good() && old(self).block_start + old(self).block_size@ <= old(self).reader.bytes().len() ==> r is Ok,
        r is Ok ==> inter_post(channels.0@, old(self).block_start as int, old(self).block_size@ as int, old(self).reader.bytes(), T::big()),
}}}
shim min vs_min a0
at entry {{{
    let ghost es = channels.0@;
    let ghost n = es.len() as int;
    let ghost rw = row_off(es, n);
    let ghost by = self.reader.bytes();
    let ghost st = self.block_start as int;
    let ghost bs = self.block_size@ as int;
    let ghost mut rr: int = 0;
    let ghost mut g_mn: Option<u64> = None;
}}}
at after unwrap_or {{{
    let ghost m = min_skip as int;
    proof {
        assert(total_row_count == bs / rw);
        lemma_min_skip(es, g_mn, total_row_count as int, bs, rw);
    }
}}}
recv unwrap_or 0 vs_mn {{{ proof { g_mn = vs_mn; } }}}
loop 0 desugar vs_it {{{
        invariant
            IteratorSpec::obeys_prophetic_iter_laws(&vs_it),
            IteratorSpec::decrease(&vs_it) is Some,
            0 <= kk <= sk.len(),
            IteratorSpec::remaining(&vs_it) == sk.skip(kk),
            forall|j: int| 0 <= j < kk ==> *final(#[trigger] sk[j]) == (if *sk[j] >= min_skip { *sk[j] - min_skip } else { 0 }) as u64,
        ensures
            kk == sk.len(),
        decreases IteratorSpec::decrease(&vs_it)->0,
}}}
at loop 0 init {{{ let ghost sk = IteratorSpec::remaining(&vs_it); let ghost mut kk: int = 0; proof { assert(sk.skip(0) =~= sk); } }}}
at loop 0 body {{{ proof { assert(skip == sk[kk]); assert(sk.skip(kk).drop_first() =~= sk.skip(kk + 1)); } }}}
at loop 0 end {{{ proof { kk = kk + 1; } }}}
at loop 0 done {{{ proof { assert(lowered(sk, m)); } }}}
at loop 0 after {{{ proof { lemma_iprogress_start(es, channels.0@, m, st, rw, by, T::big()); } }}}
loop 1 native it {{{
        invariant_except_break
            rr == it.index@,
            self.reader.pos() == st + (m + rr) * rw,
            rr <= needed(es, n),
        invariant
            n == es.len(),
            plan_ok(es),
            rw == row_off(es, n),
            rw > 0,
            st >= 0,
            st + bs <= i64::MAX,
            total_row_count * rw <= bs,
            m == min_skip,
            m <= total_row_count,
            rows_to_process == total_row_count - m,
            0 <= rr <= rows_to_process,
            samples_read <= rr,
            self.reader.bytes() == by,
            self.reader.good() == old(self).reader.good(),
            by == old(self).reader.bytes(),
            st == old(self).block_start,
            bs == old(self).block_size@,
            channels.0@.len() == n,
            forall|e: int| 0 <= e < n ==> iprogress(#[trigger] es[e], channels.0@[e], m, m + rr, st, rw, row_off(es, e), by, T::big()),
        ensures
            rr == rows_to_process || (forall|e: int| 0 <= e < n ==> rem(#[trigger] channels.0@[e]).len() == 0),
}}}
at loop 1 before {{{ proof { lemma_needed(es, 0, n); } }}}
at loop 1 body {{{
            let ghost c1 = channels.0@;
            let ghost p1 = self.reader.pos();
            proof {
                assert((m + rr + 1) * rw == (m + rr) * rw + rw) by (nonlinear_arith);
                assert((m + rr + 1) * rw <= total_row_count * rw) by (nonlinear_arith) requires m + rr + 1 <= total_row_count, rw > 0;
                assert(0 <= (m + rr) * rw) by (nonlinear_arith) requires 0 <= m + rr, rw > 0;
                assert forall|e: int| 0 <= e < n implies (#[trigger] es[e]).length == c1[e].length && esize(es[e]) == esize(c1[e]) && is_read(es[e]) == is_read(c1[e]) by {
                    assert(iprogress(es[e], c1[e], m, m + rr, st, rw, row_off(es, e), by, T::big()));
                }
                assert forall|e: int| 0 <= e < n implies 0 <= esize(#[trigger] c1[e]) <= 255 && (is_read(c1[e]) ==> D::fixed()) by { assert(es[e].length == c1[e].length); }
                lemma_same_offs(es, c1, n);
            }
}}}
loop 2 native it2 {{{
        invariant
            n == c1.len(),
            plan_ok(c1),
            rw == row_off(c1, n),
            rw > 0,
            p1 >= 0,
            p1 + rw <= i64::MAX,
            it2.seq().len() == n,
            forall|e: int| 0 <= e < n ==> *#[trigger] it2.seq()[e] == c1[e],
            self.reader.bytes() == by,
            self.reader.good() == old(self).reader.good(),
            by == old(self).reader.bytes(),
            st == old(self).block_start,
            bs == old(self).block_size@,
            self.block_start == old(self).block_start,
            p1 + rw <= st + bs,
            self.reader.pos() == p1 + row_off(c1, it2.index@),
            any_values_read ==> exists|e: int| 0 <= e < it2.index@ && is_read(#[trigger] c1[e]) && (row < eskip(c1[e]) || rem(c1[e]).len() > 0),
            !any_values_read ==> forall|e: int| 0 <= e < it2.index@ && is_read(#[trigger] c1[e]) ==> rem(c1[e]).len() == 0,
            forall|e: int| 0 <= e < it2.index@ ==> row_done(#[trigger] c1[e], *final(it2.seq()[e]), row as int, p1 + row_off(c1, e), by, T::big()),
}}}
at loop 2 body {{{
                let ghost k = it2.index@;
                proof {
                    assert(*it2.seq()[k] == c1[k]);
                    lemma_offs(c1, k, k + 1);
                    lemma_offs(c1, k + 1, n);
                    if is_read(c1[k]) { D::law_fixed(by.skip(p1 + row_off(c1, k)), T::big()); }
                }
}}}
at loop 2 after {{{
            proof {
                assert forall|e: int| 0 <= e < n implies iprogress(#[trigger] es[e], channels.0@[e], m, m + rr + 1, st, rw, row_off(es, e), by, T::big()) by {
                    assert(row_done(c1[e], channels.0@[e], row as int, p1 + row_off(c1, e), by, T::big()));
                    lemma_same_offs(es, c1, e);
                    lemma_iprogress(es[e], c1[e], channels.0@[e], m, rr, st, rw, row_off(es, e), by, T::big());
                }
                if any_values_read {
                    let e = choose|e: int| 0 <= e < n && is_read(#[trigger] c1[e]) && (row < eskip(c1[e]) || rem(c1[e]).len() > 0);
                    assert(iprogress(es[e], c1[e], m, m + rr, st, rw, row_off(es, e), by, T::big()));
                    lemma_needed(es, e, n);
                }
                rr = rr + 1;
            }
}}}
at tail {{{
    proof {
        assert forall|e: int, i: int| #![trigger rem(es[e])[i]] 0 <= e < n && 0 <= i < rem(es[e]).len() implies inter_cell(es[e], i, st, bs / rw, rw, row_off(es, e), by, T::big()) by {
            let c = channels.0@[e];
            assert(iprogress(es[e], c, m, m + rr, st, rw, row_off(es, e), by, T::big()));
            assert(has_resolved(channels));
            assert(has_resolved(channels.0));
            assert(has_resolved(c));
            assert(has_resolved(c.plan));
            lemma_inter_end(es[e], c, m, m + rr, total_row_count as int, i, st, rw, row_off(es, e), by, T::big());
        }
    }
}}}
