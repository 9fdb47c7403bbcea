== MultiChannelContiguousReader::new
ret r
spec {{{
    ensures r.reader == reader, r.block_start == block_start, r.block_size == block_size,
}}}

== MultiChannelContiguousReader::read_sequential_samples
ret r
spec {{{
    requires
        D::fixed(),
        IteratorSpec::obeys_prophetic_iter_laws(&*old(output)),
        0 <= old(self).reader.pos(),
        old(self).reader.pos() + samples_to_read * D::SIZE_BYTES <= i64::MAX,
    ensures
        final(self).reader.bytes() == old(self).reader.bytes(),
        final(self).reader.good() == old(self).reader.good(),
        final(self).block_start == old(self).block_start,
        final(self).block_size == old(self).block_size,
        old(self).reader.good() && old(self).reader.pos() + samples_to_read * D::SIZE_BYTES <= old(self).reader.bytes().len() ==> r is Ok,
        r is Ok ==> {
            &&& IteratorSpec::obeys_prophetic_iter_laws(&*final(output))
            &&& final(self).reader.pos() == old(self).reader.pos() + samples_to_read * D::SIZE_BYTES
            &&& r->Ok_0 == imin(samples_to_read as int, IteratorSpec::remaining(&*old(output)).len() as int)
            &&& IteratorSpec::remaining(&*final(output)) == IteratorSpec::remaining(&*old(output)).skip(r->Ok_0 as int)
            &&& forall|i: int| 0 <= i < r->Ok_0 ==> *final(#[trigger] IteratorSpec::remaining(&*old(output))[i]) == sample_at::<D>(old(self).reader.bytes(), old(self).reader.pos() + i * D::SIZE_BYTES, T::big())
        },
}}}
shim take vs_take
at entry {{{
    let ghost rem0 = IteratorSpec::remaining(&*output);
    let ghost p0 = self.reader.pos();
    let ghost by = self.reader.bytes();
}}}
loop 0 desugar vs_it {{{
        invariant_except_break
            vs_it.n == samples_to_read - length,
        invariant
            D::fixed(),
            IteratorSpec::obeys_prophetic_iter_laws(&*vs_it.it),
            *final(vs_it.it) == vs_o8,
            length <= samples_to_read,
            length <= rem0.len(),
            IteratorSpec::remaining(&*vs_it.it) == rem0.skip(length as int),
            self.reader.bytes() == by,
            self.reader.good() == old(self).reader.good(),
            self.block_start == old(self).block_start,
            self.block_size == old(self).block_size,
            by == old(self).reader.bytes(),
            p0 == old(self).reader.pos(),
            p0 >= 0,
            p0 + samples_to_read * D::SIZE_BYTES <= i64::MAX,
            self.reader.pos() == p0 + length * D::SIZE_BYTES,
            forall|i: int| 0 <= i < length ==> *final(#[trigger] rem0[i]) == sample_at::<D>(by, p0 + i * D::SIZE_BYTES, T::big()),
        ensures
            length == imin(samples_to_read as int, rem0.len() as int),
        decreases vs_it.n,
}}}
at loop 0 init {{{ let ghost vs_o8 = *final(vs_it.it); }}}
at loop 0 body {{{
        let ghost k = length as int;
        proof {
            D::law_fixed(by.skip(p0 + k * D::SIZE_BYTES), T::big());
            assert(output_value == rem0[k]);
            assert((k + 1) * D::SIZE_BYTES <= samples_to_read * D::SIZE_BYTES) by (nonlinear_arith) requires k + 1 <= samples_to_read, D::SIZE_BYTES >= 0;
            assert((k + 1) * D::SIZE_BYTES == k * D::SIZE_BYTES + D::SIZE_BYTES) by (nonlinear_arith);
            assert(0 <= k * D::SIZE_BYTES) by (nonlinear_arith) requires 0 <= k, D::SIZE_BYTES >= 0;
        }
}}}
at loop 0 end {{{
        proof { assert(rem0.skip(k).drop_first() =~= rem0.skip(k + 1)); }
}}}
at loop 0 after {{{
    proof {
        let u: int = samples_to_read - length;
        let n: int = samples_to_read - u;
        D::law_fixed(by, T::big());
        assert(samples_to_read * D::SIZE_BYTES == n * D::SIZE_BYTES + u * D::SIZE_BYTES) by (nonlinear_arith) requires samples_to_read == n + u;
        assert(u <= u * D::SIZE_BYTES) by (nonlinear_arith) requires u >= 0, D::SIZE_BYTES >= 1;
        assert(0 <= n * D::SIZE_BYTES) by (nonlinear_arith) requires 0 <= n, D::SIZE_BYTES >= 0;
    }
}}}

== MultiChannelContiguousReader::read_sub_block
ret r
spec {{{
    requires
        plan_ok(old(channels).0@),
        0 <= old(self).reader.pos(),
        old(self).reader.pos() + chunk_off(old(channels).0@, old(channels).0@.len() as int) <= i64::MAX,
    ensures
        final(self).reader.bytes() == old(self).reader.bytes(),
        final(self).reader.good() == old(self).reader.good(),
        final(self).block_start == old(self).block_start,
        final(self).block_size == old(self).block_size,
        final(channels).0@.len() == old(channels).0@.len(),
        old(self).reader.good() && old(self).reader.pos() + chunk_off(old(channels).0@, old(channels).0@.len() as int) <= old(self).reader.bytes().len() ==> r is Ok,
        r is Ok ==> {
            &&& final(self).reader.pos() == old(self).reader.pos() + chunk_off(old(channels).0@, old(channels).0@.len() as int)
            &&& r->Ok_0 <= chunk_off(old(channels).0@, old(channels).0@.len() as int)
            &&& forall|e: int| 0 <= e < old(channels).0@.len() ==> sub_done(#[trigger] old(channels).0@[e], final(channels).0@[e], old(self).reader.pos() + chunk_off(old(channels).0@, e), old(self).reader.bytes(), T::big())
        },
}}}
at entry {{{
    let ghost es = channels.0@;
    let ghost n = es.len() as int;
    let ghost p0 = self.reader.pos();
    let ghost by = self.reader.bytes();
}}}
loop 0 native it {{{
        invariant
            plan_ok(es),
            es == old(channels).0@,
            n == es.len(),
            it.seq().len() == n,
            forall|e: int| 0 <= e < n ==> *#[trigger] it.seq()[e] == es[e],
            self.reader.bytes() == by,
            self.reader.good() == old(self).reader.good(),
            self.block_start == old(self).block_start,
            self.block_size == old(self).block_size,
            by == old(self).reader.bytes(),
            p0 == old(self).reader.pos(),
            p0 >= 0,
            p0 + chunk_off(es, n) <= i64::MAX,
            self.reader.pos() == p0 + chunk_off(es, it.index@),
            length <= chunk_off(es, it.index@),
            forall|e: int| 0 <= e < it.index@ ==> sub_done(#[trigger] es[e], *final(it.seq()[e]), p0 + chunk_off(es, e), by, T::big()),
}}}
at loop 0 body {{{
        let ghost k = it.index@;
        let ghost e0 = es[k];
        proof {
            assert(*it.seq()[k] == es[k]);
            lemma_offs(es, k, k + 1);
            lemma_offs(es, k + 1, n);
            assert(esize(e0) * e0.length <= chunk_off(es, n) <= i64::MAX);
            assert(esize(e0) >= 1 ==> e0.length <= i64::MAX) by (nonlinear_arith)
                requires esize(e0) * e0.length <= i64::MAX, e0.length >= 0;
            assert(esize(e0) == 0 ==> forall|x: int| #[trigger] (esize(e0) * x) == 0) by (nonlinear_arith);
            if is_read(e0) {
                D::law_fixed(by, T::big());
            }
        }
}}}
at after saturating_sub {{{
                    proof {
                        assert(is_read(e0) && skip == imin(eskip(e0), e0.length as int));
                        let a = skip * D::SIZE_BYTES;
                        let b = samples_to_read * D::SIZE_BYTES;
                        assert(chunk_off(es, k + 1) == chunk_off(es, k) + a + b) by {
                            assert(esize(e0) * e0.length == skip * D::SIZE_BYTES + samples_to_read * D::SIZE_BYTES) by (nonlinear_arith)
                                requires esize(e0) == D::SIZE_BYTES, e0.length == skip + samples_to_read;
                        }
                        assert(0 <= a && skip <= a && 0 <= b && samples_to_read <= b) by (nonlinear_arith)
                            requires a == skip * D::SIZE_BYTES, b == samples_to_read * D::SIZE_BYTES, D::SIZE_BYTES >= 1, skip >= 0, samples_to_read >= 0;
                        assert(skip == 0 ==> a == 0) by (nonlinear_arith) requires a == skip * D::SIZE_BYTES;
                    }
}}}

== MultiChannelContiguousReader::read
ret r
spec {{{
    requires
        plan_ok(channels.0@),
        fed(channels.0@),
        0 < chunk_off(channels.0@, channels.0@.len() as int) <= usize::MAX,
        old(self).block_start + old(self).block_size@ <= i64::MAX,
    ensures
        old(self).reader.good() && old(self).block_start + old(self).block_size@ <= old(self).reader.bytes().len() ==> r is Ok,
        r is Ok ==> contig_post(channels.0@, old(self).block_start as int, old(self).block_size@ as int, old(self).reader.bytes(), T::big()),
}}}
at entry {{{
    let ghost es = channels.0@;
    let ghost n = es.len() as int;
    let ghost cs = chunk_off(es, n);
    let ghost by = self.reader.bytes();
    let ghost st = self.block_start as int;
    let ghost bs = self.block_size@ as int;
    let ghost mut q: int = 0;
}}}
at loop 0 before {{{
    proof {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(bs, cs);
        assert(total_sub_blocks == bs / cs);
        assert(cs * (bs / cs) == (bs / cs) * cs) by (nonlinear_arith);
        lemma_needed(es, 0, n);
        assert forall|e: int| 0 <= e < n implies progress(#[trigger] es[e], channels.0@[e], 0, st, cs, chunk_off(es, e), by, T::big()) by {
            assert(is_read(es[e]) ==> rem(es[e]).skip(0) =~= rem(es[e]));
        }
    }
}}}
loop 0 native it {{{
        invariant_except_break
            q == it.index@,
            self.reader.pos() == st + q * cs,
            q <= imax(1, needed(es, n)),
        invariant
            fed(es),
            n == es.len(),
            plan_ok(es),
            cs == chunk_off(es, n),
            cs > 0,
            by == old(self).reader.bytes(),
            st == old(self).block_start,
            bs == old(self).block_size@,
            st + bs <= i64::MAX,
            total_sub_blocks == bs / cs,
            total_sub_blocks * cs <= bs,
            0 <= q <= total_sub_blocks,
            length <= q * cs,
            self.reader.bytes() == by,
            self.reader.good() == old(self).reader.good(),
            channels.0@.len() == n,
            forall|e: int| 0 <= e < n ==> progress(#[trigger] es[e], channels.0@[e], q, st, cs, chunk_off(es, e), by, T::big()),
        ensures
            q == total_sub_blocks || (forall|e: int| 0 <= e < n ==> rem(#[trigger] channels.0@[e]).len() == 0),
}}}
at loop 0 body {{{
            let ghost c1 = channels.0@;
            proof {
                assert((q + 1) * cs == q * cs + cs) by (nonlinear_arith);
                assert((q + 1) * cs <= total_sub_blocks * cs) by (nonlinear_arith) requires q + 1 <= total_sub_blocks, cs > 0;
                assert(0 <= q * cs) by (nonlinear_arith) requires 0 <= q, cs > 0;
                assert forall|e: int| 0 <= e < n implies (#[trigger] es[e]).length == c1[e].length && esize(es[e]) == esize(c1[e]) && is_read(es[e]) == is_read(c1[e]) by {
                    assert(progress(es[e], c1[e], q, st, cs, chunk_off(es, e), by, T::big()));
                }
                assert forall|e: int| 0 <= e < n implies 0 <= esize(#[trigger] c1[e]) <= 255 && (is_read(c1[e]) ==> D::fixed()) by { assert(es[e].length == c1[e].length); }
                lemma_same_offs(es, c1, n);
            }
}}}
at after read_sub_block {{{
            proof {
                lemma_turn(es, c1, q, st, cs, by, T::big());
                assert forall|e: int| 0 <= e < n implies progress(#[trigger] es[e], channels.0@[e], q + 1, st, cs, chunk_off(es, e), by, T::big()) by {
                    assert(sub_done(c1[e], channels.0@[e], st + q * cs + chunk_off(c1, e), by, T::big()));
                    lemma_same_offs(es, c1, e);
                    lemma_progress(es[e], c1[e], channels.0@[e], q, st, cs, chunk_off(es, e), by, T::big());
                }
                q = q + 1;
            }
}}}
at loop 0 end {{{
            proof { lemma_turn(es, channels.0@, q, st, cs, by, T::big()); }
}}}
at tail {{{
    proof {
        assert forall|e: int, i: int| #![trigger rem(es[e])[i]] 0 <= e < n && 0 <= i < rem(es[e]).len() implies contig_cell(es[e], i, st, bs / cs, cs, chunk_off(es, e), by, T::big()) by {
            let c = channels.0@[e];
            assert(progress(es[e], c, q, st, cs, chunk_off(es, e), by, T::big()));
            assert(has_resolved(channels));
            assert(has_resolved(channels.0));
            assert(has_resolved(c));
            assert(has_resolved(c.plan));
            lemma_contig_end(es[e], c, q, total_sub_blocks as int, i, st, cs, chunk_off(es, e), by, T::big());
        }
    }
}}}
