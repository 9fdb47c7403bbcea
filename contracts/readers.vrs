// ---- the meaning of a record plan
spec fn ep_size<'a, T: TdmsStorageType, I: Iterator<Item = &'a mut T>>(p: RecordEntryPlan<'a, T, I>) -> int {
    match p {
        RecordEntryPlan::Skip(bytes) => bytes as int,
        RecordEntryPlan::Read { .. } => T::SIZE_BYTES as int,
    }
}
spec fn esize<'a, T: TdmsStorageType>(e: RecordEntry<'a, T>) -> int {
    ep_size(e.plan)
}
spec fn is_read<'a, T: TdmsStorageType>(e: RecordEntry<'a, T>) -> bool {
    e.plan is Read
}
/// The output cells of an entry still to be filled.
#[verifier::prophetic]
spec fn rem<'a, T: TdmsStorageType>(e: RecordEntry<'a, T>) -> Seq<&'a mut T> {
    match e.plan {
        RecordEntryPlan::Read { output, .. } => IteratorSpec::remaining(&output),
        RecordEntryPlan::Skip(_) => Seq::empty(),
    }
}
spec fn eskip<'a, T: TdmsStorageType>(e: RecordEntry<'a, T>) -> int {
    match e.plan {
        RecordEntryPlan::Read { block_skip, .. } => block_skip as int,
        RecordEntryPlan::Skip(_) => 0,
    }
}
/// Bytes of the first n entries of a row.
spec fn row_off<'a, T: TdmsStorageType>(es: Seq<RecordEntry<'a, T>>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { row_off(es, n - 1) + esize(es[n - 1]) }
}
/// Bytes of the first n entries of a chunk.
spec fn chunk_off<'a, T: TdmsStorageType>(es: Seq<RecordEntry<'a, T>>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { chunk_off(es, n - 1) + esize(es[n - 1]) * es[n - 1].length }
}
spec fn sizes_ok<'a, T: TdmsStorageType>(es: Seq<RecordEntry<'a, T>>) -> bool {
    forall|i: int| 0 <= i < es.len() ==> 0 <= esize(#[trigger] es[i]) <= 255
}
proof fn lemma_offs<'a, T: TdmsStorageType>(es: Seq<RecordEntry<'a, T>>, i: int, j: int)
    requires sizes_ok(es), 0 <= i <= j <= es.len(),
    ensures 0 <= row_off(es, i) <= row_off(es, j), 0 <= chunk_off(es, i) <= chunk_off(es, j), row_off(es, j) - row_off(es, i) <= 255 * (j - i),
    decreases j,
{
    if i < j {
        lemma_offs(es, i, j - 1);
        assert(0 <= esize(es[j - 1]) * es[j - 1].length) by (nonlinear_arith)
            requires 0 <= esize(es[j - 1]), 0 <= es[j - 1].length;
    } else if j > 0 {
        lemma_offs(es, j - 1, j - 1);
        assert(0 <= esize(es[j - 1]) * es[j - 1].length) by (nonlinear_arith)
            requires 0 <= esize(es[j - 1]), 0 <= es[j - 1].length;
    }
}
spec fn seq_sum(s: Seq<usize>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { seq_sum(s.drop_last()) + s.last() }
}
/// `Iterator::sum`: adds in order, and an overflow would panic.
#[verifier::exec_allows_no_decreases_clause]
fn vs_sum<I: Iterator<Item = usize>>(it: I) -> (r: usize)
    requires
        IteratorSpec::obeys_prophetic_iter_laws(&it),
        seq_sum(IteratorSpec::remaining(&it)) <= usize::MAX,
    ensures r == seq_sum(IteratorSpec::remaining(&it)), IteratorSpec::will_return_none(&it),
{
    let mut it = it;
    let ghost it0 = it;
    let ghost s = IteratorSpec::remaining(&it);
    let mut t: usize = 0;
    let mut k: Ghost<int> = Ghost(0);
    proof { assert(s.take(0) =~= Seq::<usize>::empty()); assert(s.skip(0) =~= s); }
    loop
        invariant
            IteratorSpec::obeys_prophetic_iter_laws(&it),
            IteratorSpec::will_return_none(&it0) == IteratorSpec::will_return_none(&it),
            seq_sum(s) <= usize::MAX,
            0 <= k@ <= s.len(),
            IteratorSpec::remaining(&it) == s.skip(k@),
            t == seq_sum(s.take(k@)),
        ensures t == seq_sum(s), IteratorSpec::will_return_none(&it0),
    {
        match it.next() {
            None => { proof { assert(s.take(k@) =~= s); } break; }
            Some(x) => {
                proof {
                    assert(s.take(k@ + 1).drop_last() =~= s.take(k@));
                    assert(s.take(k@ + 1).last() == x);
                    lemma_sum_mono(s, k@ + 1);
                    assert(s.skip(k@).drop_first() =~= s.skip(k@ + 1));
                }
                t = t + x;
                proof { k@ = k@ + 1; }
            }
        }
    }
    t
}
proof fn lemma_sum_mono(s: Seq<usize>, n: int)
    requires 0 <= n <= s.len(),
    ensures 0 <= seq_sum(s.take(n)) <= seq_sum(s),
    decreases s.len(),
{
    if n == s.len() {
        assert(s.take(n) =~= s);
        if n > 0 { lemma_sum_mono(s.drop_last(), n - 1); }
    } else {
        lemma_sum_mono(s.drop_last(), n);
        assert(s.drop_last().take(n) =~= s.take(n));
    }
}

broadcast proof fn lemma_row_sum<'a, T: TdmsStorageType>(s: Seq<usize>, es: Seq<RecordEntry<'a, T>>, n: int)
    requires
        s.len() <= n,
        n == es.len(),
        sizes_ok(es),
        forall|i: int| 0 <= i < s.len() ==> s[i] == esize(#[trigger] es[i]),
    ensures
        #[trigger] seq_sum(s) <= #[trigger] row_off(es, n),
        s.len() == n ==> seq_sum(s) == row_off(es, n),
{
    lemma_row_sum_rec(s, es, s.len() as int);
    lemma_offs(es, s.len() as int, n);
}
proof fn lemma_row_sum_rec<'a, T: TdmsStorageType>(s: Seq<usize>, es: Seq<RecordEntry<'a, T>>, n: int)
    requires
        s.len() == n,
        n <= es.len(),
        forall|i: int| 0 <= i < n ==> s[i] == esize(#[trigger] es[i]),
    ensures seq_sum(s) == row_off(es, n),
    decreases n,
{
    if n > 0 {
        lemma_row_sum_rec(s.drop_last(), es, n - 1);
        assert(s[n - 1] == esize(es[n - 1]));
    }
}

broadcast proof fn lemma_chunk_sum<'a, T: TdmsStorageType>(s: Seq<usize>, es: Seq<RecordEntry<'a, T>>, n: int)
    requires
        s.len() <= n,
        n == es.len(),
        sizes_ok(es),
        forall|i: int| 0 <= i < s.len() ==> s[i] == esize(#[trigger] es[i]) * es[i].length,
    ensures
        #[trigger] seq_sum(s) <= #[trigger] chunk_off(es, n),
        s.len() == n ==> seq_sum(s) == chunk_off(es, n),
{
    lemma_chunk_sum_rec(s, es, s.len() as int);
    lemma_offs(es, s.len() as int, n);
}
proof fn lemma_chunk_sum_rec<'a, T: TdmsStorageType>(s: Seq<usize>, es: Seq<RecordEntry<'a, T>>, n: int)
    requires
        s.len() == n,
        n <= es.len(),
        forall|i: int| 0 <= i < n ==> s[i] == esize(#[trigger] es[i]) * es[i].length,
    ensures seq_sum(s) == chunk_off(es, n),
    decreases n,
{
    if n > 0 {
        lemma_chunk_sum_rec(s.drop_last(), es, n - 1);
        assert(s[n - 1] == esize(es[n - 1]) * es[n - 1].length);
    }
}
// ---- block skips
spec fn with_skip<'a, T: TdmsStorageType>(e: RecordEntry<'a, T>, s: u64) -> RecordEntry<'a, T> {
    match e.plan {
        RecordEntryPlan::Read { output, .. } => RecordEntry { length: e.length, plan: RecordEntryPlan::Read { output, block_skip: s } },
        RecordEntryPlan::Skip(_) => e,
    }
}
spec fn skip_of<'a, T: TdmsStorageType>(e: RecordEntry<'a, T>) -> Option<u64> {
    match e.plan {
        RecordEntryPlan::Read { block_skip, .. } => Some(block_skip),
        RecordEntryPlan::Skip(_) => None,
    }
}
spec fn nreads<'a, T: TdmsStorageType>(es: Seq<RecordEntry<'a, T>>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { nreads(es, n - 1) + if is_read(es[n - 1]) { 1int } else { 0 } }
}
proof fn lemma_nreads<'a, T: TdmsStorageType>(es: Seq<RecordEntry<'a, T>>, i: int, j: int)
    requires 0 <= i <= j <= es.len(),
    ensures 0 <= nreads(es, i) <= nreads(es, j), i < j && is_read(es[i]) ==> nreads(es, i) < nreads(es, j),
    decreases j,
{
    if i < j { lemma_nreads(es, i, j - 1); } else if j > 0 { lemma_nreads(es, j - 1, j - 1); }
}
/// The skips of the entries to read, in order.
spec fn skips<'a, T: TdmsStorageType>(es: Seq<RecordEntry<'a, T>>) -> Seq<u64> {
    somes(es.map_values(|e: RecordEntry<'a, T>| skip_of(e)))
}
/// `filter_map` with a closure that picks the skips.
fn vs_skips<'a, 'o, T: TdmsStorageType, F: Fn(&'a RecordEntry<'o, T>) -> Option<u64>>(it: std::slice::Iter<'a, RecordEntry<'o, T>>, f: F) -> (r: std::vec::IntoIter<u64>)
    requires
        forall|e: &'a RecordEntry<'o, T>| #[trigger] f.requires((e,)),
        forall|e: &'a RecordEntry<'o, T>, x: Option<u64>| #[trigger] f.ensures((e,), x) ==> x == skip_of(*e),
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        forall|es: Seq<RecordEntry<'o, T>>| es.len() == IteratorSpec::remaining(&it).len() && (forall|i: int| 0 <= i < es.len() ==> *IteratorSpec::remaining(&it)[i] == #[trigger] es[i]) ==> IteratorSpec::remaining(&r) == #[trigger] skips(es),
{
    let ghost s = IteratorSpec::remaining(&it);
    let r = vs_filter_map(it, f);
    proof {
        let rr = IteratorSpec::remaining(&r);
        assert forall|es: Seq<RecordEntry<'o, T>>| es.len() == s.len() && (forall|i: int| 0 <= i < es.len() ==> *s[i] == #[trigger] es[i]) implies rr == #[trigger] skips(es) by {
            let o = choose|o: Seq<Option<u64>>| #[trigger] filter_map_with(s, f, rr, o);
            assert forall|i: int| 0 <= i < o.len() implies o[i] == skip_of(#[trigger] es[i]) by { assert(f.ensures((s[i],), o[i])); }
            assert(o =~= es.map_values(|e: RecordEntry<'o, T>| skip_of(e)));
        }
    }
    r
}
spec fn nsome<U>(o: Seq<Option<U>>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { nsome(o, n - 1) + if o[n - 1] is Some { 1int } else { 0 } }
}
proof fn lemma_somes<U>(o: Seq<Option<U>>, n: int)
    requires 0 <= n <= o.len(),
    ensures
        somes(o.take(n)).len() == nsome(o, n),
        0 <= nsome(o, n) <= n,
        forall|i: int| #![trigger o[i]] 0 <= i < n && o[i] is Some ==> 0 <= nsome(o, i) < nsome(o, n) && somes(o.take(n))[nsome(o, i)] == o[i]->Some_0,
    decreases n,
{
    if n > 0 {
        lemma_somes(o, n - 1);
        assert(o.take(n).drop_last() =~= o.take(n - 1));
        assert(o.take(n).last() == o[n - 1]);
    } else {
        assert(o.take(n) =~= Seq::<Option<U>>::empty());
    }
}
/// Where the entry `x` of `somes` comes from.
proof fn lemma_somes_from<U>(o: Seq<Option<U>>, n: int, x: int) -> (e: int)
    requires 0 <= n <= o.len(), 0 <= x < somes(o.take(n)).len(),
    ensures 0 <= e < n, o[e] is Some, o[e]->Some_0 == somes(o.take(n))[x],
    decreases n,
{
    if n == 0 {
        assert(o.take(0) =~= Seq::<Option<U>>::empty());
        0
    } else {
        assert(o.take(n).drop_last() =~= o.take(n - 1));
        assert(o.take(n).last() == o[n - 1]);
        if x < somes(o.take(n - 1)).len() { lemma_somes_from(o, n - 1, x) } else { n - 1 }
    }
}
proof fn lemma_nsome_nreads<'a, T: TdmsStorageType, U>(o: Seq<Option<U>>, es: Seq<RecordEntry<'a, T>>, n: int)
    requires
        0 <= n <= o.len(),
        o.len() == es.len(),
        forall|i: int| 0 <= i < o.len() ==> (o[i] is Some <==> is_read(#[trigger] es[i])),
    ensures nsome(o, n) == nreads(es, n),
    decreases n,
{
    if n > 0 { lemma_nsome_nreads(o, es, n - 1); assert(is_read(es[n - 1]) || !is_read(es[n - 1])); }
}
fn vs_skips_mut<'a, 'o, T: TdmsStorageType, F: Fn(&'a mut RecordEntry<'o, T>) -> Option<&'a mut u64>>(it: std::slice::IterMut<'a, RecordEntry<'o, T>>, f: F) -> (r: std::vec::IntoIter<&'a mut u64>)
    requires
        forall|e: &'a mut RecordEntry<'o, T>| #[trigger] f.requires((e,)),
        forall|e: &'a mut RecordEntry<'o, T>, x: Option<&'a mut u64>| #[trigger] f.ensures((e,), x) ==> skip_mut_of(*e, *final(e), x),
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::decrease(&r) is Some,
        forall|old: Seq<RecordEntry<'o, T>>, new: Seq<RecordEntry<'o, T>>|
            old.len() == IteratorSpec::remaining(&it).len() && new.len() == old.len()
            && (forall|i: int| 0 <= i < old.len() ==> *IteratorSpec::remaining(&it)[i] == #[trigger] old[i])
            && (forall|i: int| 0 <= i < old.len() ==> *final(IteratorSpec::remaining(&it)[i]) == #[trigger] new[i])
            ==> #[trigger] skips_mut(old, new, IteratorSpec::remaining(&r)),
{
    let ghost s = IteratorSpec::remaining(&it);
    let r = vs_filter_map(it, f);
    proof {
        let rr = IteratorSpec::remaining(&r);
        assert forall|old: Seq<RecordEntry<'o, T>>, new: Seq<RecordEntry<'o, T>>|
            old.len() == s.len() && new.len() == old.len()
            && (forall|i: int| 0 <= i < old.len() ==> *s[i] == #[trigger] old[i])
            && (forall|i: int| 0 <= i < old.len() ==> *final(s[i]) == #[trigger] new[i])
            implies #[trigger] skips_mut(old, new, rr) by {
            let o = choose|o: Seq<Option<&'a mut u64>>| #[trigger] filter_map_with(s, f, rr, o);
            assert forall|i: int| 0 <= i < o.len() implies skip_mut_of(#[trigger] old[i], new[i], o[i]) by { assert(f.ensures((s[i],), o[i])); }
            lemma_nsome_nreads(o, old, old.len() as int);
            lemma_somes(o, old.len() as int);
            assert(o.take(old.len() as int) =~= o);
            assert forall|e: int| 0 <= e < old.len() implies if is_read(#[trigger] old[e]) {
                *rr[nreads(old, e)] == eskip(old[e]) && new[e] == with_skip(old[e], *final(rr[nreads(old, e)]))
            } else {
                new[e] == old[e]
            } by {
                lemma_nsome_nreads(o, old, e);
                assert(skip_mut_of(old[e], new[e], o[e]));
            }
        }
    }
    r
}
#[verifier::prophetic]
spec fn skip_mut_of<'a, T: TdmsStorageType>(old: RecordEntry<'a, T>, new: RecordEntry<'a, T>, r: Option<&mut u64>) -> bool {
    match r {
        Some(p) => is_read(old) && *p == eskip(old) && new == with_skip(old, *final(p)),
        None => !is_read(old) && new == old,
    }
}
#[verifier::prophetic]
spec fn skips_mut<'a, T: TdmsStorageType>(old: Seq<RecordEntry<'a, T>>, new: Seq<RecordEntry<'a, T>>, r: Seq<&mut u64>) -> bool {
    &&& new.len() == old.len()
    &&& r.len() == nreads(old, old.len() as int)
    &&& forall|e: int| 0 <= e < old.len() ==> if is_read(#[trigger] old[e]) {
        *r[nreads(old, e)] == eskip(old[e]) && new[e] == with_skip(old[e], *final(r[nreads(old, e)]))
    } else {
        new[e] == old[e]
    }
}
// ---- building a plan
spec fn base_plan<'a, T: TdmsStorageType>(channels: Seq<RawDataMeta>, es: Seq<RecordEntry<'a, T>>) -> bool {
    &&& es.len() == channels.len()
    &&& forall|i: int| 0 <= i < es.len() ==> base_entry(channels[i], #[trigger] es[i])
}
spec fn base_entry<'a, T: TdmsStorageType>(c: RawDataMeta, e: RecordEntry<'a, T>) -> bool {
    e.length == c.number_of_values as usize && e.plan is Skip && e.plan->Skip_0 == dt_size(c.data_type)
}
/// The outputs name existing channels, each at most once.
spec fn outs_ok<T>(outputs: Seq<(usize, &mut [T])>, n: int) -> bool {
    &&& forall|k: int| 0 <= k < outputs.len() ==> (#[trigger] outputs[k]).0 < n
    &&& forall|j: int, k: int| 0 <= j < k < outputs.len() ==> (#[trigger] outputs[j]).0 != (#[trigger] outputs[k]).0
}
/// An output which wants samples is of a channel which has some in every chunk.
spec fn outs_fed<T>(cs: Seq<RawDataMeta>, outs: Seq<(usize, &mut [T])>) -> bool {
    forall|k: int| 0 <= k < outs.len() && (#[trigger] outs[k]).1@.len() > 0 ==> cs[outs[k].0 as int].number_of_values >= 1
}
/// `e` reads into the cells of the output `o`, whose value is `o2` when the plan is gone.
#[verifier::prophetic]
spec fn reads_into<'a, T: TdmsStorageType>(e: RecordEntry<'a, T>, o: (usize, &mut [T]), o2: (usize, &mut [T])) -> bool {
    &&& is_read(e)
    &&& eskip(e) == 0
    &&& rem(e).len() == o.1@.len()
    &&& o2.1@.len() == o.1@.len()
    &&& o2.0 == o.0
    &&& final(o2.1)@ == final(o.1)@
    &&& forall|i: int| 0 <= i < o.1@.len() ==> *#[trigger] rem(e)[i] == o.1@[i] && *final(rem(e)[i]) == o2.1@[i]
}
#[verifier::prophetic]
spec fn plan_set_to<'a, T: TdmsStorageType>(old: Seq<RecordEntry<'a, T>>, new: Seq<RecordEntry<'a, T>>, outs: Seq<(usize, &mut [T])>, outs2: Seq<(usize, &mut [T])>, n: int) -> bool {
    &&& new.len() == old.len()
    &&& forall|k: int| 0 <= k < n ==> reads_into(new[(#[trigger] outs[k]).0 as int], outs[k], outs2[k])
    &&& forall|i: int| 0 <= i < new.len() ==> (#[trigger] new[i]).length == old[i].length
    &&& forall|i: int| 0 <= i < new.len() && !picked(outs, i, n) ==> #[trigger] new[i] == old[i]
}
spec fn picked<T>(outs: Seq<(usize, &mut [T])>, i: int, n: int) -> bool {
    exists|k: int| 0 <= k < n && (#[trigger] outs[k]).0 == i
}
spec fn types_match<T: TdmsStorageType>(c: RawDataMeta) -> bool {
    T::SUPPORTED_TYPES@.contains(c.data_type) && dt_size(c.data_type) != 0
}

/// What a plan built for `channels` and `outs` is.
#[verifier::prophetic]
spec fn built<'a, T: TdmsStorageType>(channels: Seq<RawDataMeta>, es: Seq<RecordEntry<'a, T>>, outs: Seq<(usize, &mut [T])>, outs2: Seq<(usize, &mut [T])>) -> bool {
    &&& es.len() == channels.len()
    &&& outs2.len() == outs.len()
    &&& forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).length == channels[i].number_of_values as usize && esize(es[i]) == dt_size(channels[i].data_type)
    &&& forall|k: int| 0 <= k < outs.len() ==> reads_into(es[(#[trigger] outs[k]).0 as int], outs[k], outs2[k]) && types_match::<T>(channels[outs[k].0 as int])
    &&& forall|i: int| 0 <= i < es.len() && !picked(outs, i, outs.len() as int) ==> !is_read(#[trigger] es[i])
}
spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
spec fn plan_ok<'a, T: TdmsStorageType>(es: Seq<RecordEntry<'a, T>>) -> bool {
    &&& forall|i: int| 0 <= i < es.len() ==> 0 <= esize(#[trigger] es[i]) <= 255 && (is_read(es[i]) ==> T::fixed())
}
/// One chunk of a contiguous block is behind us: `a` became `b`, its samples start at `p`.
#[verifier::prophetic]
spec fn sub_done<'a, T: TdmsStorageType>(a: RecordEntry<'a, T>, b: RecordEntry<'a, T>, p: int, by: Seq<u8>, big: bool) -> bool {
    let s = imin(eskip(a), a.length as int);
    let cnt = imin(a.length - s, rem(a).len() as int);
    if is_read(a) {
        &&& is_read(b)
        &&& b.length == a.length
        &&& eskip(b) == eskip(a) - s
        &&& rem(b) == rem(a).skip(cnt)
        &&& forall|i: int| 0 <= i < cnt ==> *final(#[trigger] rem(a)[i]) == sample_at::<T>(by, p + s * T::SIZE_BYTES + i * T::SIZE_BYTES, big)
    } else {
        b == a
    }
}
// ---- how long a read can take (M01)
/// The most samples any entry skips and wants together: what was asked for, whatever the file claims.
#[verifier::prophetic]
spec fn needed<'a, T: TdmsStorageType>(es: Seq<RecordEntry<'a, T>>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { imax(needed(es, n - 1), if is_read(es[n - 1]) { eskip(es[n - 1]) + rem(es[n - 1]).len() } else { 0 }) }
}
proof fn lemma_needed<'a, T: TdmsStorageType>(es: Seq<RecordEntry<'a, T>>, e: int, n: int)
    requires 0 <= n <= es.len(),
    ensures 0 <= needed(es, n), 0 <= e < n && is_read(es[e]) ==> eskip(es[e]) + rem(es[e]).len() <= needed(es, n),
    decreases n,
{
    if n > 0 { lemma_needed(es, if e == n - 1 { 0 } else { e }, n - 1); }
}
/// Every entry which wants samples has some in every chunk.
#[verifier::prophetic]
spec fn fed<'a, T: TdmsStorageType>(es: Seq<RecordEntry<'a, T>>) -> bool {
    forall|e: int| 0 <= e < es.len() && is_read(#[trigger] es[e]) && rem(es[e]).len() > 0 ==> es[e].length >= 1
}
/// After `q` chunks an entry is served if `q` is what it needs.
proof fn lemma_turn<'a, T: TdmsStorageType>(es: Seq<RecordEntry<'a, T>>, c: Seq<RecordEntry<'a, T>>, q: int, st: int, cs: int, by: Seq<u8>, big: bool)
    requires
        fed(es),
        c.len() == es.len(),
        0 <= q,
        forall|e: int| 0 <= e < es.len() ==> progress(#[trigger] es[e], c[e], q, st, cs, chunk_off(es, e), by, big),
    ensures q < needed(es, es.len() as int) || (forall|e: int| 0 <= e < es.len() ==> rem(#[trigger] c[e]).len() == 0),
{
    assert forall|e: int| 0 <= e < es.len() && rem(#[trigger] c[e]).len() != 0 implies q < needed(es, es.len() as int) by {
        assert(progress(es[e], c[e], q, st, cs, chunk_off(es, e), by, big));
        lemma_needed(es, e, es.len() as int);
        assert(rem(es[e]).len() > 0);
        assert(q <= q * es[e].length) by (nonlinear_arith) requires 0 <= q, es[e].length >= 1;
    }
}
// ---- contiguous blocks
/// Where sample `g` of an entry is: chunk g / L, place g % L in it.
spec fn contig_pos(st: int, cs: int, off: int, sz: int, len: int, g: int) -> int {
    st + (g / len) * cs + off + (g % len) * sz
}
/// Cell `i` of an entry holds its sample, or is as it was where the block has none.
#[verifier::prophetic]
spec fn contig_cell<'a, T: TdmsStorageType>(e: RecordEntry<'a, T>, i: int, st: int, chunks: int, cs: int, off: int, by: Seq<u8>, big: bool) -> bool {
    let g = i + eskip(e);
    *final(rem(e)[i]) == if g < chunks * e.length {
        sample_at::<T>(by, contig_pos(st, cs, off, T::SIZE_BYTES as int, e.length as int, g), big)
    } else {
        *rem(e)[i]
    }
}
#[verifier::prophetic]
spec fn contig_post<'a, T: TdmsStorageType>(es: Seq<RecordEntry<'a, T>>, st: int, bs: int, by: Seq<u8>, big: bool) -> bool {
    let cs = chunk_off(es, es.len() as int);
    forall|e: int, i: int| #![trigger rem(es[e])[i]] 0 <= e < es.len() && 0 <= i < rem(es[e]).len() ==> contig_cell(es[e], i, st, bs / cs, cs, chunk_off(es, e), by, big)
}
spec fn consumed(len: int, skip: int, cells: int, q: int) -> int {
    imin(imax(0, q * len - skip), cells)
}
/// After `q` chunks entry `a` has become `c`.
#[verifier::prophetic]
spec fn progress<'a, T: TdmsStorageType>(a: RecordEntry<'a, T>, c: RecordEntry<'a, T>, q: int, st: int, cs: int, off: int, by: Seq<u8>, big: bool) -> bool {
    &&& c.length == a.length
    &&& is_read(c) == is_read(a)
    &&& !is_read(a) ==> c == a
    &&& is_read(a) ==> {
        let k = consumed(a.length as int, eskip(a), rem(a).len() as int, q);
        &&& eskip(c) == imax(0, eskip(a) - q * a.length)
        &&& rem(c) == rem(a).skip(k)
        &&& forall|i: int| 0 <= i < k ==> *final(#[trigger] rem(a)[i]) == sample_at::<T>(by, contig_pos(st, cs, off, T::SIZE_BYTES as int, a.length as int, i + eskip(a)), big)
    }
}
proof fn lemma_same_offs<'a, T: TdmsStorageType>(a: Seq<RecordEntry<'a, T>>, b: Seq<RecordEntry<'a, T>>, n: int)
    requires
        n <= a.len(),
        a.len() == b.len(),
        forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).length == b[i].length && esize(a[i]) == esize(b[i]),
    ensures chunk_off(a, n) == chunk_off(b, n), row_off(a, n) == row_off(b, n),
    decreases n,
{
    if n > 0 { lemma_same_offs(a, b, n - 1); assert(a[n - 1].length == b[n - 1].length); }
}
proof fn lemma_progress<'a, T: TdmsStorageType>(a: RecordEntry<'a, T>, b: RecordEntry<'a, T>, c: RecordEntry<'a, T>, q: int, st: int, cs: int, off: int, by: Seq<u8>, big: bool)
    requires
        0 <= q,
        progress(a, b, q, st, cs, off, by, big),
        sub_done(b, c, st + q * cs + off, by, big),
    ensures progress(a, c, q + 1, st, cs, off, by, big),
{
    let len = a.length as int;
    assert((q + 1) * len == q * len + len) by (nonlinear_arith);
    assert(0 <= q * len) by (nonlinear_arith) requires 0 <= q, 0 <= len;
    if is_read(a) {
        let sk = eskip(a);
        let n = rem(a).len() as int;
        let k = consumed(len, sk, n, q);
        let k1 = consumed(len, sk, n, q + 1);
        let s = imin(eskip(b), len);
        let cnt = imin(len - s, rem(b).len() as int);
        assert(k1 == k + cnt);
        assert(rem(a).skip(k).skip(cnt) =~= rem(a).skip(k1));
        let sz = T::SIZE_BYTES as int;
        assert forall|i: int| 0 <= i < k1 implies *final(#[trigger] rem(a)[i]) == sample_at::<T>(by, contig_pos(st, cs, off, sz, len, i + sk), big) by {
            if i >= k {
                let j = i - k;
                assert(rem(b)[j] == rem(a)[i]);
                let g = i + sk;
                assert(g == q * len + (s + j));
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(g, len, q, s + j);
                assert((s + j) * sz == s * sz + j * sz) by (nonlinear_arith);
            }
        }
    }
}
proof fn lemma_contig_end<'a, T: TdmsStorageType>(a: RecordEntry<'a, T>, c: RecordEntry<'a, T>, q: int, chunks: int, i: int, st: int, cs: int, off: int, by: Seq<u8>, big: bool)
    requires
        0 <= q <= chunks,
        progress(a, c, q, st, cs, off, by, big),
        q == chunks || rem(c).len() == 0,
        0 <= i < rem(a).len(),
        is_read(c) ==> has_resolved(c.plan->output),
    ensures contig_cell(a, i, st, chunks, cs, off, by, big),
{
    let len = a.length as int;
    let k = consumed(len, eskip(a), rem(a).len() as int, q);
    assert(q * len <= chunks * len) by (nonlinear_arith) requires q <= chunks, 0 <= len;
    assert(is_read(a));
    if i < k {
    } else {
        assert(rem(c)[i - k] == rem(a)[i]);
        assert(has_resolved(rem(c)[i - k]));
    }
}

// ---- interleaved blocks
/// `Iterator::min`.
#[verifier::exec_allows_no_decreases_clause]
fn vs_min<I: Iterator<Item = u64>>(it: I) -> (r: Option<u64>)
    requires IteratorSpec::obeys_prophetic_iter_laws(&it),
    ensures
        r is None <==> IteratorSpec::remaining(&it).len() == 0,
        r is Some ==> IteratorSpec::remaining(&it).contains(r->Some_0),
        forall|i: int| 0 <= i < IteratorSpec::remaining(&it).len() ==> r->Some_0 <= #[trigger] IteratorSpec::remaining(&it)[i],
{
    let mut it = it;
    let ghost s = IteratorSpec::remaining(&it);
    let ghost mut k: int = 0;
    let mut r: Option<u64> = None;
    proof { assert(s.skip(0) =~= s); }
    loop
        invariant
            IteratorSpec::obeys_prophetic_iter_laws(&it),
            0 <= k <= s.len(),
            IteratorSpec::remaining(&it) == s.skip(k),
            r is None <==> k == 0,
            r is Some ==> s.contains(r->Some_0),
            forall|i: int| 0 <= i < k ==> r->Some_0 <= #[trigger] s[i],
        ensures k == s.len(),
    {
        match it.next() {
            None => break,
            Some(x) => {
                proof { assert(x == s[k]); assert(s.skip(k).drop_first() =~= s.skip(k + 1)); }
                r = match r { None => Some(x), Some(y) => if x < y { Some(x) } else { Some(y) } };
                proof { k = k + 1; }
            },
        }
    }
    r
}
spec fn inter_pos(st: int, row: int, off: int, g: int) -> int {
    st + g * row + off
}
#[verifier::prophetic]
spec fn inter_cell<'a, T: TdmsStorageType>(e: RecordEntry<'a, T>, i: int, st: int, rows: int, row: int, off: int, by: Seq<u8>, big: bool) -> bool {
    let g = i + eskip(e);
    *final(rem(e)[i]) == if g < rows { sample_at::<T>(by, inter_pos(st, row, off, g), big) } else { *rem(e)[i] }
}
#[verifier::prophetic]
spec fn inter_post<'a, T: TdmsStorageType>(es: Seq<RecordEntry<'a, T>>, st: int, bs: int, by: Seq<u8>, big: bool) -> bool {
    let row = row_off(es, es.len() as int);
    forall|e: int, i: int| #![trigger rem(es[e])[i]] 0 <= e < es.len() && 0 <= i < rem(es[e]).len() ==> inter_cell(es[e], i, st, bs / row, row, row_off(es, e), by, big)
}
/// With rows `0..r` of the block behind us (`m` of them jumped over), entry `a` has become `c`.
#[verifier::prophetic]
spec fn iprogress<'a, T: TdmsStorageType>(a: RecordEntry<'a, T>, c: RecordEntry<'a, T>, m: int, r: int, st: int, row: int, off: int, by: Seq<u8>, big: bool) -> bool {
    &&& c.length == a.length
    &&& is_read(c) == is_read(a)
    &&& !is_read(a) ==> c == a
    &&& is_read(a) ==> {
        let k = imin(imax(0, r - eskip(a)), rem(a).len() as int);
        &&& eskip(c) == eskip(a) - m
        &&& rem(c) == rem(a).skip(k)
        &&& forall|i: int| 0 <= i < k ==> *final(#[trigger] rem(a)[i]) == sample_at::<T>(by, inter_pos(st, row, off, i + eskip(a)), big)
    }
}
/// One row is behind us: `a` became `b`, its sample is at `p`.
#[verifier::prophetic]
spec fn row_done<'a, T: TdmsStorageType>(a: RecordEntry<'a, T>, b: RecordEntry<'a, T>, r: int, p: int, by: Seq<u8>, big: bool) -> bool {
    if is_read(a) {
        &&& is_read(b)
        &&& b.length == a.length
        &&& eskip(b) == eskip(a)
        &&& r < eskip(a) || rem(a).len() == 0 ==> rem(b) == rem(a)
        &&& r >= eskip(a) && rem(a).len() > 0 ==> rem(b) == rem(a).drop_first() && *final(rem(a)[0]) == sample_at::<T>(by, p, big)
    } else {
        b == a
    }
}
proof fn lemma_iprogress<'a, T: TdmsStorageType>(a: RecordEntry<'a, T>, b: RecordEntry<'a, T>, c: RecordEntry<'a, T>, m: int, r: int, st: int, row: int, off: int, by: Seq<u8>, big: bool)
    requires
        0 <= r,
        0 <= m,
        iprogress(a, b, m, m + r, st, row, off, by, big),
        row_done(b, c, r, st + (m + r) * row + off, by, big),
    ensures iprogress(a, c, m, m + r + 1, st, row, off, by, big),
{
    if is_read(a) {
        let n = rem(a).len() as int;
        let k = imin(imax(0, m + r - eskip(a)), n);
        let k1 = imin(imax(0, m + r + 1 - eskip(a)), n);
        if k1 == k {
            assert(rem(c) == rem(a).skip(k1));
        } else {
            assert(rem(b)[0] == rem(a)[k]);
            assert(rem(a).skip(k).drop_first() =~= rem(a).skip(k1));
        }
    }
}
proof fn lemma_inter_end<'a, T: TdmsStorageType>(a: RecordEntry<'a, T>, c: RecordEntry<'a, T>, m: int, r: int, rows: int, i: int, st: int, row: int, off: int, by: Seq<u8>, big: bool)
    requires
        0 <= m,
        r <= rows,
        iprogress(a, c, m, r, st, row, off, by, big),
        r == rows || rem(c).len() == 0,
        0 <= i < rem(a).len(),
        is_read(c) ==> has_resolved(c.plan->output),
    ensures inter_cell(a, i, st, rows, row, off, by, big),
{
    let k = imin(imax(0, r - eskip(a)), rem(a).len() as int);
    assert(is_read(a));
    if i >= k {
        assert(rem(c)[i - k] == rem(a)[i]);
        assert(has_resolved(rem(c)[i - k]));
    }
}
/// The smallest skip of the entries to read, bounded by the rows of the block.
proof fn lemma_min_skip<'a, T: TdmsStorageType>(es: Seq<RecordEntry<'a, T>>, mn: Option<u64>, rows: int, bs: int, rw: int)
    requires
        mn is None <==> skips(es).len() == 0,
        mn is Some ==> skips(es).contains(mn->Some_0),
        forall|i: int| 0 <= i < skips(es).len() ==> mn->Some_0 <= #[trigger] skips(es)[i],
        rw > 0,
        bs >= 0,
        rows == bs / rw,
    ensures
        rows * rw <= bs,
        ({
            let m = match mn { Some(x) => imin(x as int, rows), None => 0 };
            &&& 0 <= m <= rows
            &&& 0 <= m * rw <= rows * rw
            &&& m <= m * rw
            &&& m > 0 ==> rw <= m * rw
            &&& m == 0 ==> m * rw == 0
            &&& forall|e: int| 0 <= e < es.len() && is_read(#[trigger] es[e]) ==> m <= eskip(es[e])
        }),
{
    let n = es.len() as int;
    let m = match mn { Some(x) => imin(x as int, rows), None => 0 };
    let o = es.map_values(|e: RecordEntry<T>| skip_of(e));
    lemma_nsome_nreads(o, es, n);
    lemma_somes(o, n);
    assert(o.take(n) =~= o);
    lemma_rows(bs, rw, rows, m);
    assert forall|e: int| 0 <= e < n && is_read(#[trigger] es[e]) implies m <= eskip(es[e]) by {
        assert(o[e] is Some);
        let j = nsome(o, e);
        assert(skips(es)[j] == eskip(es[e]));
        assert(mn->Some_0 <= skips(es)[j]);
    }
}
proof fn lemma_rows(bs: int, rw: int, rows: int, m: int)
    requires rw > 0, bs >= 0, rows == bs / rw, 0 <= m <= rows || (rows >= 0 ==> 0 <= m <= rows),
    ensures
        0 <= m <= rows,
        rows * rw <= bs,
        0 <= m * rw <= rows * rw,
        m <= m * rw,
        m > 0 ==> rw <= m * rw,
        m == 0 ==> m * rw == 0,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(bs, rw);
    assert(bs / rw >= 0) by (nonlinear_arith) requires bs >= 0, rw > 0;
    assert(rw * (bs / rw) == (bs / rw) * rw) by (nonlinear_arith);
    assert(m * rw <= rows * rw) by (nonlinear_arith) requires m <= rows, rw > 0;
    assert(0 <= m * rw && m <= m * rw) by (nonlinear_arith) requires 0 <= m, rw > 0;
    assert(m > 0 ==> rw <= m * rw) by (nonlinear_arith) requires 0 <= m, rw > 0;
}
#[verifier::prophetic]
spec fn lowered(sk: Seq<&mut u64>, m: int) -> bool {
    forall|j: int| 0 <= j < sk.len() ==> *final(#[trigger] sk[j]) == (if *sk[j] >= m { *sk[j] - m } else { 0 }) as u64
}
/// Every skip lowered by the rows skipped together: no entry has progressed yet.
proof fn lemma_iprogress_start<'a, T: TdmsStorageType>(es: Seq<RecordEntry<'a, T>>, c: Seq<RecordEntry<'a, T>>, m: int, st: int, rw: int, by: Seq<u8>, big: bool)
    requires
        plan_ok(es),
        forall|e: int| 0 <= e < es.len() && is_read(#[trigger] es[e]) ==> m <= eskip(es[e]),
        0 <= m,
        exists|sk: Seq<&mut u64>| #[trigger] skips_mut(es, c, sk) && lowered(sk, m),
    ensures
        forall|e: int| 0 <= e < es.len() ==> iprogress(#[trigger] es[e], c[e], m, m, st, rw, row_off(es, e), by, big),
{
    let sk = choose|sk: Seq<&mut u64>| #[trigger] skips_mut(es, c, sk) && lowered(sk, m);
    assert forall|e: int| 0 <= e < es.len() implies iprogress(#[trigger] es[e], c[e], m, m, st, rw, row_off(es, e), by, big) by {
        if is_read(es[e]) {
            lemma_nreads(es, 0, e);
            lemma_nreads(es, e, e + 1);
            lemma_nreads(es, e + 1, es.len() as int);
            assert(rem(es[e]).skip(0) =~= rem(es[e]));
        }
    }
}
