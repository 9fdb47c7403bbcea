// ---- `Iterator::fold` with a sum which stops at the largest number
spec fn total(s: Seq<u64>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { total(s, n - 1) + s[n - 1] }
}
#[verifier::exec_allows_no_decreases_clause]
fn vs_fold_sum<I: Iterator<Item = u64>, F: Fn(u64, u64) -> u64>(it: I, init: u64, f: F) -> (r: u64)
    requires
        IteratorSpec::obeys_prophetic_iter_laws(&it),
        init == 0,
        forall|b: u64, a: u64| #[trigger] f.requires((b, a)),
        forall|b: u64, a: u64, r: u64| #[trigger] f.ensures((b, a), r) ==> r == imin(b + a, u64::MAX as int),
    ensures
        r == imin(total(IteratorSpec::remaining(&it), IteratorSpec::remaining(&it).len() as int), u64::MAX as int),
{
    let ghost s = IteratorSpec::remaining(&it);
    let mut it = it;
    let mut acc = init;
    let ghost mut k: int = 0;
    proof { assert(s.skip(0) =~= s); }
    loop
        invariant_except_break
            IteratorSpec::obeys_prophetic_iter_laws(&it),
            IteratorSpec::remaining(&it) == s.skip(k),
        invariant
            forall|b: u64, a: u64| #[trigger] f.requires((b, a)),
            forall|b: u64, a: u64, r: u64| #[trigger] f.ensures((b, a), r) ==> r == imin(b + a, u64::MAX as int),
            0 <= k <= s.len(),
            acc == imin(total(s, k), u64::MAX as int),
            total(s, k) >= 0,
        ensures k == s.len(),
    {
        match it.next() {
            None => break,
            Some(x) => {
                proof { assert(s.skip(k).drop_first() =~= s.skip(k + 1)); assert(x == s[k]); }
                acc = f(acc, x);
                proof { k = k + 1; }
            },
        }
    }
    acc
}
proof fn lemma_total(p: Seq<DataLocation>, s: Seq<u64>, n: int)
    requires
        0 <= n <= p.len(),
        s.len() == p.len(),
        forall|i: int| 0 <= i < p.len() ==> #[trigger] s[i] == p[i].number_of_samples,
    ensures total(s, n) == prefix(p, n),
    decreases n,
{
    if n > 0 { lemma_total(p, s, n - 1); }
}

/// An iterator over all of a map of properties, each name once.
#[verifier::prophetic]
spec fn lists_all(it: std::collections::btree_map::Iter<'_, String, PropertyValue>, m: Map<String, PropertyValue>) -> bool {
    &&& IteratorSpec::obeys_prophetic_iter_laws(&it)
    &&& forall|i: int| 0 <= i < IteratorSpec::remaining(&it).len() ==> m.contains_key(*(#[trigger] IteratorSpec::remaining(&it)[i]).0) && m[*IteratorSpec::remaining(&it)[i].0] == *IteratorSpec::remaining(&it)[i].1
    &&& forall|k: String| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < IteratorSpec::remaining(&it).len() && *(#[trigger] IteratorSpec::remaining(&it)[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < IteratorSpec::remaining(&it).len() ==> *(#[trigger] IteratorSpec::remaining(&it)[i]).0 != *(#[trigger] IteratorSpec::remaining(&it)[j]).0
}
