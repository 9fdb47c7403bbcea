// ---- I01, P01: an opened file is the history of its segments
proof fn lemma_after_more(ss: Seq<Segment>, s: Segment, n: int)
    requires 0 <= n <= ss.len(),
    ensures after_segments(ss.push(s), n) == after_segments(ss, n),
    decreases n,
{
    if n > 0 { lemma_after_more(ss, s, n - 1); assert(ss.push(s)[n - 1] == ss[n - 1]); }
}
proof fn lemma_scan_history(b: Seq<u8>, ss: Seq<Segment>) -> (r: Seq<Segment>)
    requires
        all_ok(ss, ss.len() as int),
        scan(b, after_segments(ss, ss.len() as int)) is Some,
    ensures
        all_ok(r, r.len() as int),
        scan(b, after_segments(ss, ss.len() as int)) == Some(after_segments(r, r.len() as int)),
    decreases u64::MAX - after_segments(ss, ss.len() as int).next,
{
    let k = after_segments(ss, ss.len() as int);
    if k.next + 4 > b.len() { ss } else {
        let s = seg_parse(b.skip(k.next))->Some_0;
        let n = ss.len() as int;
        assert(seg_parse(b.skip(k.next)) is Some && segment_ok(k, s));
        lemma_parsed_plain(b.skip(k.next));
        let tt = ss.push(s);
        lemma_after_more(ss, s, n);
        assert(after_segments(tt, n + 1) == with_segment(after_segments(tt, n), tt[n]));
        assert(tt[n] == s);
        assert forall|i: int| 0 <= i < tt.len() implies segment_ok(after_segments(tt, i), #[trigger] tt[i]) && segment_plain(tt[i]) by {
            if i < n { lemma_after_more(ss, s, i); assert(tt[i] == ss[i]); assert(segment_ok(after_segments(ss, i), ss[i])); }
        }
        lemma_next_segment(k, s);
        assert(tt.len() == n + 1);
        lemma_scan_history(b, tt)
    }
}
/// What is known of an opened file (see the contract of `TdmsFile::new`) is what its segments lead to one after the other, each accepted:
/// what holds after every history of segments holds of every file.
proof fn theorem_opened(b: Seq<u8>) -> (r: Seq<Segment>)
    requires scan(b, nothing()) is Some,
    ensures
        all_ok(r, r.len() as int),
        scan(b, nothing()) == Some(after_segments(r, r.len() as int)),
{
    let e = Seq::<Segment>::empty();
    assert(after_segments(e, 0) == nothing());
    lemma_scan_history(b, e)
}
/// How many segments are read from the bytes (see scan), the one which is not accepted included.
spec fn scan_steps(b: Seq<u8>, k: Known) -> int
    decreases u64::MAX - k.next,
{
    if k.next + 4 > b.len() { 0 } else {
        match seg_parse(b.skip(k.next)) {
            Some(s) => if segment_ok(k, s) { 1 + scan_steps(b, with_segment(k, s)) } else { 1 },
            None => 1,
        }
    }
}
/// M01: indexing reads no more segments than there are lead-ins (of 28 bytes) in the bytes, whatever the segments claim.
proof fn lemma_scan_steps(b: Seq<u8>, k: Known)
    requires 0 <= k.next,
    ensures
        0 <= scan_steps(b, k),
        k.next + 4 <= b.len() ==> 28 * (scan_steps(b, k) - 1) <= b.len() - 4 - k.next,
        k.next + 4 > b.len() ==> scan_steps(b, k) == 0,
    decreases u64::MAX - k.next,
{
    if k.next + 4 <= b.len() {
        match seg_parse(b.skip(k.next)) {
            Some(s) => if segment_ok(k, s) { lemma_next_segment(k, s); lemma_scan_steps(b, with_segment(k, s)); },
            None => {},
        }
    }
}
proof fn theorem_segments_read(b: Seq<u8>)
    ensures 28 * scan_steps(b, nothing()) <= b.len() + 24,
{ lemma_scan_steps(b, nothing()); }
