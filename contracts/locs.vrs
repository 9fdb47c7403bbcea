// ---- the locations of a channel
/// Samples in the first n locations.
spec fn prefix(p: Seq<DataLocation>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { prefix(p, n - 1) + p[n - 1].number_of_samples }
}
proof fn lemma_prefix(p: Seq<DataLocation>, i: int, j: int)
    requires 0 <= i <= j <= p.len(),
    ensures 0 <= prefix(p, i) <= prefix(p, j),
    decreases j,
{
    if j > i { lemma_prefix(p, i, j - 1); } else if j > 0 { lemma_prefix(p, j - 1, j - 1); }
}
/// The locations of a channel are in the order of the blocks.
spec fn sorted(p: Seq<DataLocation>) -> bool {
    forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).data_block < (#[trigger] p[j]).data_block
}
