// ---- a block of raw data
spec fn is_var(c: RawDataMeta) -> bool { c.total_size_bytes is Some }
/// Bytes of a channel in one chunk.
spec fn ch_bytes(c: RawDataMeta) -> int {
    match c.total_size_bytes { Some(t) => t as int, None => c.number_of_values * dt_size(c.data_type) }
}
spec fn any_var(cs: Seq<RawDataMeta>, n: int) -> bool {
    exists|i: int| 0 <= i < n && is_var(#[trigger] cs[i])
}
/// Bytes of the first n channels of a chunk.
spec fn bytes_of(cs: Seq<RawDataMeta>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { bytes_of(cs, n - 1) + ch_bytes(cs[n - 1]) }
}
/// Bytes of the first n channels of a row.
spec fn width_of(cs: Seq<RawDataMeta>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { width_of(cs, n - 1) + dt_size(cs[n - 1].data_type) }
}
proof fn lemma_ch_bytes(c: RawDataMeta)
    ensures 0 <= ch_bytes(c), 0 <= dt_size(c.data_type) <= 16,
{
    assert(0 <= c.number_of_values * dt_size(c.data_type)) by (nonlinear_arith) requires 0 <= c.number_of_values, 0 <= dt_size(c.data_type);
}
proof fn lemma_bytes_of(cs: Seq<RawDataMeta>, i: int, j: int)
    requires 0 <= i <= j <= cs.len(),
    ensures
        0 <= bytes_of(cs, i) <= bytes_of(cs, j),
        0 <= width_of(cs, i) <= width_of(cs, j) <= 16 * j,
        i < j ==> bytes_of(cs, i) + ch_bytes(cs[i]) <= bytes_of(cs, j),
        i < j ==> width_of(cs, i) + dt_size(cs[i].data_type) <= width_of(cs, j),
    decreases j,
{
    if j > 0 {
        lemma_ch_bytes(cs[j - 1]);
        if i < j { lemma_bytes_of(cs, i, j - 1); } else { lemma_bytes_of(cs, j - 1, j - 1); }
    }
}
spec fn chunk_of(cs: Seq<RawDataMeta>) -> ChunkSize {
    if any_var(cs, cs.len() as int) { ChunkSize::Variable(bytes_of(cs, cs.len() as int) as u64) } else { ChunkSize::Fixed(bytes_of(cs, cs.len() as int) as u64) }
}
/// How often the channels of a block are repeated in it.
spec fn chunks_of(b: DataBlock) -> int {
    let size = bytes_of(b.channels@, b.channels@.len() as int);
    if any_var(b.channels@, b.channels@.len() as int) { 1 } else if size == 0 { 0 } else { b.length@ as int / size }
}
/// The samples a block has for a channel.
spec fn block_len(b: DataBlock, ch: int) -> int {
    match b.layout {
        DataLayout::Contigious => chunks_of(b) * b.channels@[ch].number_of_values,
        DataLayout::Interleaved => b.length@ as int / width_of(b.channels@, b.channels@.len() as int),
    }
}
/// Where the bytes of sample `g` of channel `ch` start.
spec fn block_pos(b: DataBlock, ch: int, g: int) -> int {
    let cs = b.channels@;
    match b.layout {
        DataLayout::Contigious => contig_pos(b.start as int, bytes_of(cs, cs.len() as int), bytes_of(cs, ch), dt_size(cs[ch].data_type), cs[ch].number_of_values as int, g),
        DataLayout::Interleaved => inter_pos(b.start as int, width_of(cs, cs.len() as int), width_of(cs, ch), g),
    }
}
/// The stored sample `g` of channel `ch`.
spec fn block_sample<D: TdmsStorageType>(b: DataBlock, bytes: Seq<u8>, ch: int, g: int) -> D {
    sample_at::<D>(bytes, block_pos(b, ch, g), b.byte_order is Big)
}
/// A block of fixed-size types whose sizes do not overflow and which can be addressed.
spec fn block_ok(b: DataBlock) -> bool {
    &&& b.start + b.length@ <= i64::MAX
    &&& !any_var(b.channels@, b.channels@.len() as int)
    &&& bytes_of(b.channels@, b.channels@.len() as int) <= u64::MAX
}
/// What reading from a block puts into one output: the samples from `skip` on where the block has them.
#[verifier::prophetic]
spec fn block_out<D: TdmsStorageType>(b: DataBlock, bytes: Seq<u8>, ch: int, skip: int, before: Seq<D>, after: Seq<D>) -> bool {
    &&& after.len() == before.len()
    &&& forall|i: int| 0 <= i < before.len() ==> #[trigger] after[i] == if i + skip < block_len(b, ch) { block_sample::<D>(b, bytes, ch, i + skip) } else { before[i] }
}
/// The block stores as many samples of the channel as its entry says.
spec fn fits(b: DataBlock, ch: int) -> bool {
    chunks_of(b) * b.channels@[ch].number_of_values <= block_len(b, ch)
}
