// ---- the blocks whose channels hold as many samples as the index says
proof fn lemma_fits_contiguous(b: DataBlock, ch: int)
    requires b.layout == DataLayout::Contigious,
    ensures fits(b, ch),
{ }
proof fn lemma_fits_interleaved(b: DataBlock, ch: int, m: int)
    requires
        b.layout == DataLayout::Interleaved,
        block_ok(b),
        width_of(b.channels@, b.channels@.len() as int) > 0,
        0 <= ch < b.channels@.len(),
        0 <= m,
        forall|i: int| 0 <= i < b.channels@.len() ==> (#[trigger] b.channels@[i]).number_of_values == m,
    ensures fits(b, ch),
{
    let cs = b.channels@;
    let n = cs.len() as int;
    let w = width_of(cs, n);
    lemma_bytes_of(cs, 0, n);
    lemma_even_bytes(cs, n, m);
    let size = bytes_of(cs, n);
    let len = b.length@ as int;
    if size > 0 {
        let c = len / size;
        assert(w > 0) by (nonlinear_arith) requires size == m * w, size > 0, m >= 0, w >= 0;
        assert(m > 0) by (nonlinear_arith) requires size == m * w, size > 0, m >= 0, w >= 0;
        assert(c * size <= len) by (nonlinear_arith) requires c == len / size, size > 0;
        assert(c * m <= len / w) by (nonlinear_arith) requires c * size <= len, size == m * w, w > 0;
    } else {
        if w > 0 { assert(len / w >= 0) by (nonlinear_arith) requires len >= 0, w > 0; }
        assert(chunks_of(b) == 0);
        assert(chunks_of(b) * cs[ch].number_of_values == 0);
    }
}
proof fn lemma_even_bytes(cs: Seq<RawDataMeta>, n: int, m: int)
    requires
        0 <= n <= cs.len(),
        !any_var(cs, cs.len() as int),
        forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).number_of_values == m,
    ensures bytes_of(cs, n) == m * width_of(cs, n),
    decreases n,
{
    if n > 0 {
        lemma_even_bytes(cs, n - 1, m);
        assert(m * width_of(cs, n) == m * width_of(cs, n - 1) + m * dt_size(cs[n - 1].data_type)) by (nonlinear_arith) requires width_of(cs, n) == width_of(cs, n - 1) + dt_size(cs[n - 1].data_type);
    }
}
