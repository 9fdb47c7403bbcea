// ---- which part of an output a block is to fill
/// Samples a block has for an entry of the plan, after its skip.
spec fn avail(b: DataBlock, e: Option<ChannelReadPlan>) -> int {
    match e {
        Some(p) => imax(0, chunks_of(b) * b.channels@[p.index as int].number_of_values - p.samples_to_skip),
        None => 0,
    }
}
spec fn to_read(b: DataBlock, e: Option<ChannelReadPlan>, p: ChannelProgress) -> int {
    imin(avail(b, e), imax(0, p.samples_target - p.samples_read))
}
/// An entry of the plan which the block can serve.
spec fn serves(b: DataBlock, e: Option<ChannelReadPlan>) -> bool {
    e is Some ==> e->Some_0.index < b.channels@.len() && chunks_of(b) * b.channels@[e->Some_0.index as int].number_of_values <= u64::MAX
}
spec fn done(p: ChannelProgress) -> bool { p.samples_read >= p.samples_target }
/// The part of an output lent for reading from a block.
#[verifier::prophetic]
spec fn lent<D>(e: Option<ChannelReadPlan>, out: &mut [D], out2: &mut [D], p: ChannelProgress, count: int, o: Option<(usize, &mut [D])>) -> bool {
    &&& final(out2)@ == final(out)@
    &&& if e is Some && !done(p) {
        let r = p.samples_read as int;
        &&& o is Some
        &&& o->Some_0.0 == e->Some_0.index
        &&& o->Some_0.1@ == out@.skip(r).take(count)
        &&& out2@ == out@.take(r) + (final(o->Some_0.1)@ + out@.skip(r).skip(count))
    } else {
        o is None && out2@ == out@
    }
}
#[verifier::prophetic]
spec fn lents<D>(l: BlockRead, out: Seq<&mut [D]>, out2: Seq<&mut [D]>, ps: Seq<ChannelProgress>, counts: Seq<usize>, o: Seq<Option<(usize, &mut [D])>>) -> bool {
    &&& o.len() == ps.len()
    &&& out2.len() == ps.len()
    &&& forall|c: int| 0 <= c < ps.len() ==> lent(l.channel_indexes@[c], out[c], out2[c], ps[c], counts[c] as int, #[trigger] o[c])
}
/// ... with the skip of the plan.
#[verifier::prophetic]
spec fn lent_with<D: TdmsStorageType>(e: Option<ChannelReadPlan>, out: &mut [D], out2: &mut [D], p: ChannelProgress, count: int, o: Option<BlockReadChannelConfig<D>>) -> bool {
    match o {
        Some(x) => e is Some && x.samples_to_skip == e->Some_0.samples_to_skip && lent(e, out, out2, p, count, Some((x.channel_index, x.output))),
        None => lent(e, out, out2, p, count, None),
    }
}
#[verifier::prophetic]
spec fn lents_with<D: TdmsStorageType>(l: BlockRead, out: Seq<&mut [D]>, out2: Seq<&mut [D]>, ps: Seq<ChannelProgress>, counts: Seq<usize>, o: Seq<Option<BlockReadChannelConfig<D>>>) -> bool {
    &&& o.len() == ps.len()
    &&& out2.len() == ps.len()
    &&& forall|c: int| 0 <= c < ps.len() ==> lent_with(l.channel_indexes@[c], out[c], out2[c], ps[c], counts[c] as int, #[trigger] o[c])
}
spec fn rooms<D>(l: BlockRead, out: Seq<&mut [D]>, ps: Seq<ChannelProgress>, counts: Seq<usize>) -> bool {
    &&& l.channel_indexes@.len() == ps.len()
    &&& out.len() == ps.len()
    &&& counts.len() == ps.len()
    &&& forall|c: int| 0 <= c < ps.len() && #[trigger] l.channel_indexes@[c] is Some && !done(ps[c]) ==> ps[c].samples_read + counts[c] <= out[c]@.len()
}
fn vs_slice_from_mut<'a, T>(s: &'a mut [T], from: usize) -> (r: &'a mut [T])
    requires from <= old(s)@.len(),
    ensures r@ == old(s)@.skip(from as int), final(s)@ == old(s)@.take(from as int) + final(r)@,
{ &mut s[from..] }
fn vs_slice_to_mut<'a, T>(s: &'a mut [T], to: usize) -> (r: &'a mut [T])
    requires to <= old(s)@.len(),
    ensures r@ == old(s)@.take(to as int), final(s)@ == final(r)@ + old(s)@.skip(to as int),
{ &mut s[..to] }
