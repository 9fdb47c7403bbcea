// ---- requests to a block
/// What reading an output from a block does to it.
#[verifier::prophetic]
spec fn out_read<D: TdmsStorageType>(b: DataBlock, bytes: Seq<u8>, skip: int, o: (usize, &mut [D]), o2: (usize, &mut [D])) -> bool {
    &&& o2.0 == o.0
    &&& final(o2.1)@ == final(o.1)@
    &&& block_out::<D>(b, bytes, o.0 as int, skip, o.1@, o2.1@)
}
spec fn cfgs_ok<T: TdmsStorageType>(cs: Seq<BlockReadChannelConfig<T>>, n: int) -> bool {
    &&& forall|k: int| 0 <= k < cs.len() ==> (#[trigger] cs[k]).channel_index < n
    &&& forall|j: int, k: int| 0 <= j < k < cs.len() ==> (#[trigger] cs[j]).channel_index != (#[trigger] cs[k]).channel_index
}
spec fn cfgs_fed<T: TdmsStorageType>(cs: Seq<RawDataMeta>, r: Seq<BlockReadChannelConfig<T>>) -> bool {
    forall|k: int| 0 <= k < r.len() && (#[trigger] r[k]).output@.len() > 0 ==> cs[r[k].channel_index as int].number_of_values >= 1
}
#[verifier::prophetic]
spec fn cfg_read<D: TdmsStorageType>(b: DataBlock, bytes: Seq<u8>, o: BlockReadChannelConfig<D>, o2: BlockReadChannelConfig<D>) -> bool {
    &&& o2.channel_index == o.channel_index
    &&& final(o2.output)@ == final(o.output)@
    &&& block_out::<D>(b, bytes, o.channel_index as int, o.samples_to_skip as int, o.output@, o2.output@)
}
