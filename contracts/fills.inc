include readers.inc
include block.inc
prelude adaptors.vrs
type DataLocation
type ChannelReadPlan #[derive(PartialEq, Eq, Clone)]
type BlockRead
type ChannelProgress
type BlockReadChannelConfig #[verifier::reject_recursive_types(T)]
prelude reqs.vrs
prelude fills.vrs
