# writing through a session
include emit.inc
include readers.inc
include block.inc
type DataLocation
prelude locs.vrs
type DataFormat
type ObjectIndex
type ObjectData
type ActiveObject
type Index
type ObjectPath
prelude ppath.vrs
prelude index.vrs
prelude building.vrs
prelude aschannel.vrs
prelude session.vrs
assume ChannelPath::path
assume DataType::size
type MultiChannelSlice
implextra <MultiChannelSlice as WriteBlock>::data_structure multi.block.vrs
assume MultiChannelSlice::from_slice
assume <MultiChannelSlice as WriteBlock>::data_structure
assume <MultiChannelSlice as WriteBlock>::write
assume <MultiChannelSlice as WriteBlock>::size
assume TdmsWriter::write_segment
assume Index::add_segment
type DataStreamWriter #[verifier::reject_recursive_types(F)] #[verifier::reject_recursive_types(W)]
prelude session2.vrs
assume PropertyPath::path
implextra <&[D] as WriteBlock>::data_structure slice.block.vrs
assume <&[D] as WriteBlock>::data_structure
assume <&[D] as WriteBlock>::write
assume <&[D] as WriteBlock>::size
assume TdmsWriter::sync
type TdmsFileWriter #[verifier::reject_recursive_types(F)] #[verifier::reject_recursive_types(W)]
