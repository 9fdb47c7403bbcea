include fills.inc
prelude values.vrs
type ExtendedRaw
type PropertyValue
type DataFormat
type ObjectIndex
type ObjectData
type ActiveObject
type Index
type TdmsFile #[verifier::reject_recursive_types(F)]
prelude locs.vrs
prelude plan.vrs
prelude ppath.vrs
prelude index.vrs
prelude pathtext.vrs
prelude exec.vrs
assume Index::get_data_block
assume ChannelPath::new
