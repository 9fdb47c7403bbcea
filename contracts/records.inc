prelude base.vrs
type TdmsError
type DataType #[derive(Clone, Copy, PartialEq, Eq, Structural)]
prelude streams.vrs
prelude datatype.vrs
trait TdmsStorageType
tconst TdmsStorageType::SUPPORTED_TYPES
tconst TdmsStorageType::NATURAL_TYPE
tconst TdmsStorageType::SIZE_BYTES
prelude codec.vrs
prelude iters.vrs
type ChannelPath
type PropertyPath
type ObjectPathOwned
type RawDataMeta
type RecordEntryPlan #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(I)]
type RecordEntry #[verifier::reject_recursive_types(T)]
type RecordPlan #[verifier::reject_recursive_types(T)]
prelude readers.vrs
