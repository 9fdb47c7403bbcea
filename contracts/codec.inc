prelude base.vrs
type TdmsError
type ChannelPath
type PropertyPath
type ObjectPathOwned
type DataType #[derive(Clone, Copy, PartialEq, Eq, Structural)]
prelude streams.vrs
prelude datatype.vrs
prelude wire.vrs
trait TdmsStorageType
tconst TdmsStorageType::SUPPORTED_TYPES
tconst TdmsStorageType::NATURAL_TYPE
tconst TdmsStorageType::SIZE_BYTES
prelude codec.vrs
prelude numbers.vrs
assume TdmsStorageType::read_le
assume TdmsStorageType::read_be
assume TdmsStorageType::write_le
assume TdmsStorageType::write_be
assume TdmsStorageType::size
