# the pieces of metadata
include values.inc
type ToC
type PropertyValue
type RawDataMeta
type RawDataIndex
type ObjectMetaData
type MetaData
type Segment
type LEAD_IN_BYTES
trait TdmsReader
assume TdmsReader::from_reader
assume TdmsReader::read_value
assume TdmsReader::buffered_reader
trait TdmsWriter
tconst TdmsWriter::BIG_ENDIAN_FLAG
assume TdmsWriter::from_writer
assume TdmsWriter::write_value
assume TdmsWriter::sync
prelude wrote.vrs
prelude metas.vrs
trait TdmsMetaData
assume TdmsMetaData::read
assume TdmsMetaData::write
assume TdmsMetaData::size
