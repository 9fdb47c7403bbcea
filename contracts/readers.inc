include records.inc
trait TdmsReader
assume TdmsReader::from_reader
assume TdmsReader::read_value
assume TdmsReader::to_file_position
assume TdmsReader::move_position
