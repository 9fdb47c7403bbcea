# the pieces of metadata, by their contracts
include metas.inc
assume TdmsReader::read_meta
assume TdmsReader::read_vec
assume TdmsWriter::write_meta
implextra <DataType as TdmsMetaData>::read dt.meta.vrs
assume <DataType as TdmsMetaData>::read
assume <DataType as TdmsMetaData>::write
assume <DataType as TdmsMetaData>::size
implextra <ToC as TdmsMetaData>::read toc.meta.vrs
assume <ToC as TdmsMetaData>::read
assume <ToC as TdmsMetaData>::write
assume <ToC as TdmsMetaData>::size
implextra <RawDataIndex as TdmsMetaData>::read rawindex.meta.vrs
assume <RawDataIndex as TdmsMetaData>::read
assume <RawDataIndex as TdmsMetaData>::write
assume <RawDataIndex as TdmsMetaData>::size
prelude pvtype.vrs
prelude objects.vrs
