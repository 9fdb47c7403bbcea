# the metadata, by its contracts
include objects.inc
assume PropertyValue::datatype
implextra <PropertyValue as TdmsMetaData>::read property.meta.vrs laws
assume <PropertyValue as TdmsMetaData>::read
assume <PropertyValue as TdmsMetaData>::write
assume <PropertyValue as TdmsMetaData>::size
prelude entries.vrs
implextra <ObjectMetaData as TdmsMetaData>::read object.meta.vrs laws
assume <ObjectMetaData as TdmsMetaData>::read
assume <ObjectMetaData as TdmsMetaData>::write
assume <ObjectMetaData as TdmsMetaData>::size
implextra <MetaData as TdmsMetaData>::read metadata.meta.vrs laws
assume <MetaData as TdmsMetaData>::read
assume <MetaData as TdmsMetaData>::write
assume <MetaData as TdmsMetaData>::size
prelude segments.vrs
