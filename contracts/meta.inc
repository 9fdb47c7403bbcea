prelude values.vrs
type ExtendedRaw
type ToC
type PropertyValue
type RawDataIndex
type ObjectMetaData
type MetaData
type Segment
type LEAD_IN_BYTES
