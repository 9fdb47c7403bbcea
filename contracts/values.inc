# the sample types, by their contracts
include codec.inc
prelude samples.vrs
prelude strings.vrs
type Complex #[derive(Clone, Copy)]
type ExtendedRaw #[derive(Clone, Copy)]
@each T=i8|u8|i16|u16|i32|u32|i64|u64|f32|f64 N=1|1|2|2|4|4|8|8|4|8
const <@T@ as TdmsStorageType>::SUPPORTED_TYPES @ <@T@ as TdmsStorageType>::read_le
const <@T@ as TdmsStorageType>::NATURAL_TYPE @ <@T@ as TdmsStorageType>::read_le
const <@T@ as TdmsStorageType>::SIZE_BYTES @ <@T@ as TdmsStorageType>::read_le
implextra <@T@ as TdmsStorageType>::read_le number.impl.vrs T=@T@ N=@N@
assume <@T@ as TdmsStorageType>::read_le
assume <@T@ as TdmsStorageType>::read_be
assume <@T@ as TdmsStorageType>::write_le
assume <@T@ as TdmsStorageType>::write_be
assume <@T@ as TdmsStorageType>::size
@end
@each T=bool|ExtendedRaw|LVTime|String F=bool|extended|time|string
const <@T@ as TdmsStorageType>::SUPPORTED_TYPES @ <@T@ as TdmsStorageType>::read_le
const <@T@ as TdmsStorageType>::NATURAL_TYPE @ <@T@ as TdmsStorageType>::read_le
const <@T@ as TdmsStorageType>::SIZE_BYTES @ <@T@ as TdmsStorageType>::read_le
implextra <@T@ as TdmsStorageType>::read_le @F@.impl.vrs laws
assume <@T@ as TdmsStorageType>::read_le
assume <@T@ as TdmsStorageType>::read_be
assume <@T@ as TdmsStorageType>::write_le
assume <@T@ as TdmsStorageType>::write_be
assume <@T@ as TdmsStorageType>::size
@end
@each T=f32|f64 N=4|8 M=8|16
const <Complex<@T@> as TdmsStorageType>::SUPPORTED_TYPES @ <Complex<@T@> as TdmsStorageType>::read_le
const <Complex<@T@> as TdmsStorageType>::NATURAL_TYPE @ <Complex<@T@> as TdmsStorageType>::read_le
const <Complex<@T@> as TdmsStorageType>::SIZE_BYTES @ <Complex<@T@> as TdmsStorageType>::read_le
implextra <Complex<@T@> as TdmsStorageType>::read_le complex.impl.vrs laws T=@T@ N=@N@ M=@M@
assume <Complex<@T@> as TdmsStorageType>::read_le
assume <Complex<@T@> as TdmsStorageType>::read_be
assume <Complex<@T@> as TdmsStorageType>::write_le
assume <Complex<@T@> as TdmsStorageType>::write_be
assume <Complex<@T@> as TdmsStorageType>::size
@end
type EXT_SIZE
type U128_SIZE
type SIZE_DIFF
type LVTIME_SIZE
