/// The type a property is stored as.
spec fn pv_type(v: PropertyValue) -> DataType {
    match v {
        PropertyValue::Void => DataType::Void,
        PropertyValue::Boolean(_) => DataType::Boolean,
        PropertyValue::I8(_) => DataType::I8,
        PropertyValue::I16(_) => DataType::I16,
        PropertyValue::I32(_) => DataType::I32,
        PropertyValue::I64(_) => DataType::I64,
        PropertyValue::U8(_) => DataType::U8,
        PropertyValue::U16(_) => DataType::U16,
        PropertyValue::U32(_) => DataType::U32,
        PropertyValue::U64(_) => DataType::U64,
        PropertyValue::SingleFloat(_) => DataType::SingleFloat,
        PropertyValue::DoubleFloat(_) => DataType::DoubleFloat,
        PropertyValue::Extended(_) => DataType::ExtendedFloat,
        PropertyValue::String(_) => DataType::TdmsString,
        PropertyValue::ComplexSingleFloat(_) => DataType::ComplexSingleFloat,
        PropertyValue::ComplexDoubleFloat(_) => DataType::ComplexDoubleFloat,
        PropertyValue::Timestamp(_) => DataType::Timestamp,
    }
}
