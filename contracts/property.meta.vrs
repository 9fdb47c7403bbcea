spec fn parse(b: Seq<u8>, big: bool) -> Option<(PropertyValue, nat)> {
    match DataType::parse(b, big) {
        Some((t, _)) => match t {
            DataType::Void => Some((PropertyValue::Void, 4)),
            DataType::Boolean => match second::<bool>(b, big) { Some((v, n)) => Some((PropertyValue::Boolean(v), n)), None => None },
            DataType::I8 => match second::<i8>(b, big) { Some((v, n)) => Some((PropertyValue::I8(v), n)), None => None },
            DataType::I16 => match second::<i16>(b, big) { Some((v, n)) => Some((PropertyValue::I16(v), n)), None => None },
            DataType::I32 => match second::<i32>(b, big) { Some((v, n)) => Some((PropertyValue::I32(v), n)), None => None },
            DataType::I64 => match second::<i64>(b, big) { Some((v, n)) => Some((PropertyValue::I64(v), n)), None => None },
            DataType::U8 => match second::<u8>(b, big) { Some((v, n)) => Some((PropertyValue::U8(v), n)), None => None },
            DataType::U16 => match second::<u16>(b, big) { Some((v, n)) => Some((PropertyValue::U16(v), n)), None => None },
            DataType::U32 => match second::<u32>(b, big) { Some((v, n)) => Some((PropertyValue::U32(v), n)), None => None },
            DataType::U64 => match second::<u64>(b, big) { Some((v, n)) => Some((PropertyValue::U64(v), n)), None => None },
            DataType::SingleFloat | DataType::SingleFloatWithUnit => match second::<f32>(b, big) { Some((v, n)) => Some((PropertyValue::SingleFloat(v), n)), None => None },
            DataType::DoubleFloat | DataType::DoubleFloatWithUnit => match second::<f64>(b, big) { Some((v, n)) => Some((PropertyValue::DoubleFloat(v), n)), None => None },
            DataType::ExtendedFloat | DataType::ExtendedFloatWithUnit => match second::<ExtendedRaw>(b, big) { Some((v, n)) => Some((PropertyValue::Extended(v), n)), None => None },
            DataType::ComplexSingleFloat => match second::<Complex<f32>>(b, big) { Some((v, n)) => Some((PropertyValue::ComplexSingleFloat(v), n)), None => None },
            DataType::ComplexDoubleFloat => match second::<Complex<f64>>(b, big) { Some((v, n)) => Some((PropertyValue::ComplexDoubleFloat(v), n)), None => None },
            DataType::TdmsString => match second::<String>(b, big) { Some((v, n)) => Some((PropertyValue::String(v), n)), None => None },
            DataType::Timestamp => match second::<LVTime>(b, big) { Some((v, n)) => Some((PropertyValue::Timestamp(v), n)), None => None },
            _ => None,
        },
        None => None,
    }
}
spec fn enc(v: PropertyValue, big: bool) -> Seq<u8> {
    DataType::enc(pv_type(v), big) + match v {
        PropertyValue::Void => Seq::empty(),
        PropertyValue::Boolean(x) => <bool as TdmsStorageType>::enc(x, big),
        PropertyValue::I8(x) => <i8 as TdmsStorageType>::enc(x, big),
        PropertyValue::I16(x) => <i16 as TdmsStorageType>::enc(x, big),
        PropertyValue::I32(x) => <i32 as TdmsStorageType>::enc(x, big),
        PropertyValue::I64(x) => <i64 as TdmsStorageType>::enc(x, big),
        PropertyValue::U8(x) => <u8 as TdmsStorageType>::enc(x, big),
        PropertyValue::U16(x) => <u16 as TdmsStorageType>::enc(x, big),
        PropertyValue::U32(x) => <u32 as TdmsStorageType>::enc(x, big),
        PropertyValue::U64(x) => <u64 as TdmsStorageType>::enc(x, big),
        PropertyValue::SingleFloat(x) => <f32 as TdmsStorageType>::enc(x, big),
        PropertyValue::DoubleFloat(x) => <f64 as TdmsStorageType>::enc(x, big),
        PropertyValue::Extended(x) => <ExtendedRaw as TdmsStorageType>::enc(x, big),
        PropertyValue::String(x) => <String as TdmsStorageType>::enc(x, big),
        PropertyValue::ComplexSingleFloat(x) => <Complex<f32> as TdmsStorageType>::enc(x, big),
        PropertyValue::ComplexDoubleFloat(x) => <Complex<f64> as TdmsStorageType>::enc(x, big),
        PropertyValue::Timestamp(x) => <LVTime as TdmsStorageType>::enc(x, big),
    }
}
spec fn stored_as_is(v: PropertyValue) -> bool {
    match v {
        PropertyValue::Extended(x) => <ExtendedRaw as TdmsStorageType>::stored_as_is(x),
        PropertyValue::String(x) => <String as TdmsStorageType>::stored_as_is(x),
        _ => true,
    }
}
spec fn sane(v: PropertyValue) -> bool { true }
proof fn law_within(b: Seq<u8>, big: bool) {
    if b.len() >= 4 {
        let r = b.skip(4);
        <bool as TdmsStorageType>::law_within(r, big);
        <i8 as TdmsStorageType>::law_within(r, big);
        <i16 as TdmsStorageType>::law_within(r, big);
        <i32 as TdmsStorageType>::law_within(r, big);
        <i64 as TdmsStorageType>::law_within(r, big);
        <u8 as TdmsStorageType>::law_within(r, big);
        <u16 as TdmsStorageType>::law_within(r, big);
        <u32 as TdmsStorageType>::law_within(r, big);
        <u64 as TdmsStorageType>::law_within(r, big);
        <f32 as TdmsStorageType>::law_within(r, big);
        <f64 as TdmsStorageType>::law_within(r, big);
        <ExtendedRaw as TdmsStorageType>::law_within(r, big);
        <String as TdmsStorageType>::law_within(r, big);
        <Complex<f32> as TdmsStorageType>::law_within(r, big);
        <Complex<f64> as TdmsStorageType>::law_within(r, big);
        <LVTime as TdmsStorageType>::law_within(r, big);
    }
    DataType::law_within(b, big);
}
proof fn law_stored(v: PropertyValue, rest: Seq<u8>, big: bool) {
    DataType::law_stored(pv_type(v), Seq::empty(), big);
    lemma_dt_len(pv_type(v), big);
    match v {
        PropertyValue::Void => { DataType::law_stored(pv_type(v), rest, big); assert(Self::enc(v, big) =~= DataType::enc(pv_type(v), big)); },
        PropertyValue::Boolean(x) => { lemma_second::<bool>(pv_type(v), x, rest, big); },
        PropertyValue::I8(x) => { lemma_second::<i8>(pv_type(v), x, rest, big); },
        PropertyValue::I16(x) => { lemma_second::<i16>(pv_type(v), x, rest, big); },
        PropertyValue::I32(x) => { lemma_second::<i32>(pv_type(v), x, rest, big); },
        PropertyValue::I64(x) => { lemma_second::<i64>(pv_type(v), x, rest, big); },
        PropertyValue::U8(x) => { lemma_second::<u8>(pv_type(v), x, rest, big); },
        PropertyValue::U16(x) => { lemma_second::<u16>(pv_type(v), x, rest, big); },
        PropertyValue::U32(x) => { lemma_second::<u32>(pv_type(v), x, rest, big); },
        PropertyValue::U64(x) => { lemma_second::<u64>(pv_type(v), x, rest, big); },
        PropertyValue::SingleFloat(x) => { lemma_second::<f32>(pv_type(v), x, rest, big); },
        PropertyValue::DoubleFloat(x) => { lemma_second::<f64>(pv_type(v), x, rest, big); },
        PropertyValue::Extended(x) => { lemma_second::<ExtendedRaw>(pv_type(v), x, rest, big); },
        PropertyValue::String(x) => { lemma_second::<String>(pv_type(v), x, rest, big); },
        PropertyValue::ComplexSingleFloat(x) => { lemma_second::<Complex<f32>>(pv_type(v), x, rest, big); },
        PropertyValue::ComplexDoubleFloat(x) => { lemma_second::<Complex<f64>>(pv_type(v), x, rest, big); },
        PropertyValue::Timestamp(x) => { lemma_second::<LVTime>(pv_type(v), x, rest, big); },
    }
}
proof fn law_local(b: Seq<u8>, c: Seq<u8>, big: bool) {
    DataType::law_local(b, c, big);
    if b.len() >= 4 {
        lemma_starts_skip(b, c, 4);
        let r = b.skip(4);
        let q = c.skip(4);
        <bool as TdmsStorageType>::law_local(r, q, big);
        <i8 as TdmsStorageType>::law_local(r, q, big);
        <i16 as TdmsStorageType>::law_local(r, q, big);
        <i32 as TdmsStorageType>::law_local(r, q, big);
        <i64 as TdmsStorageType>::law_local(r, q, big);
        <u8 as TdmsStorageType>::law_local(r, q, big);
        <u16 as TdmsStorageType>::law_local(r, q, big);
        <u32 as TdmsStorageType>::law_local(r, q, big);
        <u64 as TdmsStorageType>::law_local(r, q, big);
        <f32 as TdmsStorageType>::law_local(r, q, big);
        <f64 as TdmsStorageType>::law_local(r, q, big);
        <ExtendedRaw as TdmsStorageType>::law_local(r, q, big);
        <String as TdmsStorageType>::law_local(r, q, big);
        <Complex<f32> as TdmsStorageType>::law_local(r, q, big);
        <Complex<f64> as TdmsStorageType>::law_local(r, q, big);
        <LVTime as TdmsStorageType>::law_local(r, q, big);
    }
}
