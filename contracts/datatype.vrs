spec fn dt_size(t: DataType) -> int {
    match t {
        DataType::Void | DataType::TdmsString => 0,
        DataType::I8 | DataType::U8 | DataType::Boolean => 1,
        DataType::I16 | DataType::U16 => 2,
        DataType::I32 | DataType::U32 | DataType::SingleFloat | DataType::SingleFloatWithUnit | DataType::DAQmxRawData => 4,
        DataType::I64 | DataType::U64 | DataType::DoubleFloat | DataType::DoubleFloatWithUnit | DataType::FixedPoint | DataType::ComplexSingleFloat => 8,
        DataType::ExtendedFloat | DataType::ExtendedFloatWithUnit => 10,
        DataType::Timestamp | DataType::ComplexDoubleFloat => 16,
    }
}
/// `[DataType]::contains`.
fn vs_contains(s: &[DataType], x: &DataType) -> (r: bool)
    ensures r == s@.contains(*x),
{
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), forall|j: int| 0 <= j < i ==> s@[j] != *x,
        decreases s@.len() - i,
    {
        if s[i] == *x { return true; }
        i += 1;
    }
    false
}
