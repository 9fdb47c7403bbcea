/// C01: no two types have the same code, and a code is read as its type.
proof fn theorem_codes(s: DataType, t: DataType)
    ensures
        dt_code(s) == dt_code(t) ==> s == t,
        dt_of(dt_code(t)) == Some(t),
{ lemma_dt(t); lemma_dt(s); }
