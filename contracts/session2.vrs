/// TRUSTED: the String of a str has its characters.
#[verifier::external_body]
fn vs_to_string(s: &str) -> (r: String)
    ensures r@ == s@,
{ s.to_string() }
proof fn lemma_write_entries(k: Known, names: Seq<Seq<char>>, f: RawDataMeta, c: Seq<(&str, RawDataIndex)>, o: Vec<ObjectMetaData>)
    requires
        c.len() == names.len(),
        o@.len() == names.len(),
        forall|i: int| 0 <= i < names.len() ==> (#[trigger] c[i]).0@ == names[i] && c[i].1 == index_for(k, names[i], f),
        forall|i: int| 0 <= i < names.len() ==> (#[trigger] o@[i]).path@ == c[i].0@ && o@[i].properties@.len() == 0 && o@[i].raw_data_index == c[i].1,
    ensures
        o == vec_of(write_entries(k, names, f)),
{
    assert forall|i: int| 0 <= i < names.len() implies #[trigger] o@[i] == write_entry(k, names[i], f) by {
        lemma_named(c[i].0);
        lemma_string_of(o@[i].path);
        assert(o@[i].properties@ =~= Seq::<(String, PropertyValue)>::empty());
        lemma_vec_of_properties(o@[i].properties);
    }
    assert(o@ =~= write_entries(k, names, f));
    lemma_vec_of_objects(o);
}
/// The segment of a write, and the bytes of its samples.
spec fn data_of<D: TdmsStorageType>(values: Seq<D>, big: bool) -> Seq<u8> { enc_all::<D>(values, big, values.len() as int) }

/// The properties given, in their order.
spec fn props_given(ps: Seq<(&str, PropertyValue)>) -> Seq<(String, PropertyValue)> { ps.map_values(|p: (&str, PropertyValue)| (string_of(p.0@), p.1)) }
spec fn props_meta(path: Seq<char>, ps: Seq<(&str, PropertyValue)>) -> MetaData {
    MetaData { objects: vec_of(seq![ObjectMetaData { path: string_of(path), properties: vec_of(props_given(ps)), raw_data_index: RawDataIndex::None }]) }
}
/// The segment which sets properties.
spec fn props_segment(path: Seq<char>, ps: Seq<(&str, PropertyValue)>, big: bool) -> Segment {
    emitted(no_flags(), Some(props_meta(path, ps)), None, big)
}
proof fn lemma_props_meta(path: &str, ps: Seq<(&str, PropertyValue)>, m: MetaData)
    requires
        m.objects@.len() == 1,
        m.objects@[0].path@ == path@,
        m.objects@[0].raw_data_index == RawDataIndex::None,
        m.objects@[0].properties@.len() == ps.len(),
        forall|i: int| 0 <= i < ps.len() ==> (#[trigger] m.objects@[0].properties@[i]).0@ == ps[i].0@ && m.objects@[0].properties@[i].1 == ps[i].1,
    ensures m == props_meta(path@, ps),
{
    let o = m.objects@[0];
    assert forall|i: int| 0 <= i < ps.len() implies #[trigger] o.properties@[i] == props_given(ps)[i] by { lemma_string_of(o.properties@[i].0); }
    assert(o.properties@ =~= props_given(ps));
    lemma_vec_of_properties(o.properties);
    lemma_string_of(o.path);
    assert(m.objects@ =~= seq![ObjectMetaData { path: string_of(path@), properties: vec_of(props_given(ps)), raw_data_index: RawDataIndex::None }]);
    lemma_vec_of_objects(m.objects);
}
