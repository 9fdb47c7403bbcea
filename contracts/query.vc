== Index::next_segment_start
ret r
spec {{{
    ensures r == known(*self).next,
}}}

== Index::get_object_property
ret r
spec {{{
    ensures
        r is Ok <==> object_at(*self, ppath(*path)) is Some,
        r is Ok ==> match r->Ok_0 {
            Some(v) => at_name(object_at(*self, ppath(*path))->Some_0.properties@, property@) == Some(*v),
            None => at_name(object_at(*self, ppath(*path))->Some_0.properties@, property@) is None,
        },
}}}

== Index::channel_length
ret r
spec {{{
    ensures r == match object_at(*self, cpath(*path)) {
        Some(o) => Some(imin(prefix(o.data_locations@, o.data_locations@.len() as int), u64::MAX as int) as u64),
        None => None,
    },
}}}
shim map vs_map 1
shim fold vs_fold_sum
closure 0 {{{ -> (r: u64) ensures r == imin(prefix(object.data_locations@, object.data_locations@.len() as int), u64::MAX as int) }}}
closure 1 {{{ -> (r: u64) ensures r == location.number_of_samples }}}
recv fold 0 vs_it {{{
                proof { lemma_total(object.data_locations@, IteratorSpec::remaining(&vs_it), object.data_locations@.len() as int); }
}}}

== ObjectData::get_all_properties
ret r
retype impl Iterator<Item = (&String, &PropertyValue)> => std::collections::btree_map::Iter<'_, String, PropertyValue>
spec {{{
    ensures lists_all(r, self.properties@),
}}}
at ret {{{
        proof {
            let s = IteratorSpec::remaining(&vs_ret);
            assert(s.no_duplicates());
            assert forall|i: int, j: int| 0 <= i < j < s.len() implies *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0 by {
                assert(self.properties@[*s[i].0] == *s[i].1 && self.properties@[*s[j].0] == *s[j].1);
                if *s[i].0 == *s[j].0 { assert(s[i].0 == s[j].0 && s[i].1 == s[j].1); assert(s[i] == s[j]); }
            }
        }
}}}

== Index::get_object_properties
ret r
retype impl Iterator<Item = (&String, &PropertyValue)> => std::collections::btree_map::Iter<'_, String, PropertyValue>
closure 0 {{{ -> (r: std::collections::btree_map::Iter<'_, String, PropertyValue>) ensures lists_all(r, object.properties@) }}}
spec {{{
    ensures
        match object_at(*self, ppath(*path)) {
            Some(o) => r is Some && lists_all(r->Some_0, o.properties@),
            None => r is None,
        },
}}}

== TdmsFile::read_all_properties
ret r
retype impl Iterator<Item = (&String, &PropertyValue)> => std::collections::btree_map::Iter<'_, String, PropertyValue>
spec {{{
    ensures
        match object_at(self.index, ppath(*object_path)) {
            Some(o) => r is Some && lists_all(r->Some_0, o.properties@),
            None => r is None,
        },
}}}

== TdmsFile::read_property
ret r
spec {{{
    ensures
        r is Ok <==> object_at(self.index, ppath(*object_path)) is Some,
        r is Ok ==> match r->Ok_0 {
            Some(v) => at_name(object_at(self.index, ppath(*object_path))->Some_0.properties@, property@) == Some(*v),
            None => at_name(object_at(self.index, ppath(*object_path))->Some_0.properties@, property@) is None,
        },
}}}

== TdmsFile::channel_length
ret r
spec {{{
    ensures r == match object_at(self.index, cpath(*channel)) {
        Some(o) => Some(imin(prefix(o.data_locations@, o.data_locations@.len() as int), u64::MAX as int) as u64),
        None => None,
    },
}}}
