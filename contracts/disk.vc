== TdmsFile<File>::load
ret r
shim open vs_open
spec {{{
    ensures
        r is Ok ==> {
            &&& contents(r->Ok_0.file) == stored_at(*path)
            &&& healthy(r->Ok_0.file) ==> scan(stored_at(*path), nothing()) == Some(known(r->Ok_0.index))
            &&& live_ok(r->Ok_0.index.active_objects@, r->Ok_0.index.objects@) && scanned_ok(known(r->Ok_0.index)) && index_ok(r->Ok_0.index)
        },
}}}
at after open {{{
        proof { assert(can_read(file) && can_write(file)); }
}}}

== TdmsFile<File>::create
ret r
shim open vs_open
spec {{{
    ensures
        r is Ok ==> {
            &&& contents(r->Ok_0.file) == Seq::<u8>::empty()
            &&& healthy(r->Ok_0.file) ==> known(r->Ok_0.index) == nothing()
            &&& live_ok(r->Ok_0.index.active_objects@, r->Ok_0.index.objects@) && scanned_ok(known(r->Ok_0.index)) && index_ok(r->Ok_0.index)
        },
}}}
at after open {{{
        proof { assert(can_read(file) && can_write(file)); }
}}}
